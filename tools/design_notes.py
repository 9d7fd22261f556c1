{
"C03": "ties inside one priority are served first come first served; priorities are the C int the code casts to.",
"C04": "histories of bounded length over at most 3 waiters (longer in the thorough tier); the waiters a method finds are arbitrary mixtures of live, done and cancelled ones.",
"C05": "counter values from a start of 5 and targets 4 to 9 stand for below/at/above; bounded histories (longer in the thorough tier).",
"C06": "the executor's loop binding is never detected because of the known finding.",
"C09": "the cached repr key and the wake order are decided on concrete sets of waiters; ties are ignored.",
"C16": "a class that makes its flag a property is exempt, as the property says.",
"C18": "a singleton whose `__init__` constructs its own class deadlocks (the lock is not re-entrant); noted, not claimed.",
"C19": "`copy.copy` of an instance shares `__async_property__` state; a late waiter may store a stale value if the cache is deleted and reloaded before it resumes. Both are outside what the rule drives.",
"C22": "known tasks per run: 4; the pruning is also followed with an arbitrary mixture of done and pending tasks.",
"C23": "2 keys in the quick tier, 3 in the thorough one. A consumer that pops keys itself during iteration is not covered; as_yielded, as_completed and gather are summarised (they are C25 to C27).",
"C24": "results are known booleans or opaque values; floating compensation of `sum` and ties of max/min are not compared. `TaskMapping` inside `any` etc. is summarised by what C23 establishes.",
"C25": "the documentation says exclude_if is not applied to mappings, the code applies it; the property follows the code.",
"C27": "two mutants that only drop a `task_done` nobody waits for are not reported: they change nothing observable.",
"C31": "an asynchronous key is a function `asyncio.iscoroutinefunction` recognises; a predicate may return any awaitable.",
"C32": "a StopIteration raised by a job cannot be put in an asyncio future before Python 3.12.4; `submit(fn=...)` clashes by name; the race of interpreter exit with a registering thread is not covered.",
"C33": "buffers are followed per object from allocation to dealloc, including a `__cinit__` or `__init__` that raised.",
"C35": "`TaskMapping.__aiter__` exceeds the state limit of this rule; its handling of cancellation is covered under C23.",
"C40": "one or two iterables; the aggregate itself is C24, concurrency C21/C22. Aggregates of properties take one iterable.",
}
