L = "a_sync/primitives/locks/"
p("C01", "Semaphore permits are conserved on every exit, including cancellation",
  "For every counting semaphore the library offers, the number of free permits plus permits held by running callers always equals the configured capacity: a permit is taken exactly once per successful acquire, given back exactly once per release, and an acquire that is cancelled or never started takes none (or gives back what it was handed). A function decorated with a semaphore, or run inside `async with semaphore`, returns its permit on normal return, exception and cancellation alike, and never runs without holding one.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of acquirers, releases and cancellations, at every await point, for every capacity",
  "Tests sample a few acquire/release orders with well behaved tasks; a leaked or duplicated permit needs a cancellation at one particular await or a particular hand-off order.",
  [L+"semaphore.pyx", L+"prio_semaphore.pyx", "a_sync/a_sync/modifiers/semaphores.py"],
  [("acquire / release / cancellation hand-back", L+"semaphore.pyx: Semaphore.c_acquire, __acquire, release, _wake_up_next"), ("decorator and context manager pairing", L+"semaphore.pyx: decorate, __aenter__, __aexit__"), ("semaphore modifier wrapper", "a_sync/a_sync/modifiers/semaphores.py: apply_semaphore")],
  ["value of the semaphore after all tasks are done", "number of concurrently running bodies"],
  [("value", "free permits", L+"semaphore.pyx")])
p("C02", "Semaphore waiters are served in arrival order and no wake-up is lost",
  "Whenever a permit becomes free while tasks are waiting, it is handed to the longest-waiting live task, and a newcomer never overtakes tasks already waiting. If the chosen waiter is cancelled after being chosen, the permit goes on to the next live waiter, so no task waits forever while a permit is free.",
  ["schedules", "fault_sequences"],
  "every interleaving of waiters, releases and cancellations (including cancellation between hand-off and resumption)",
  "The lost wake-up window is one event-loop tick wide; no test cancels a waiter in it.",
  [L+"semaphore.pyx"],
  [("waiter queue and hand-off", L+"semaphore.pyx: Semaphore.__acquire, _wake_up_next, c_locked")],
  ["order in which waiting tasks resume"])
p("C03", "Priority semaphore serves the most urgent waiter and conserves permits",
  "When a permit of a priority semaphore becomes free it goes to the waiting task with the smallest priority value, first come first served within one priority, and the priority a caller asks for is the priority used. Permits are conserved exactly as for the plain semaphore, and no live waiter is forgotten when waiters are cancelled or priorities come and go.",
  ["schedules", "histories", "inputs"],
  "every history of acquires at any priorities, releases and cancellations",
  "Tests use two or three priorities and no cancellation; ordering and re-registration errors need specific arrival histories.",
  [L+"prio_semaphore.pyx"],
  [("priority heap of per-priority waiter queues", L+"prio_semaphore.pyx: _AbstractPrioritySemaphore._c_wake_up_next, c_getitem"), ("per-priority acquire", L+"prio_semaphore.pyx: _AbstractPrioritySemaphoreContextManager.__acquire")],
  ["order in which waiting tasks resume", "value of the semaphore"])
p("C04", "Setting an event releases every waiter; an unset event releases none",
  "A wait on a set event completes at once; setting the event completes every pending wait exactly once; after clear, new waits block until the next set. A waiter that is cancelled or finished leaves nothing behind in the event and never disturbs other waiters.",
  ["schedules", "fault_sequences"],
  "every interleaving of wait, set, clear and cancellation",
  "Tests set an event once with one or two waiters; a set racing a cancellation or a repeated set/clear needs a specific schedule.",
  [L+"event.pyx"],
  [("flag and waiter list", L+"event.pyx: CythonEvent.c_set, c_wait, __wait, clear")],
  ["completion of wait()"], [("flag", "event is set", L+"event.pyx")])
p("C05", "A counter lock only moves up and releases exactly the waiters it has reached",
  "The counter never decreases (an attempt to decrease raises and changes nothing), and raising it to v releases every task waiting for a value at most v and no task waiting for a larger one. A task asking for a value already reached never blocks, and a cluster of counters waits for all of its members.",
  ["schedules", "histories", "inputs"],
  "every history of wait and set calls with arbitrary values",
  "Tests use a couple of small values; off-by-one and multi-waiter cases need value sets and orders that are not sampled.",
  [L+"counter.pyx"],
  [("value/heap/events", L+"counter.pyx: CounterLock.wait_for, c_set, c_is_ready"), ("cluster", L+"counter.pyx: CounterLockCluster.wait_for")],
  ["which wait_for calls complete"])
p("C06", "Primitives bind waiters to the running loop and keep threads apart",
  "Every wait in a lock primitive is parked on the event loop that is running it: a primitive created outside any loop works in the first loop that uses it and refuses use from a second one instead of waking a waiter on the wrong loop. The thread-safe semaphore gives each thread its own limit, through acquire/release, the context manager and the decorator alike.",
  ["schedules", "programs"],
  "every program using primitives from one or several threads and loops",
  "Tests run on one loop in one thread per primitive.",
  ["a_sync/primitives/_loggable.pyx", "a_sync/primitives/_debug.pyx", L+"semaphore.pyx", L+"event.pyx", L+"prio_semaphore.pyx"],
  [("loop lookup", "a_sync/primitives/_debug.pyx: _LoopBoundMixin._c_get_loop"), ("per-thread semaphores", L+"semaphore.pyx: ThreadsafeSemaphore")],
  ["RuntimeError on cross-loop use", "concurrency seen per thread"])
Q = "a_sync/primitives/queue.py"
p("C07", "Bulk queue reads return each queued item exactly once, in order",
  "Items put on a queue come back from the single and bulk read operations exactly once and in queue order: no bulk read drops, repeats or reorders an item, also when fewer items are available than asked for. A bulk read asked for n items waits for n unless told it may return fewer, and one that may return fewer waits only until it has at least one.",
  ["schedules", "histories", "inputs"],
  "every history of puts and bulk/non-blocking reads and every requested size",
  "Tests read fixed sizes from a full queue; loss needs a read that comes up short or races a slow producer.",
  [Q], [("bulk getters", Q+": Queue.get, get_nowait, get_all, get_all_nowait, get_multi, get_multi_nowait")],
  ["items returned"])
p("C08", "Every accepted work item runs once and its future always resolves",
  "Each item accepted by a processing queue is handed to the worker function exactly once with the arguments given, its future receives that call's result or exception, and the queue's unfinished count drops by exactly one per item. The one exception: a smart-queue request whose every caller has let go of it may be dropped unrun (still counted done once). A failing, cancelled or abandoned item never stops the workers from serving the remaining items.",
  ["schedules", "fault_sequences", "histories"],
  "every mix of succeeding, raising and cancelled items, awaited or dropped futures, and worker counts",
  "Tests process a handful of succeeding items; worker death needs a specific failing item followed by others.",
  [Q], [("worker loop", Q+": ProcessingQueue.__worker_coro, put, put_nowait")],
  ["future returned by put", "join()"])
p("C09", "A smart queue never runs equal in-flight work twice",
  "While a request is queued or running, another request with equal arguments joins it and shares its outcome instead of being enqueued again; once it finished, succeeding or failing, an equal request is run anew. Among waiting requests the one with most waiters is served first, and every joined caller gets the same result or exception.",
  ["schedules", "histories", "inputs"],
  "every interleaving of equal and different requests with success, failure and abandonment",
  "Tests enqueue a few duplicates that all succeed.",
  [Q, "a_sync/_smart.py"], [("in-flight table", Q+": SmartProcessingQueue.put, put_nowait, _get, __worker_coro"), ("waiter counting", "a_sync/_smart.py: _SmartFutureMixin")],
  ["number of executions of the worker function"])
p("C10", "A closed processing queue accepts nothing and still finishes what it took",
  "After a processing queue was closed, every way of adding work is refused with a RuntimeError and nothing is enqueued, while items accepted earlier are still processed. Before it is closed, no work is refused.",
  ["histories", "schedules"],
  "every history of put, put_nowait, call, map and close",
  "Tests exercise at most one refusing entry point.",
  [Q, "a_sync/exceptions.py"], [("closed flag check", Q+": ProcessingQueue._ensure_workers/put/put_nowait/close")],
  ["exception raised by put after close"])
F = "a_sync/a_sync/function.pyx"; M = "a_sync/a_sync/method.pyx"; FL = "a_sync/a_sync/_flags.pyx"; K="a_sync/a_sync/_kwargs.pyx"
p("C11", "Call mode follows flag, then declared default, then instance, then definition",
  "A call runs synchronously exactly when the call's own sync/asynchronous flag says so; without a flag the function's declared default decides, then the mode of the owning instance or class, then whether the wrapped function is a plain or a coroutine function. A synchronous call returns the finished result, an asynchronous one always returns an awaitable, and the two flag spellings have opposite meaning everywhere.",
  ["inputs", "configurations", "programs"],
  "every combination of call flag, declared default, instance mode and kind of wrapped function",
  "The full product of flag spelling x default x instance x function kind x entry point is only sampled by tests.",
  [F, M, FL, K, "a_sync/a_sync/abstract.pyx", "a_sync/a_sync/base.pyx", "a_sync/a_sync/property.pyx", "a_sync/a_sync/flags.py"],
  [("flag tables and polarity", "a_sync/a_sync/flags.py, "+FL), ("per call decision", F+": _ASyncFunction.__call__, _run_sync; "+M+": ASyncBoundMethod.__call__, _should_await"), ("instance mode", "a_sync/a_sync/abstract.pyx: ASyncABC; a_sync/a_sync/base.pyx")],
  ["type of the value returned by the call"])
p("C12", "Contradictory or ambiguous mode requests are rejected before anything runs",
  "Giving both flag spellings in one call, instance or class, declaring a user parameter with a flag's name, giving an unknown default mode when decorating, or decorating a generator function raises the library's dedicated error before any user code runs. No call that names a single valid flag is rejected this way.",
  ["inputs", "programs"],
  "every keyword set, every decorated signature, every class declaration",
  "Tests try a few of the flag/entry-point combinations.",
  [K, F, "a_sync/a_sync/base.pyx", "a_sync/exceptions.py", "a_sync/a_sync/_flags.pyx"],
  [("flag counting", K+": get_flag_name/is_sync"), ("signature validation", F+": _validate_wrapped_fn, _check_not_genfunc"), ("class/instance flags", "a_sync/a_sync/base.pyx")],
  ["exception type"])
p("C13", "Blocking on a coroutine inside a running loop raises a dedicated, clean error",
  "When a synchronous call would have to run a coroutine while the calling thread's event loop is already running, the caller gets the library's sync-mode-in-async-context error instead of a deadlock or a bare loop error, and no coroutine is left un-awaited. Any other error raised by the user's coroutine reaches the caller unchanged.",
  ["programs", "schedules", "fault_sequences"],
  "every synchronous call made inside or outside a running loop and every exception the wrapped code may raise",
  "Tests cover a couple of entry points and no look-alike user RuntimeError.",
  ["a_sync/a_sync/_helpers.pyx", "a_sync/exceptions.py"], [("await helper", "a_sync/a_sync/_helpers.pyx: _await, get_event_loop")],
  ["exception type seen by the caller"])
p("C14", "Wrapping is transparent: arguments, results and errors pass through unchanged",
  "In both modes the wrapped function receives exactly the caller's positional and keyword arguments minus the mode flag, is executed exactly once per (uncached) call, and its return value or exception reaches the caller unchanged. The mode flag itself is never forwarded to user code.",
  ["inputs", "programs"],
  "every argument list, mode, modifier set and wrapped function",
  "Tests call a few fixed signatures per wrapper.",
  [F, M, "a_sync/a_sync/_helpers.pyx"], [("forwarding wrappers", F+": ASyncFunctionAsyncDefault/ASyncFunctionSync _async_wrap/_sync_wrap, modified_fn"), ("bound call", M+": __call__")],
  ["arguments seen by the user function"])
ME="a_sync/a_sync/_meta.py"
p("C15", "Every public callable of a dual-mode class becomes dual-mode, and only those",
  "For a class built on the library's base classes every public function, and every property or cached property made with the library's decorators, defined in its body becomes dual-mode, while underscore-prefixed names, excluded internals and plain attributes are left exactly as written. Modifiers declared on the class apply to each member unless the member declares its own value, and one class's modifiers never leak into another class.",
  ["programs"],
  "every class body and inheritance shape",
  "Tests define a handful of classes.",
  [ME], [("class construction", ME+": ASyncMeta.__new__, ASyncSingletonMeta")],
  ["type of class attributes"])
p("C16", "Instance and class mode flags are honoured consistently",
  "An instance's mode is the value of its flag attribute: the flag given to the constructor, else the constructor's default argument, else the nearest class-level flag along the inheritance order; a class or construction with contradictory flags fails. Once resolved it stays the same for the instance's life, unless the class makes its flag value a non-cached property. Every method and property called without a flag follows that instance mode; a property on any other class is awaited for the caller unless the event loop is running.",
  ["inputs", "programs", "configurations"],
  "every declaration style (constructor argument, attribute, default) and polarity",
  "Tests cover the four obvious styles, not their combinations or inheritance.",
  ["a_sync/a_sync/abstract.pyx", "a_sync/a_sync/base.pyx"], [("instance flag lookup", "a_sync/a_sync/abstract.pyx: ASyncABC.__a_sync_should_await__ / base.pyx: ASyncGenericBase")],
  ["type of the value returned by members"])
p("C17", "Bound methods are per instance and do not keep their instance alive",
  "Accessing a dual-mode method on an instance yields a callable bound to that instance only, the same one while it is in use, and calling it never reaches another instance, even after instances are destroyed and memory is reused or an instance is copied; reaching an overridden method with super() gives the overridden one and leaves the override's binding alone. The binding holds its instance weakly and is dropped from the instance after its idle period (re-arming that period disturbs no other timer of the loop); only the idle timer of a generator method keeps the instance alive for that period. Using a binding whose instance is gone raises a reference error instead of running.",
  ["histories", "programs"],
  "every history of instance creation, access, call, destruction and address reuse",
  "Tests use one or two live instances.",
  [M], [("descriptor cache", M+": ASyncMethodDescriptor.__get__, ASyncBoundMethod.__self__, _cache_handle")],
  ["self seen by the user function"])
p("C18", "A singleton class has one instance per mode, also under concurrent creation",
  "However many threads construct a singleton dual-mode class at once, there is at most one instance per mode (synchronous and asynchronous), initialised exactly once, and every later construction with that mode returns it. Different singleton classes never share instances.",
  ["schedules", "programs"],
  "every interleaving of constructions from several threads and every class hierarchy",
  "Tests construct sequentially in one thread.",
  [ME, "a_sync/a_sync/singleton.py"], [("double-checked creation", ME+": ASyncSingletonMeta.__call__")],
  ["identity of constructed instances"])
PR="a_sync/a_sync/property.pyx"
p("C19", "A cached property computes once per instance; properties expose hidden methods",
  "A cached property's getter runs once per instance however many tasks ask for it concurrently; all of them get that value, the value is stored under that property only, and cancelling or failing one request neither poisons other instances nor leaves a request hanging. A plain property re-evaluates on each access, and every dual-mode property also exposes its getter method, which accepts a mode flag.",
  ["schedules", "histories", "programs"],
  "every interleaving of concurrent and repeated accesses in both modes",
  "Tests access properties sequentially with a succeeding getter.",
  [PR], [("property descriptors", PR+": ASyncPropertyDescriptor*, ASyncCachedPropertyDescriptor*, HiddenMethod")],
  ["number of getter executions"])
MM="a_sync/a_sync/modifiers/manager.pyx"
p("C20", "Every requested modifier is applied once, in the documented order",
  "If a cache, rate limit or semaphore is configured for a function, every asynchronous execution of it goes through each of them exactly once: a cached result is returned without consuming the rate limit or a permit, and the rate limit and permit guard only the user function. Each modifier gets the values the user configured, and modifiers that were not requested are absent.",
  ["configurations", "programs"],
  "every subset and value of modifiers, on functions, methods and properties",
  "Tests set one modifier at a time with one value.",
  [MM, "a_sync/a_sync/modifiers/limiter.py", "a_sync/a_sync/modifiers/semaphores.py", "a_sync/a_sync/modifiers/cache/__init__.py", "a_sync/a_sync/modifiers/cache/memory.py"],
  [("stack of modifiers", MM+": ModifierManager.apply_async_modifiers, apply_sync_modifiers"), ("appliers", "a_sync/a_sync/modifiers/*")],
  ["concurrency, rate and number of executions of the user function"])
p("C21", "Modifier values come from the call site, else the environment, else neutral",
  "For each modifier the effective value is the one given explicitly, else the process-wide default taken from its documented environment variable, else the neutral value; invalid names are rejected when decorating, and values of an invalid type (or a cache size that is not positive) before the function runs. Integer limits given when decorating a function or on a class become one shared limiter object, so the limit is enforced across all calls and not per call.",
  ["configurations", "inputs"],
  "every environment and every explicit modifier set",
  "The suite runs in one environment, so the default tables are exercised with a single value.",
  [MM, "a_sync/a_sync/config.py", "a_sync/a_sync/modifiers/__init__.py", "a_sync/ENVIRONMENT_VARIABLES.py"],
  [("precedence", MM+": ModifierManager.__getattr__/__init__"), ("default tables", "a_sync/a_sync/config.py"), ("shared limiters", "a_sync/a_sync/modifiers/__init__.py: get_modifiers_from")],
  ["effective modifiers of a decorated function"])
CT="a_sync/asyncio/create_task.pyx"
p("C22", "Persisted background tasks stay alive until done and report their failures",
  "A task created with the skip-garbage-collection option is strongly held until it is done and released afterwards; a failure nobody retrieved is reported through the log. No failure or cancellation of one background task is ever raised into the unrelated code that creates the next one, and the created task runs exactly the awaitable given with the given name and loop.",
  ["schedules", "fault_sequences", "histories"],
  "every history of created tasks that finish, fail or are cancelled in any order",
  "Tests create one task; a poisoned registry needs a cancelled or failed task followed by another creation.",
  [CT], [("persisted task registry", CT+": ccreate_task, __prune_persisted_tasks, __await")],
  ["exceptions seen by callers of create_task", "liveness of unreferenced tasks"])
T="a_sync/task.py"
p("C23", "Task mappings run one task per key and yield each key exactly once",
  "A task mapping starts exactly one task per distinct key it is given, iteration in any form (map, yield, async for, keys/values/items, awaiting the mapping) delivers every key exactly once with its own key's result, and a task failure propagates to the consumer. Popping while iterating removes every key as it is delivered and leaves the mapping empty (a key already popped may be started again by asking for it).",
  ["schedules", "inputs", "histories"],
  "every set of iterables, completion order and moment of consumption",
  "Completion orders and loader/consumer races are sampled by a few short runs.",
  [T], [("task start and yield loops", T+": TaskMapping._start_tasks_for_iterables, map, yield_completed, __aiter__, gather, pop"), ("views", T+": TaskMappingKeys/Values/Items")],
  ["keys and values yielded"])
p("C24", "Task mapping aggregates agree with the built-ins and handle empty input",
  "any, all, min, max and sum over a task mapping return what the same built-in returns for the collected results, for every result set and completion order; a mapping given only empty iterables behaves like the empty built-in call (one never given any raises MappingIsEmptyError). An aggregate that can answer early does so without waiting for the rest, and a failing task raises instead of being counted.",
  ["inputs", "schedules"],
  "every multiset of results and every completion order",
  "Tests use one set of positive results.",
  [T, "a_sync/utils/__init__.py"], [("aggregates", T+": TaskMapping.any, all, min, max, sum"), ("standalone any/all", "a_sync/utils/__init__.py")],
  ["aggregate value"])
G="a_sync/asyncio/gather.pyx"; AC="a_sync/asyncio/as_completed.pyx"
p("C25", "gather returns every result under its own position or key",
  "gather over positional awaitables returns results in argument order, and over a mapping returns a mapping from each original key to its own result in original key order, with or without progress display. return_exceptions decides between raising the first failure and returning failures in place, and an exclusion predicate removes exactly the results it selects.",
  ["inputs", "schedules"],
  "every mapping/argument list, completion order, failure pattern and option set",
  "Tests gather two or three quick successes.",
  [G], [("gather", G+": gather, gather_mapping, cgather")],
  ["returned list or dict"])
p("C26", "as_completed yields every awaitable once, paired with its key, in finish order",
  "Iterating as_completed over a list or mapping yields each awaitable's outcome exactly once as it finishes; over a mapping each result (or, when requested, exception) is paired with its own key. The timeout given by the caller is the one applied, failures propagate unless exceptions were asked for, and progress display changes none of this.",
  ["schedules", "inputs"],
  "every mapping/list, completion order, failure pattern and option set",
  "Tests use a few succeeding awaitables.",
  [AC], [("as_completed", AC+": as_completed, as_completed_mapping, __mapping_wrap, _exc_wrap")],
  ["yielded pairs"])
U="a_sync/utils/iterators.py"
p("C27", "Merging async iterators yields all items, surfaces errors and leaks no worker",
  "Merging several async iterators yields every item of every iterator exactly once, keeps each iterator's own order, ends when all are exhausted and never yields an internal marker. An error in any iterator reaches the consumer, and when the consumer stops, fails or is cancelled the background readers are cancelled.",
  ["schedules", "fault_sequences", "inputs"],
  "every number and length of iterators, interleaving, failure and early exit",
  "Tests merge two or three short iterators that succeed.",
  [U], [("merging", U+": as_yielded, exhaust_iterator(s)")],
  ["items yielded", "tasks alive after the loop"])
FU="a_sync/future.py"
p("C28", "Operators on lazy futures equal the same operator on their results",
  "Each arithmetic, comparison, container or conversion operator applied to a lazy future gives exactly what the same operator gives on the awaited operands, with operands in the written order, including reflected forms and in mixed future/plain combinations. Operands are evaluated once, and an operand's exception is raised by the combined future.",
  ["inputs", "programs"],
  "every operator, operand order and mix of future and plain operands",
  "About forty operators times operand kinds; tests sample a few of each.",
  [FU], [("operator methods", FU+": ASyncFuture.__add__ ... __radd__ ..., binary helpers")],
  ["value of the combined future"])
p("C29", "A lazy future evaluates its awaitable once and reports the same outcome to all",
  "However often and however concurrently a lazy future is awaited or its result is read, its underlying awaitable is executed at most once and every reader gets the same value or exception. A function decorated to return futures starts its call with exactly the arguments given after awaiting any future arguments, on functions and on methods.",
  ["schedules", "inputs", "programs"],
  "every number and timing of readers, both modes, and every argument mix",
  "Tests await each future once.",
  [FU], [("future resolution", FU+": ASyncFuture.__await__, result, _fulfill; _ASyncFutureWrappedFn, future()")],
  ["number of executions of the awaitable"])
I="a_sync/iter.pyx"
p("C30", "Dual-mode iterables give the same items in for and async for",
  "Iterating a dual-mode iterable, iterator or generator function with for gives exactly the items, order, end and exceptions that async for gives, and a single-use iterator ends cleanly in both modes. Wrapping neither drops, repeats nor pre-consumes items.",
  ["inputs", "programs"],
  "every wrapped iterable, in either mode, including failing and empty ones",
  "Tests wrap a short range.",
  [I], [("bridges", I+": ASyncIterable, ASyncIterator, ASyncGeneratorFunction")],
  ["items yielded"])
p("C31", "Filtered views keep exactly the matching items and sorted views all of them",
  "A filtered view yields exactly the items for which the (plain or async) predicate is true, in source order, and evaluates it once per item; a sorted view yields every item exactly once, ordered by the (plain or async) key and stably, reversed if asked. This holds for sync and async sources alike.",
  ["inputs", "programs"],
  "every source kind, predicate/key kind, item set and reverse option",
  "The product of source kind, key kind and reverse is sampled by tests.",
  [I], [("filter", I+": ASyncFilter"), ("sorter", I+": ASyncSorter")],
  ["items yielded"])
E="a_sync/executor.py"
p("C32", "Executors run each job once and deliver its outcome; pruning never strands work",
  "Work given to any of the library's executors is run exactly once with the given arguments, in the caller's thread when configured for zero workers, and the returned future gets that job's result or exception. A thread pool that prunes idle workers never drops below the one needed to serve queued work, updates its thread bookkeeping only while holding its lock, and still honours shutdown.",
  ["schedules", "fault_sequences", "inputs"],
  "every job, pool size and interleaving of submission, idling, pruning and shutdown",
  "Pruning needs an idle timeout racing a submission; tests wait for one prune.",
  [E], [("run/submit", E+": _AsyncExecutorMixin.run, submit"), ("pruning pool", E+": PruningThreadPoolExecutor, _worker")],
  ["future outcome", "thread count"])
p("C33", "Native buffers are freed exactly once and never used uninitialised",
  "Every natively allocated buffer is allocated large enough for what is copied into it, checked before use, released exactly once when its object dies, and never read when construction failed before allocation. No object can be destroyed twice or crash the interpreter at exit.",
  ["histories", "fault_sequences", "inputs"],
  "every construction (including failing and repeated initialisation), subclass and destruction",
  "Tests never observe native heap state; a double free shows as an abort after the report.",
  [L+"semaphore.pyx", L+"event.pyx", L+"counter.pyx"], [("malloc/strcpy/free", L+"*.pyx: __init__, __dealloc__")],
  ["process exit status"])
p("C34", "Caches keyed by object identity never answer for a different object",
  "Where the library remembers a decision about an object by its identity, that object (or its key) is kept alive or revalidated for as long as the entry lives, so an entry is never applied to an unrelated object that reuses the same address. Classification of a function, method or instance therefore never depends on what was garbage collected before. What a weakly keyed cache remembers about an object does not keep that object alive.",
  ["histories", "programs"],
  "every allocation and collection history",
  "Address reuse after collection is not controllable in ordinary tests.",
  [F, M, "a_sync/a_sync/base.pyx"], [("identity caches", F+", "+M+", a_sync/a_sync/base.pyx")],
  ["mode/validation decisions"])
p("C35", "No cancellation or user exception is swallowed",
  "An exception raised by user code, and every cancellation delivered to a library coroutine, reaches the awaiting caller (or the future/task/log that stands for it) on every path of every module; handlers consume only the signal they exist for (end of iteration, empty queue, missing key, closed loop). Cleanup that must follow runs on every exit.",
  ["fault_sequences", "programs"],
  "every exception type and cancellation at every await in the library",
  "Tests inject a few exceptions and almost no cancellations.",
  ["a_sync/"], [("all except/finally clauses", "whole package")],
  ["exceptions at the API"])
p("C36", "Debug logging never changes behaviour",
  "Turning debug logging on or off changes only what is logged: the same work is done in the same order, the same values are returned and the same errors raised on the logging and non-logging path of every operation. Debug helpers such as stuck-lock watchers never keep their lock alive, mutate it, or fail the operation they watch.",
  ["configurations", "programs"],
  "both logger settings for every operation with a debug path",
  "The suite runs at one log level, so half of each logging branch pair is never executed.",
  ["a_sync/"], [("isEnabledFor(DEBUG) branches and watcher daemons", "whole package")],
  ["results at both log levels"])
p("C37", "shield protects the inner awaitable and loop plumbing keeps the caller's options",
  "Cancelling a caller of a shielded call never cancels the shielded work, and an uncancelled caller gets its result or exception. Options a caller or the event loop passes to the asyncio wrappers and the task factory (name, loop, context, return_exceptions, timeout, progress) reach the underlying operation unchanged.",
  ["schedules", "inputs", "programs"],
  "every cancellation point and option set",
  "Tests do not cancel shielded callers.",
  ["a_sync/_smart.py", "a_sync/asyncio/"], [("shield", "a_sync/_smart.py: shield; a_sync/asyncio/*")],
  ["state of the inner task after cancellation"])
p("C38", "The rate limit is met over time and cached results expire on time",
  "A function limited to n runs per minute never starts more than n times (plus the documented burst) in any minute, and a cached result with a time-to-live is never returned after it expired nor recomputed before.",
  ["schedules", "histories"],
  "every arrival pattern and clock history",
  "Needs long runs with controlled clocks.",
  ["a_sync/a_sync/modifiers/limiter.py", "a_sync/a_sync/modifiers/cache/memory.py"], [("limiter", "third-party aiolimiter"), ("ttl cache", "third-party async_lru")],
  ["start times of executions"])
p("C39", "Every waiter and every queued item is eventually served",
  "As long as permits are released, counters raised and workers alive, each waiting task eventually resumes and each queued item is eventually processed, whatever the load from newer arrivals.",
  ["schedules"],
  "every infinite fair schedule",
  "A liveness property over infinite executions.",
  [L, Q, E], [("hand-off and worker loops", L+"*, "+Q)],
  ["progress of waiting tasks"])
p("C40", "Every way to map or aggregate a callable runs it, with the caller's options",
  "Mapping or aggregating (map, any, all, min, max, sum) through a dual-mode function, a bound method, a method on its class or a property on its class builds one task mapping of exactly that callable over all given iterables, keeps the caller's concurrency, name and keyword arguments, adds none, and returns the aggregate of that name. Each task calls the callable asynchronously with its own key, whatever the callable's or the instance's default mode.",
  ["inputs"],
  "every kind of wrapped callable, default mode, sync/async definition, option set and number of iterables",
  "Tests aggregate a few functions in one mode and never combine options, kinds and defaults.",
  ["a_sync/a_sync/function.pyx", "a_sync/a_sync/method.pyx", "a_sync/a_sync/_descriptor.py", "a_sync/a_sync/property.pyx", T], [("entry points", "a_sync/a_sync/function.pyx: ASyncFunction.map/any/all/min/max/sum; a_sync/a_sync/method.pyx: ASyncBoundMethod; a_sync/a_sync/_descriptor.py: ASyncDescriptor; a_sync/a_sync/property.pyx: _ASyncPropertyDescriptorBase.map"), ("what a task calls", T+": TaskMapping.__init__, _unwrap")],
  ["task mapping built", "aggregate value", "mode of each call"])
p("C41", "A priority queue serves the most urgent item first, equal ones by arrival",
  "A priority processing queue hands its workers the waiting item with the smallest priority value, items of equal priority in the order they were put, and never compares the items themselves. A variable priority queue hands out the item which is smallest at the moment it is asked, although the order of waiting items may have changed since they were put.",
  ["inputs", "histories"],
  "every priority, argument and history of puts and gets, with and without results",
  "Tests put a handful of items with distinct priorities.",
  [Q], [("placing", Q+": PriorityProcessingQueue.put_nowait, _counter"), ("storage", Q+": _PriorityQueueMixin, _VariablePriorityQueueMixin")],
  ["order of service"])
