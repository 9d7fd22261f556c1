"""Typestate of the waiter queue over every path of acquire/release (helpers inlined, cancellation and closing
injected at the wait): waiters join at the tail, are walked from the head, only finished ones are skipped, a permit
is only taken directly after the queue was found without live waiters, every freed permit is followed by a walk
over the waiters, and each waiter leaves the queue exactly once."""
from ..lib import *
from .. import locks as L

ASSUMPTIONS = [
    "collections.deque keeps insertion order; asyncio futures behave as documented",
]
TEXT = {
    "fifo": "waiters are queued at the tail and found from the head",
    "scan": "a wake-up passes over a waiter only when it is known to be finished",
    "barge": "a free permit is taken directly only when no live waiter is queued",
    "wake": "whenever a permit becomes free the waiters are looked at before the operation ends",
    "queue": "a waiter enters the queue once and leaves it exactly once, on every exit",
}


def check(ctx):
    m = ctx.model
    for k, t in TEXT.items():
        ctx.rule(k, t, 4)
    ctx.rule("waits", "a contended acquire waits on its own queued future", 1)
    for debug in (False, True):
        for name in ("Semaphore", "ThreadsafeSemaphore"):
            c = L.klass(m, L.SEM, name)
            for op, before, after in (("acquire", 0, 1), ("__aenter__", 0, 1), ("release", 1, 0), ("__aexit__", 1, 0)):
                f, sync, out = L.run_api(ctx, c, op, L.Sem(debug=debug), True)
                pr = L.judge(ctx, None, c, op, f, out, before, after)
                con = "%s.%s" % (name, op)
                for rule in TEXT:
                    p = pr.get(rule)
                    ctx.ob(rule, con, p is None, L.where(f), p[0] if p else "", p[1].st.path() if p else ())
                if before == 0:
                    got = [x for x in out if x.kind == "return" and L.tsget(x.st, "used")]
                    ctx.ob("waits", con, bool(got), L.where(f), "no path waits for a permit")
                    for x in out:
                        if x.kind == "return" and L.tsget(x.st, "used") and L.tsget(x.st, "fut") is None:
                            ctx.ob("waits", con, False, L.where(f), "waits on a future nobody can complete", x.st.path())
