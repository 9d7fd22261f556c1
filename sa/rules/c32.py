"""Executors.  `submit` and `run` of each executor are interpreted with and without workers: the job reaches the pool, or the caller's thread,
once and with its arguments, and what comes back is its outcome.  The worker of the pruning pool and the method which starts workers are
interpreted over every answer of the queue, the idle semaphore, the executor reference and the thread count, with the locks held at each step:
a worker which leaves has taken back the idle token a submission would rely on, under the locks, while another worker stays."""
from ..lib import *
from .. import locks as L
from . import c20

ASSUMPTIONS = ["the executors of the standard library run what is submitted once and complete its future", "`wrap_future(f)` completes with the outcome of f",
               "submit of the thread pool puts the job and then calls `_adjust_thread_count`, under `_shutdown_lock`; shutdown sets `_shutdown` under that lock and then joins the threads of `_threads`",
               "a StopIteration raised by a job cannot be put in an asyncio future (Python before 3.12.4)"]
MOD = "a_sync.executor"
FN, A1, K1, VAL, ERR = ("tok", "the job"), ("tok", "argument 1"), ("tok", "argument k"), ("tok", "the result"), ("exc", "UserError", "of the job")
POOLFUT, WRAPPED, FUT = ("tok", "future of the pool"), ("tok", "wrapped future"), ("tok", "future created")
Q, REF, EXEC, ITEM, THREAD, ME = ("tok", "work queue"), ("tok", "executor reference"), ("tok", "executor"), ("tok", "work item"), ("tok", "thread"), ("tok", "current thread")
INIT, TIMEOUT = ("tok", "initializer"), ("tok", "timeout")
GONE = ("exc", "queue.Empty", "timeout")


# ------------------------------------------------------------------ submission
class Submit(Client):
    data = ('argument 1', 'argument k', 'the result')
    kd = True
    debug = False
    model_raises = True

    def __init__(self, m, cls, sync):
        self.m, self.cls, self.sync = m, cls, sync

    def inline(self, f):
        return f.name not in NOINLINE and "debug" not in f.name

    def inline_property(self, f):
        return False

    def model_attr(self, st, base, name):
        if base[0] == "self" and name == "sync_mode":
            return const(self.sync)
        if base[0] == "self" and name == "_max_workers":
            return const(0 if self.sync else 2)
        if base == FUT:
            return ("tok", "method", name, base)
        return None

    def add(self, st, x):
        return st.but(ts=st.ts + (x,)).note(" ".join(show(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else str(y) for y in x)[:120])

    def model(self, st, ev):
        if ev.kind == "awaitval":
            if ev.value in (WRAPPED, FUT):
                return [(self.add(st, ("awaited", ev.value)), VAL)]
            return None
        if ev.kind != "call":
            return None
        fv, a, kw = ev.callee, tuple(ev.args), tuple(sorted(ev.kw))
        n, b = c20.simple(fv), callee_base(ev)
        if fv == FN:
            st = self.add(st, ("job", a, kw))
            return [(st, VAL), (st, ERR, "raise")]
        if b is not None and b[0] == "super" and n == "submit" or fv[0] == "super" and n == "submit":
            return [(self.add(st, ("pool", a, kw)), POOLFUT)]
        if n == "wrap_future" and a:
            return [(self.add(st, ("wrap", a[0])), WRAPPED)]
        if n == "create_future":
            return [(st, FUT)]
        if b == FUT:
            if n in ("set_result", "set_exception"):
                return [(self.add(st, (n, a[0] if a else NONE)), NONE)]
            return None
        if "debug" in n:
            return [(st, NONE)]
        return None


def submission(ctx, m, cls):
    for name in ("submit", "run"):
        f = m.find_method(cls, name)
        if f is None:
            raise AnalysisError("%s.%s vanished" % (cls.name, name))
        for sync in (True, False):
            cl = Submit(m, cls, sync)
            it = Interp(m, cl, max_inline=8)
            cl.it = it
            ps = f.params()
            va, kwa = f.node.args.vararg, f.node.args.kwarg
            if len(ps) != 2 or va is None or kwa is None:
                raise AnalysisError("parameters of %s changed" % f.id)
            ex = it.run(f, cls=cls, args={ps[1]: FN, va.arg: ("vararg", (A1,)), kwa.arg: ("kw", (("k", K1),), ())})
            ctx.analysed(it, f, ex)
            c = "%s.%s %s" % (cls.name, name, "without workers" if sync else "with workers")
            bad = None
            want = ((A1,), (("k", K1),))
            for e in ex:
                bad = bad or next(((e, w) for w in [judge(cl, e, name, sync, want)] if w), None)
            if not ex:
                bad = (None, "no path")
            ctx.ob("submitted", c, bad is None, L.where(f), bad and bad[1] or "", bad[0].st.path() if bad and bad[0] is not None else ())


def judge(cl, e, name, sync, want):
    jobs = [x[1:] for x in e.st.ts if x[0] == "job"]
    pool = [x[1:] for x in e.st.ts if x[0] == "pool"]
    if sync:
        if pool:
            return "the job is given to the pool of an executor without workers"
        if len(jobs) != 1:
            return "the job is called %d times in the caller's thread" % len(jobs)
        if norm(jobs[0]) != want:
            return "the job is called with %s" % (jobs[0],)
    else:
        if jobs:
            return "the job is called in the caller's thread"
        if len(pool) != 1:
            return "the job is submitted %d times" % len(pool)
        if norm((pool[0][0][1:], pool[0][1])) != want or pool[0][0][:1] != (FN,):
            return "the pool is given %s" % (pool[0],)
    v = e.value
    if sync and name == "run":
        return None if e.kind == "return" and v == VAL or e.kind == "raise" and v == ERR else "gives %s" % show(v)
    if not sync:
        if e.kind != "return" or v != (WRAPPED if name == "submit" else VAL) or ("wrap", POOLFUT) not in e.st.ts:
            return "gives %s instead of the outcome of the job" % show(v)
        return None
    puts = [x for x in e.st.ts if x[0] in ("set_result", "set_exception")]
    if e.kind != "return" or v != FUT or puts not in ([("set_result", VAL)], [("set_exception", ERR)]):
        return "gives %s with %s" % (show(v), [(x[0], show(x[1])) for x in puts])
    return None


def norm(x):
    return tuple(x[0]), tuple(sorted((k, v) for k, v in x[1]))


class Mode(Client):
    kd = True
    debug = False

    def __init__(self, n):
        self.n = n

    def model_attr(self, st, base, name):
        if base[0] == "self" and name == "_max_workers":
            return const(self.n)
        return None


class Construct(Client):
    """records what reaches the standard library's constructor, and the worker count afterwards"""
    kd = True
    debug = False

    def inline(self, f):
        return f.module.name == MOD and f.name not in NOINLINE

    def model(self, st, ev):
        if ev.kind == "call":
            if c20.simple(ev.callee) == "__init__" and (getattr(ev, "target", None) is None or ev.target.module.name != MOD):
                h = dict(st.heap)
                h[("env", "workers", "")] = ("built",)
                return [(st.but(ts=st.ts + (("init", tuple(ev.args), tuple(sorted(ev.kw))),), heap=h), NONE)]
        return None

    def event(self, st, ev):
        if ev.kind == "store" and ev.name == "_max_workers" and ev.base[0] == "self":
            return st.but(ts=st.ts + (("workers", ev.value, any(x[0] == "init" for x in st.ts)),))
        return None


def construction(ctx, m, cls):
    f = m.find_method(cls, "__init__")
    if f is None or f.cls.module.name != MOD:
        return
    for n in (0, 5, None):
        it = Interp(m, Construct(), max_inline=6)
        ps = f.params()
        ex = it.run(f, cls=cls, args={ps[1]: const(n)})
        ctx.analysed(it, f, ex)
        bad = None
        for e in ex:
            init = [x for x in e.st.ts if x[0] == "init"]
            sets = [x for x in e.st.ts if x[0] == "workers"]
            why = None
            if e.kind != "return" or len(init) != 1:
                why = "the pool is initialised %d times" % len(init)
            else:
                _, a, kw = init[0]
                given = [("param", p) for p in ps[2:] if p != "timeout"]
                # the library's constructors take the same parameters in the same order
                if [x for x in a[1:]] + [v for k, v in kw if k != "max_workers"] != given and sorted(map(repr, list(a[1:]) + [v for k, v in kw if k != "max_workers"])) != sorted(map(repr, given)):
                    why = "the pool is not given the parameters of the executor"
                first = a[0] if a else dict(kw).get("max_workers")
                if why is None and any(x != p and x in given for x, p in zip(a[1:], given)):
                    why = "the parameters reach the pool in another order"
                if why is None and any(k != v[1] for k, v in kw if v[0] == "param"):
                    why = "a parameter reaches the pool under another name"
                if why is None and n == 0 and (not sets or sets[-1] != ("workers", const(0), True)):
                    why = "an executor built for 0 workers does not run jobs in the caller's thread"
                if why is None and n == 0 and first in (const(0), NONE) and first == const(0):
                    why = "the standard library refuses 0 workers"
                if why is None and n != 0 and (first != const(n) or any(s[1] != const(n) for s in sets)):
                    why = "an executor built for %s workers gets %s" % (n, show(first))
            bad = bad or (why and (e, why))
        ctx.ob("workers", "%s.__init__ max_workers=%s" % (cls.name, n), bad is None and bool(ex), L.where(f), bad and bad[1] or "no path", bad[0].st.path() if bad else ())


# ------------------------------------------------------------------ the pruning pool
class Pool(Client):
    """environment: the queue, the executor reference, the idle semaphore, the count of threads"""
    data = ('argument 1', 'argument k', 'the result')
    kd = True
    debug = False
    model_raises = True
    branches = True

    def __init__(self, m, cls):
        self.m, self.cls = m, cls
        self.bad = []
        self.me = EXEC

    def inline(self, f):
        return f.name not in NOINLINE

    # flags: a set kept as a sorted tuple in ts, so that loops converge
    def has(self, st, x):
        return x in st.ts

    def on(self, st, *xs, off=()):
        return st.but(ts=tuple(sorted((set(st.ts) - set(off)) | set(xs), key=repr)))

    def wrong(self, st, ev, why):
        self.bad.append((st.note("%s:%s" % (ev.func.module.rel, getattr(ev.node, "lineno", "?"))), why))

    def held(self, st, name):
        return ("held", name) in st.ts

    def truthy(self, v):
        return True if v in (EXEC, ITEM, THREAD, ME, Q, INIT, REF) else None

    def truth(self, st, v):
        return None

    def owner(self, v):
        """the name of an attribute of the executor"""
        return v[2] if v[0] == "attr" and v[1] == self.me else v[2] if v[0] == "tok" and len(v) == 4 and v[3] == self.me else None

    def model_attr(self, st, base, name):
        if base == self.me:
            if name == "_work_queue":
                return Q
            if name == "_max_workers":
                return const(2)
            return ("tok", "attr", name, base)
        if base in (Q, ITEM, THREAD, ME):
            return ("tok", "method", name, base)
        if base[0] == "tok" and len(base) == 4 and base[1] == "attr":
            return ("tok", "method", name, base)
        return None

    def threads(self, v):
        return v == ("tok", "attr", "_threads", self.me)

    def queues(self, v):
        return isinstance(v, tuple) and v[0] in ("ext", "glob", "attr") and str(v[-1]).rsplit(".", 1)[-1] == "_threads_queues"

    def counts(self, st):
        """the number of threads, fixed while the adjusting lock is held"""
        k = [x for x in st.ts if x[0] == "count"]
        if k:
            return [(st, const(k[0][1]))]
        if self.held(st, "_adjusting_lock"):
            return [(self.on(st, ("count", n)).note("%d threads" % n), const(n)) for n in (0, 1, 2, 3)[self.least:]]
        return [(st.note("%d threads, maybe" % n), const(n)) for n in (0, 1, 2, 3)[self.least:]]

    least = 0

    def model(self, st, ev):
        if ev.kind != "call":
            return None
        fv, a, kw = ev.callee, tuple(ev.args), dict(ev.kw)
        n = c20.simple(fv)
        b = fv[3] if fv[0] == "tok" and len(fv) == 4 else callee_base(ev)
        if fv[0] == "tok" and len(fv) == 4:
            n = fv[2]
        if fv[0] == "ext" and fv[1].count("_threads_queues."):
            b, n = ("ext", fv[1].rsplit(".", 1)[0]), fv[1].rsplit(".", 1)[1]
        if n == "len" and len(a) == 1 and (a[0] == self.me or self.threads(a[0])):
            return self.counts(st)
        if n == "current_thread":
            return [(st, ME)]
        if b is not None and self.lockname(b) and n in ("acquire", "release") and not a and not kw:
            return [(self.lock(st, ev, self.lockname(b), n == "acquire"), TRUE)]
        if b is not None and self.owner(b) == "_idle_semaphore":
            if n == "release":
                if self.has(st, "idle"):
                    self.wrong(st, ev, "an idle worker is counted twice: submissions will count on threads which do not exist")
                if not self.has(st, "empty"):
                    self.wrong(st, ev, "a worker is counted as idle while the queue may hold jobs")
                return [(self.on(st, "idle").note("counted as idle"), NONE)]
            if n == "acquire":
                nb = kw.get("blocking", a[0] if a else None) == FALSE or kw.get("timeout", a[1] if len(a) > 1 else None) in (const(0), const(0.0))
                if not nb:
                    self.wrong(st, ev, "blocks on the idle semaphore")
                return [(self.on(st, "token", off=("idle",)).note("took an idle token"), TRUE), (self.on(st, "no token").note("no idle token"), FALSE)]
        if b is not None and (self.threads(b) or self.queues(b)):
            return self.registry(st, ev, n, b, a)
        return self.more(st, ev, fv, n, b, a, kw)

    def registry(self, st, ev, n, b, a):
        return None

    def more(self, st, ev, fv, n, b, a, kw):
        return None

    def lockname(self, v):
        n = self.owner(v)
        return n if n and n.endswith("lock") else None

    def lock(self, st, ev, n, take):
        if take:
            if self.held(st, n):
                self.wrong(st, ev, "takes %s twice" % n)
            if n == "_shutdown_lock" and self.held(st, "_adjusting_lock"):
                self.wrong(st, ev, "takes the shutdown lock while it holds the adjusting lock; submit takes them the other way round")
            return self.on(st, ("held", n)).note("holds %s" % n)
        off = [("held", n)]
        if n == "_adjusting_lock":
            off += [x for x in st.ts if x[0] == "count"]
        if n == "_shutdown_lock":
            off.append("open")
        return self.on(st, off=off)

    def event(self, st, ev):
        if ev.kind in ("entered", "exit"):
            n = self.lockname(ev.cm)
            if n:
                return self.lock(st, ev, n, ev.kind == "entered")
        elif ev.kind == "branch":
            v, taken = ev.value, ev.taken
            if v[0] in ("cmp", "not"):
                v, pol = self.it.norm_cmp(v) if v[0] == "cmp" else (v[1], False)
                taken = taken == pol
            if self.owner(v) == "_shutdown" or v[0] in ("ext", "glob", "attr") and str(v[-1]).rsplit(".", 1)[-1] == "_shutdown":
                if taken:
                    return self.on(st, "closing")
                st = self.on(st, "pool open" if self.owner(v) == "_shutdown" else "interpreter up")
                if self.owner(v) == "_shutdown" and self.held(st, "_shutdown_lock"):
                    st = self.on(st, "open")
                return st
        elif ev.kind == "load" and ev.base == NONE:
            self.wrong(st, ev, "reads an attribute of the executor, which may be gone")
        return None


class Worker(Pool):
    least = 1       # the worker itself

    def removal(self, st, ev, who, what):
        if who != ME:
            self.wrong(st, ev, "a worker removes another thread")
        if not self.held(st, "_adjusting_lock"):
            self.wrong(st, ev, "%s is changed without the adjusting lock" % what)
        if not self.held(st, "_shutdown_lock") or not self.has(st, "open"):
            self.wrong(st, ev, "%s is changed while shutdown may be joining the threads" % what)
        if not any(x[0] == "count" and x[1] > 1 for x in st.ts):
            self.wrong(st, ev, "the last worker of the pool may leave")
        if not self.has(st, "token"):
            self.wrong(st, ev, "a worker leaves though a submission may have counted on it: the job waits for another worker")
        return self.on(st, ("removed", what)).note("removed from %s" % what)

    def registry(self, st, ev, n, b, a):
        what = "_threads" if self.threads(b) else "_threads_queues"
        if n in ("remove", "discard", "pop", "__delitem__") and a:
            return [(self.removal(st, ev, a[0], what), NONE)]
        if n in ("clear", "add", "update", "setdefault", "__setitem__", "difference_update"):
            self.wrong(st, ev, "a worker changes %s" % what)
        return None

    def more(self, st, ev, fv, n, b, a, kw):
        if fv == REF:
            if self.has(st, "gone"):
                return [(st, NONE)]
            return [(st, EXEC), (self.on(st, "gone").note("the executor is gone"), NONE)]
        if fv == INIT:
            if self.has(st, "initialised"):
                self.wrong(st, ev, "the initializer runs twice")
            s = self.on(st, "initialised")
            return [(s, NONE), (self.on(s, "init failed").note("the initializer fails"), ("exc", "UserError", "initializer"), "raise")]
        if b == Q:
            if n in ("get", "get_nowait"):
                return self.get(st, ev, n, a, kw)
            if n == "put":
                return [(self.on(st, "told") if a and a[0] == NONE else st, NONE)]
            if n in ("empty", "qsize"):
                return [(st, ("tok", "maybe", ev.site if hasattr(ev, "site") else n, "q"))]
        if b == ITEM and n == "run":
            if not self.has(st, "job"):
                self.wrong(st, ev, "a job runs twice")
            return [(self.on(st, off=("job",)).note("runs the job"), NONE)]
        if b == EXEC and n == "_initializer_failed":
            return [(self.on(st, "reported"), NONE)]
        if b == EXEC:
            return None
        return None

    def get(self, st, ev, n, a, kw):
        block = n == "get" and kw.get("block", a[0] if a else TRUE) != FALSE
        if self.has(st, "job"):
            self.wrong(st, ev, "a job taken from the queue is not run")
        if not self.has(st, "initialised") and self.initialized:
            self.wrong(st, ev, "the worker serves before its initializer ran")
        if any(x[0] == "removed" for x in st.ts):
            self.wrong(st, ev, "a worker which was removed goes on taking jobs")
        if self.has(st, "init failed"):
            self.wrong(st, ev, "a worker whose initializer failed takes jobs")
        if self.has(st, "wake") and (self.has(st, "closing") or self.has(st, "gone")):
            self.wrong(st, ev, "a worker of a pool which was shut down, or is gone, goes on")
        elif self.has(st, "wake") and not (self.has(st, "pool open") and self.has(st, "interpreter up")):
            self.wrong(st, ev, "a worker which is woken goes on without asking whether the pool or the interpreter shut down")
        if self.has(st, "told"):
            self.wrong(st, ev, "a worker which woke the next one goes on")
        if block:
            t = kw.get("timeout", a[1] if len(a) > 1 else NONE)
            if t not in (TIMEOUT, NONE):
                self.wrong(st, ev, "the worker waits for %s instead of the timeout" % show(t))
            if any(v == EXEC for v in st.env.values()) or any(v == EXEC for _, env in st.outer for v in env.values()):
                self.wrong(st, ev, "a waiting worker keeps the executor alive")
        for lk in ("_adjusting_lock", "_shutdown_lock"):
            if self.held(st, lk):
                self.wrong(st, ev, "takes jobs while it holds %s" % lk)
        s = self.on(st, off=("empty", "wake", "closing", "token", "no token", "pool open", "interpreter up"))
        # whatever was known of the flags may have changed
        s = s.but(facts={k: v for k, v in s.facts.items() if "_shutdown" not in repr(k)})
        out = [(self.on(s, "job", off=("idle",)).note("takes a job"), ITEM), (self.on(s, "wake", off=("idle",)).note("is woken"), NONE)]
        if n == "get_nowait" or not block or t != NONE:
            out.append((self.on(s, "empty").note("the queue is empty" if not block else "waits in vain"), GONE, "raise"))
        return out

    def event(self, st, ev):
        if ev.kind == "delitem" and (self.threads(ev.base) or self.queues(ev.base)):
            return self.removal(st, ev, ev.index, "_threads_queues")
        return Pool.event(self, st, ev)


def worker(ctx, m, cls, f, roles):
    for init in (True, False):
        cl = Worker(m, cls)
        cl.initialized = init
        it = Interp(m, cl, max_inline=8, max_states=60000)
        cl.it = it
        args = {}
        for p in f.params():
            r = roles.get(p)
            args[p] = {"ref": REF, "queue": Q, "initializer": INIT if init else NONE, "initargs": ("kl", (), "tuple"), "timeout": TIMEOUT}.get(r, ("param", p))
        ex = it.run(f, args=args)
        ctx.analysed(it, f, ex)
        for e in ex:
            s = e.st.ts
            why = None
            if e.kind != "return":
                why = "a worker ends with %s" % show(e.value)
            elif "init failed" in s:
                if "gone" not in s and "reported" not in s:
                    why = "a failing initializer is not reported to the executor"
            elif ("removed", "_threads") in s:
                if ("removed", "_threads_queues") not in s:
                    why = "a pruned worker stays in the registry of the interpreter"
            elif "wake" in s:
                if "gone" not in s and "closing" not in s:
                    why = "a worker leaves a pool which is in use"
                elif "told" not in s:
                    why = "a worker which leaves does not wake the next one"
            else:
                why = "a worker leaves without being removed from the pool"
            if why:
                cl.bad.append((e.st, why))
        report(ctx, "worker", "%s %s" % (f.name, "with initializer" if init else "without initializer"), L.where(f), cl.bad)
    return


def report(ctx, rule, construct, where, bad):
    seen = {}
    for st, why in bad:
        seen.setdefault(why, st)
    for why, st in sorted(seen.items()):
        ctx.ob(rule, "%s: %s" % (construct, why.split(":")[0]), False, where, why, st.path())
    if not bad:
        ctx.ob(rule, construct, True, where)


class Adjust(Pool):
    def registry(self, st, ev, n, b, a):
        what = "_threads" if self.threads(b) else "_threads_queues"
        if n == "add" and a:
            return [(self.entry(st, ev, a[0], what), NONE)]
        if n in ("clear", "remove", "pop", "discard"):
            self.wrong(st, ev, "a submission removes a worker")
        return None

    def entry(self, st, ev, who, what):
        if who != THREAD:
            self.wrong(st, ev, "%s gets %s instead of the new thread" % (what, show(who)))
        if not self.held(st, "_adjusting_lock"):
            self.wrong(st, ev, "%s is changed without the adjusting lock" % what)
        return self.on(st, ("added", what))

    def more(self, st, ev, fv, n, b, a, kw):
        if n == "Thread":
            self.thread = (a, kw, st)
            return [(self.on(st, "made"), THREAD)]
        if n == "ref" and a and a[0] == self.me:
            return [(st, ("tok", "weak", a[1] if len(a) > 1 else NONE))]
        if b == THREAD and n == "start":
            if self.has(st, "started"):
                self.wrong(st, ev, "a thread is started twice")
            return [(self.on(st, "started").note("starts a worker"), NONE)]
        return None

    def event(self, st, ev):
        if ev.kind == "setitem" and self.queues(ev.base):
            if ev.value != Q:
                self.wrong(st, ev, "the registry of the interpreter gets %s instead of the queue" % show(ev.value))
            return self.entry(st, ev, ev.index, "_threads_queues")
        return Pool.event(self, st, ev)


def adjust(ctx, m, cls, f):
    cl = Adjust(m, cls)
    me = ("self", L_id(cls))
    cl.me = me
    cl.thread = None
    it = Interp(m, cl, max_inline=6)
    cl.it = it
    ex = it.run(f, cls=cls)
    ctx.analysed(it, f, ex)
    kinds = set()
    for e in ex:
        s = e.st.ts
        counts = [x[1] for x in e.st.path() for x in ()]
        n = next((k for k in (0, 1, 2, 3) if any("%d threads" % k in p for p in e.st.path())), None)
        started = "started" in s
        why = None
        if e.kind != "return":
            why = "a submission ends with %s" % show(e.value)
        elif "token" in s and started:
            why = "a thread is started though an idle one was taken"
        elif started and (("added", "_threads") not in s or ("added", "_threads_queues") not in s):
            why = "a worker is started but not registered"
        elif started and (n is None or n >= 2):
            why = "more threads than max_workers"
        elif not started and "token" not in s and "no token" in s and (n is None or n < 2):
            why = "no worker is started for a job though none is idle and there is room"
        elif not started and "token" not in s and "no token" not in s and (n is None or n < 2):
            why = "no worker is started for a job"
        kinds.add((started, "token" in s))
        if why:
            cl.bad.append((e.st, why))
    report(ctx, "workers started", f.id.split("#")[0], L.where(f), cl.bad)
    if cl.thread is None:
        raise AnalysisError("%s starts no thread" % f.id)
    return cl


def L_id(cls):
    return "%s:%s" % (cls.module.rel, cls.name)


def roles_of(ctx, m, f, cl):
    """what each parameter of the worker function is given"""
    a, kw, st = cl.thread
    target = kw.get("target", a[1] if len(a) > 1 else None)
    given = kw.get("args", a[3] if len(a) > 3 else None)
    w = None
    if target is not None and target[0] in ("func", "fn"):
        w = next((x for x in m.all_funcs() if cl.it.fid(x) == target[1]), None)
    if w is None or given is None or given[0] not in ("tuple", "kl"):
        raise AnalysisError("the worker function of the pruning pool is not known: %s" % (target,))
    items = given[1]
    kinds = []
    for v in items:
        if v == Q:
            kinds.append("queue")
        elif v[0] == "tok" and v[1] == "weak":
            kinds.append("ref")
        else:
            kinds.append({"_initializer": "initializer", "_initargs": "initargs", "_timeout": "timeout"}.get(cl.owner(v), "?"))
    return w, dict(zip(w.params(), kinds)), kinds


def check(ctx):
    m = ctx.model
    ctx.rule("submitted", "a job reaches the pool, or the caller's thread when there are no workers, once and with its arguments; its outcome is what the caller gets", 8)
    ctx.rule("workers", "an executor has the workers it was built for; one built for 0 runs jobs in the caller's thread", 6)
    ctx.rule("worker", "every job taken is run once; a worker leaves only when told to or when pruning cannot strand a job", 2)
    ctx.rule("workers started", "a submission finds an idle worker, starts one, or all max_workers are at work; the threads are counted under the lock", 1)
    ctx.rule("roles", "a worker is given its pool, queue, initializer and timeout", 1)
    names = ("AsyncProcessPoolExecutor", "AsyncThreadPoolExecutor", "PruningThreadPoolExecutor")
    classes = [L.klass(m, MOD, n) for n in names]
    if any(c is None for c in classes):
        raise AnalysisError("an executor class vanished")
    for c in classes:
        submission(ctx, m, c)
        construction(ctx, m, c)
        f = m.find_attr(c, "sync_mode")
        f = f if isinstance(f, Func) else m.find_method(c, "sync_mode")
        if f is not None:
            for n in (0, 1, 5):
                it = Interp(m, Mode(n), max_inline=4)
                ex = it.run(f, cls=c)
                ctx.analysed(it, f, ex)
                v = {e.value for e in ex}
                ctx.ob("workers", "%s.sync_mode max_workers=%d" % (c.name, n), v == {const(n == 0)}, L.where(f), "gives %s" % ", ".join(show(x) for x in v))
    prune = classes[2]
    f = m.find_method(prune, "_adjust_thread_count")
    if f is None or f.cls is not prune:
        raise AnalysisError("_adjust_thread_count vanished")
    cl = adjust(ctx, m, prune, f)
    w, roles, kinds = roles_of(ctx, m, f, cl)
    ctx.ob("roles", w.name, sorted(kinds) == ["initargs", "initializer", "queue", "ref", "timeout"], L.where(f), "the worker is started with %s" % ", ".join(kinds))
    worker(ctx, m, prune, w, roles)
