"""Shared infrastructure for the rules: check context, findings, evidence, clients."""
import json
import os
import time

from .absint import *   # noqa
from .absint import NOINLINE
from .model import AnalysisError, Class, Func, Model, mangle, own_nodes, scoped_walk

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Ctx:
    def __init__(self, pid, model, tier="quick", seed=1):
        self.pid, self.model, self.tier, self.seed = pid, model, tier, seed
        self.obligations = []       # dict(rule, construct, where, ok)
        self.violations = []
        self.rules = {}             # rule -> text
        self.minimum = {}           # rule -> minimum number of instances
        self.funcs = set()
        self.paths = 0
        self.states = 0
        self.notes = []

    # -- declaring rules
    def rule(self, rid, text, minimum=1):
        self.rules[rid] = text
        self.minimum[rid] = minimum

    # -- obligations: `construct` identifies the instance without line numbers
    def ob(self, rule, construct, ok, where="", detail="", path=()):
        assert rule in self.rules, rule
        self.obligations.append({"rule": rule, "construct": construct, "where": where, "ok": bool(ok)})
        if not ok:
            self.violations.append({"rule": rule, "construct": construct, "where": where, "detail": detail,
                                    "path": list(path)[-60:]})
        return ok

    def analysed(self, interp, func, exits=()):
        self.funcs.add(func.id)
        for k in interp.inlined:
            self.funcs.add(k)
        self.states += interp.count
        self.paths += len(exits)

    def run(self, func, client=None, **kw):
        """Convenience: interpret `func`, account for it, return exits."""
        ikw = {k: kw.pop(k) for k in list(kw) if k in ("max_states", "max_inline", "attr_stable", "inline_new", "unroll_tuple", "keep_heap_on_await")}
        it = Interp(self.model, client, **ikw)
        ex = it.run(func, **kw)
        self.analysed(it, func, ex)
        self.last = it
        return ex

    def finish(self):
        counts = {}
        for o in self.obligations:
            counts[o["rule"]] = counts.get(o["rule"], 0) + 1
        # an instance count below the confirmed minimum means the rule lost its subject, unless violations explain it
        if not self.violations:
            for r, n in self.minimum.items():
                if counts.get(r, 0) < n:
                    raise AnalysisError("rule %s of %s matched %d instances, at least %d expected" % (
                        r, self.pid, counts.get(r, 0), n))
        return counts


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            # format: known: property=<id> rule=<rule> construct=<construct> :: <what fails>
            head, _, what = line.partition(" :: ")
            d = dict(p.split("=", 1) for p in head.replace("known:", "").split() if "=" in p)
            if d.get("property") == pid:
                d["what"] = what
                out.append(d)
    return out


# ------------------------------------------------------------------ clients
CANCEL = lambda ev: ("exc", "CancelledError", ev.loc)
ANYEXC = lambda ev: ("exc", "Exception?", ev.loc)


class Rec(Client):
    """Records selected events in order (each distinct symbol at most `cap` times per path)."""

    def __init__(self, select, raises=None, inline=None, model=None, cap=2, props=None):
        self.select, self._raises, self._inline, self._model, self.cap = select, raises, inline, model, cap
        self._props = props

    def event(self, st, ev):
        r = self.select(st, ev)
        if r is None:
            return None
        if st.ts.count(r) >= self.cap:
            return None
        return st.but(ts=st.ts + (r,)).note("%s:%s %s %s" % (ev.func.module.rel, getattr(ev.node, "lineno", "?"), ev.kind,
                                                         " ".join(show(x) if isinstance(x, tuple) else str(x) for x in (r if isinstance(r, tuple) else (r,)))))

    def raises(self, st, ev):
        return self._raises(st, ev) if self._raises else ()

    def inline(self, f):
        return self._inline(f) if self._inline else default_inline(f)

    def inline_property(self, f):
        return self._props(f) if self._props else False

    def model(self, st, ev):
        return self._model(st, ev) if self._model else None


NOINLINE_DEFAULT = NOINLINE


def default_inline(f):
    return f.name not in NOINLINE


def attr(base, name):
    return ("attr", base, name)


def callee_attr(ev_or_val):
    """name of the method called, or None"""
    fv = ev_or_val.callee if isinstance(ev_or_val, Ev) else ev_or_val[2]
    if fv[0] == "attr":
        return fv[2]
    if fv[0] == "bound":
        return fv[1].split("#")[0].split(".")[-1]
    return None


def callee_base(ev_or_val):
    fv = ev_or_val.callee if isinstance(ev_or_val, Ev) else ev_or_val[2]
    if fv[0] == "attr":
        return fv[1]
    if fv[0] == "bound":
        return fv[2]
    return None


def is_call_to(v, name):
    """v is the result of calling an external/builtin dotted name"""
    return isinstance(v, tuple) and v and v[0] == "call" and v[2] == ("ext", name)


def calls_method(v, name):
    return isinstance(v, tuple) and v and v[0] == "call" and callee_attr(v) == name


def positive(st, v):
    """Is `v > 0` established by the branch facts?  True / False / None"""
    f = st.facts
    zero, one = const(0), const(1)
    if f.get(("lt", zero, v)) is True or f.get(("lt", v, one)) is False or f.get(("truthy", v)) is True or f.get(("eq", v, zero)) is False:
        return True
    if f.get(("lt", zero, v)) is False or f.get(("lt", v, one)) is True or f.get(("truthy", v)) is False or f.get(("eq", v, zero)) is True:
        return False
    return None


def truth(st, v):
    """Known truth of v from facts (no engine)."""
    if is_const(v):
        return bool(cval(v))
    return st.facts.get(("truthy", v))


class Part:
    """A check context which takes part of another property's check: only the rules named, under names of this property."""

    def __init__(self, ctx, rules):
        self.ctx, self.rules = ctx, rules
        self.model, self.tier = ctx.model, ctx.tier

    def rule(self, rid, text, minimum=1):
        if rid in self.rules:
            self.ctx.rule(self.rules[rid], text, minimum)

    def ob(self, rule, *a, **kw):
        if rule in self.rules:
            return self.ctx.ob(self.rules[rule], *a, **kw)

    def analysed(self, *a):
        self.ctx.analysed(*a)

    def run(self, *a, **kw):
        r = self.ctx.run(*a, **kw)
        self.last = self.ctx.last
        return r
