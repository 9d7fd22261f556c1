"""Abstract values."""
from functools import lru_cache

MAXDEPTH = 14

# ---------------------------------------------------------------- values
def const(v):
    try:
        hash(v)
    except TypeError:
        return ("const", type(v).__name__, repr(v))
    return ("const", type(v).__name__, v)


NONE, TRUE, FALSE = const(None), const(True), const(False)


@lru_cache(maxsize=200000)
def depth(v):
    if not isinstance(v, tuple):
        return 0
    m = 0
    for x in v:
        if isinstance(x, tuple):
            d = depth(x)
            if d > m:
                m = d
    return m + 1


def trim(v, limit=MAXDEPTH):
    if depth(v) <= limit:
        return v
    def cut(x, d):
        if not isinstance(x, tuple):
            return x
        if d <= 0:
            return ("...",)
        return tuple(cut(y, d - 1) for y in x)
    return cut(v, limit)


def is_const(v):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == "const"


def cval(v):
    return v[2]


def contains(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(contains(y, x) for y in v if isinstance(y, tuple))


def subterms(v):
    if isinstance(v, tuple):
        yield v
        for y in v:
            if isinstance(y, tuple):
                yield from subterms(y)
