"""Interned symbolic terms, linear expressions and access paths."""

_tab = {}
_n = [0]
INTS = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "u128": (0, 2**128 - 1), "usize": (0, 2**64 - 1),
        "i8": (-128, 127), "i16": (-32768, 32767), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1), "isize": (-2**63, 2**63 - 1),
        "bool": (0, 1), "char": (0, 0x10FFFF),
        "std::time::Duration": (0, 2**64 * 10**9), "std::time::Instant": (0, 2**66 * 10**9)}
LENMAX = 2**63 - 1


class T:
    """k: kind; a: arguments; lo/hi: numeric range that always holds."""
    __slots__ = ("k", "a", "id", "lo", "hi", "_lin", "_atoms")

    def __repr__(self):
        return show(self)


def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        t.lo = t.hi = None
        t._lin = None
        t._atoms = None
        _tab[key] = t
    return t


_base = []


def reset():
    """forget all terms made since the first reset: analyses run afterwards do not depend on earlier ones"""
    if not _base:
        _base.append((dict(_tab), _n[0]))
        return
    _tab.clear()
    _tab.update(_base[0][0])
    _n[0] = _base[0][1]


def ranged(t, lo, hi):
    if lo is not None and (t.lo is None or t.lo < lo):
        t.lo = lo
    if hi is not None and (t.hi is None or t.hi > hi):
        t.hi = hi
    return t


def K(v):
    return mk("k", v)


UNIT = mk("tup", ())
UNDEF = mk("undef")
BOT = mk("bot")
TRUE, FALSE = K(1), K(0)


def lin(t):
    """(const, {atom: coef}) of a numeric term."""
    if t._lin is None:
        if t.k == "k":
            t._lin = (t.a[0], {})
        elif t.k == "lin":
            t._lin = (t.a[0], dict(t.a[1]))
        else:
            t._lin = (0, {t: 1})
    return t._lin


def unlin(c, d):
    d = {a: k for a, k in d.items() if k}
    if not d:
        return K(c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def ladd(x, y, s=1):
    c1, d1 = lin(x)
    c2, d2 = lin(y)
    d = dict(d1)
    for a, k in d2.items():
        d[a] = d.get(a, 0) + s * k
    return unlin(c1 + s * c2, d)


def lsub(x, y):
    return ladd(x, y, -1)


def lmul(x, k):
    c, d = lin(x)
    return unlin(c * k, {a: v * k for a, v in d.items()})


def bounds(t):
    c, d = lin(t)
    lo = hi = c
    for a, k in d.items():
        l, h = (a.lo, a.hi) if k > 0 else (a.hi, a.lo)
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    return lo, hi


def ge0(t):
    if t.k == "k":
        return TRUE if t.a[0] >= 0 else FALSE
    lo, hi = bounds(t)
    if lo is not None and lo >= 0:
        return TRUE
    if hi is not None and hi < 0:
        return FALSE
    return mk("ge0", t)


def eq0(t):
    if t.k == "k":
        return TRUE if t.a[0] == 0 else FALSE
    lo, hi = bounds(t)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    c, d = lin(t)
    if min(d.items(), key=lambda x: x[0].id)[1] < 0:
        t = lmul(t, -1)
    return mk("eq0", t)


def lnot(t):
    if t.k == "k":
        return FALSE if t.a[0] else TRUE
    if t.k == "not":
        return t.a[0]
    return mk("not", t)


def adt(path, variant, names, vals):
    return mk("adt", path, variant, tuple(names), tuple(vals))


def some(x):
    return adt("std::option::Option", "Some", ("0",), (x,))


NONE = adt("std::option::Option", "None", (), ())


def ok(x):
    return adt("std::result::Result", "Ok", ("0",), (x,))


def err(x):
    return adt("std::result::Result", "Err", ("0",), (x,))


BUILTIN = {
    "std::option::Option": {0: "None", 1: "Some"},
    "std::result::Result": {0: "Ok", 1: "Err"},
    "std::ops::ControlFlow": {0: "Continue", 1: "Break"},
    "std::task::Poll": {0: "Ready", 1: "Pending"},
    "std::borrow::Cow": {0: "Borrowed", 1: "Owned"},
    "std::cmp::Ordering": {-1: "Less", 0: "Equal", 1: "Greater"},
}


def subterms(t, seen=None):
    """all terms reachable inside t"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen


def showpath(p):
    r = p[0]
    s = {"L": lambda: f"_{r[2]}", "P": lambda: f"arg{r[1]}", "T": lambda: "*" + show(r[1]), "B": lambda: "box"}.get(r[0], lambda: str(r))()
    for e in p[1:]:
        s += ("." + e[2:]) if isinstance(e, str) and e.startswith("f:") else ("/" + e[2:]) if isinstance(e, str) else f"[{e}]"
    return s


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 8:
        return "…"
    k = t.k
    if k == "k":
        return str(t.a[0])
    if k == "s":
        return repr(t.a[0])
    if k == "lin":
        s = " + ".join((f"{c}*" if c != 1 else "") + show(a, d + 1) for a, c in t.a[1])
        return f"({s}{' + ' + str(t.a[0]) if t.a[0] else ''})"
    if k == "adt":
        return t.a[0].split("::")[-1] + "::" + str(t.a[1]) + "(" + ", ".join(f"{n}: {show(v, d + 1)}" for n, v in zip(t.a[2], t.a[3])) + ")"
    if k == "ref":
        return "&" + showpath(t.a[0])
    if k == "ld":
        return showpath((t.a[0],) + t.a[1]) + ("" if not t.a[2] else "'")
    if k == "pr":
        e = t.a[1]
        return show(t.a[0], d + 1) + ("." + e[2:] if isinstance(e, str) and e[0] == "f" else "/" + e[2:] if isinstance(e, str) else f"[{show(e[1], d + 1)}]")
    if k in ("call", "pure"):
        n = t.a[0].split("::")[-1]
        return f"{n}({', '.join(show(x, d + 1) for x in t.a[1])})"
    if k == "phi":
        return f"φ{t.id}"
    if k == "hv":
        return f"hv{t.id}"
    return f"{k}({', '.join(show(x, d + 1) for x in t.a)})"
