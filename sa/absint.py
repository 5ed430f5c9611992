"""Abstract interpretation of MIR.

Domain: value terms (value numbering over access paths) x linear inequalities
over integer terms x enum-variant facts x a client's typestate, partitioned into
a bounded number of disjuncts per block; calls into the workspace are analysed
by inlining, loops by fixpoint iteration over candidate invariants.  No path is
executed and no solver is called: entailment is a bounded elimination over the
state's own inequalities.
"""
import re
from terms import *

K_SOFT = 12      # disjuncts per block before equal-memory states are merged
K_HARD = 40      # disjuncts per block before everything with one typestate is merged
K_EXIT = 24
K_SUM = 8        # exits kept apart in a function summary
PARTITION = [lambda I, st: None]     # states of different classes are not merged (function of the state)
SUM_LIMIT = {}   # other limits for particular functions
MAXDEPTH = 14


# library calls that panic on some arguments and have no model proving they do not
MAYPANIC = re.compile(r"(Vec::<T, A>::(swap_remove|split_off|insert|remove|drain|splice)|String::(insert|insert_str|remove|drain|split_off|truncate|replace_range)"
                      r"|VecDeque.*as std::ops::Index.*>::index(_mut)?|VecDeque::<T, A>::(drain|swap|insert|split_off|range)|HashMap.*as std::ops::Index.*>::index"
                      r"|BTreeMap.*as std::ops::Index.*>::index|RefCell::<T>::borrow(_mut)?$|Bytes(Mut)?::(split_off|slice|slice_ref|split_to)"
                      r"|slice::<impl \[T\]>::(swap|split_at|split_at_mut|chunks|chunks_exact|windows|rotate_left|rotate_right|copy_within|select_nth_unstable|chunks_mut)"
                      r"|str::<impl str>::(split_at)|bytes::Buf::(get_\w+|copy_to_bytes|copy_to_slice|advance)|bytes::buf::Buf::\w+"
                      r"|Iterator::step_by|<std::time::(Instant|Duration|SystemTime) as std::ops::\w+(<.*>)?>::\w+|Duration::(from_secs_f64|from_secs_f32|mul_f64|mul_f32|div_f64|new)$"
                      r"|::(div_euclid|rem_euclid|ilog2|ilog10|ilog|isqrt|strict_\w+)$|char::from_digit|from_str_radix$|unwrap_unchecked$|array::<impl .*TryFrom|Option::<T>::expect_none|thread::spawn$)")


class Limit(Exception):
    pass


class St:
    __slots__ = ("mem", "cons", "eqs", "nes", "var", "auto")

    def __init__(s):
        s.mem, s.cons, s.eqs, s.nes, s.var, s.auto = {}, {}, {}, {}, {}, None

    def copy(s):
        n = St.__new__(St)
        n.mem = dict(s.mem)
        n.cons = dict(s.cons)
        n.eqs = dict(s.eqs)
        n.nes = dict(s.nes)
        n.var = dict(s.var)
        n.auto = s.auto
        return n

    def same(s, o):
        return s.auto == o.auto and s.mem == o.mem and s.cons == o.cons and s.eqs == o.eqs and s.nes == o.nes and s.var == o.var


# ---------------------------------------------------------------- numeric facts
def _norm(st, c, d):
    if st.eqs:
        for a in list(d):
            v = st.eqs.get(a)
            if v is not None:
                c += d.pop(a) * v
    return c, d


def prove(st, e, depth=6):
    """Is e >= 0 implied?"""
    c, d = lin(e)
    d = dict(d)
    c, d = _norm(st, c, d)
    cons = None
    seen = set()

    def go(c, d, depth):
        nonlocal cons
        lo = c
        worst = None
        for a, k in d.items():
            b = a.lo if k > 0 else a.hi
            if b is None:
                lo = None
            elif lo is not None:
                lo += k * b
            if k < 0 and (worst is None or a.id > worst.id):
                worst = a
        if lo is not None and lo >= 0:
            return True
        if depth == 0:
            return False
        key = (c, tuple(sorted((a.id, k) for a, k in d.items())))
        if key in seen:
            return False
        seen.add(key)
        if cons is None:
            cons = {}
            for x in st.cons:
                c2, d2 = lin(x)
                if st.eqs:
                    d2 = dict(d2)
                    c2, d2 = _norm(st, c2, d2)
                for a, k in d2.items():
                    cons.setdefault((a, k > 0), []).append((c2, d2))
        for e in ([worst] if worst is not None else list(d)):
            k = d[e]
            pos = k > 0
            k = abs(k)
            for c2, d2 in cons.get((e, pos), ()):
                m = abs(d2[e])
                n = {}
                for a, v in d.items():
                    n[a] = v * m
                for a, v in d2.items():
                    n[a] = n.get(a, 0) - v * k
                n = {a: v for a, v in n.items() if v}
                if go(c * m - c2 * k, n, depth - 1 if len(n) <= 8 else 0):
                    return True
            if not pos and e.hi is not None and e.hi < 2**62:
                n = dict(d)
                v = n.pop(e)
                if go(c + v * e.hi, n, depth - 1):
                    return True
        return False

    return go(c, d, depth)


def add_ge(st, e):
    """assume e >= 0; False when infeasible (st is modified)."""
    c, d = lin(e)
    c, d = _norm(st, c, dict(d))
    e = unlin(c, d)
    if e.k == "k":
        return e.a[0] >= 0
    lo, hi = bounds(e)
    if lo is not None and lo >= 0:
        return True
    if prove(st, ladd(lmul(e, -1), K(-1)), 5):
        return False
    if len(st.cons) < 160:
        st.cons[e] = None
    # becomes an equality with a constant?
    if len(d) == 1:
        (a, k), = d.items()
        if k == 1 and a.hi is not None and a.hi == -c:
            st.eqs[a] = a.hi
        elif k == -1 and a.lo is not None and a.lo == c:
            st.eqs[a] = c
        elif abs(k) == 1:
            # a >= v or a <= v, opposite known?
            v = -c if k == 1 else c
            o = unlin(v, {a: -1}) if k == 1 else unlin(-v, {a: 1})
            if o in st.cons:
                st.eqs[a] = v
            ne = st.nes.get(a)
            if ne and v in ne:
                return add_ge(st, unlin(c - 1, d))
    return True


def assume(st, t, val):
    """assume boolean term t == val, modifying st; False when infeasible."""
    while t.k == "not":
        t = t.a[0]
        val = not val
    if t.k == "k":
        return bool(t.a[0]) == bool(val)
    if t.k == "ge0":
        if val:
            return add_ge(st, t.a[0])
        return add_ge(st, ladd(lmul(t.a[0], -1), K(-1)))
    if t.k == "eq0":
        e = t.a[0]
        c, d = lin(e)
        c, d = _norm(st, c, dict(d))
        if val:
            if not d:
                return c == 0
            if len(d) == 1:
                (a, k), = d.items()
                if c % k:
                    return False
                return set_eq(st, a, -c // k)
            e = unlin(c, d)
            return add_ge(st, e) and add_ge(st, lmul(e, -1))
        if not d:
            return c != 0
        e = unlin(c, d)
        if len(d) == 1:
            (a, k), = d.items()
            if c % k == 0:
                return set_ne(st, a, -c // k)
        if prove(st, e, 4):
            return add_ge(st, ladd(e, K(-1)))
        if prove(st, lmul(e, -1), 4):
            return add_ge(st, ladd(lmul(e, -1), K(-1)))
        st.eqs[t] = 0
        return True
    if t.k == "and":
        if val:
            return all(assume(st, x, True) for x in t.a)
        return True
    if t.k == "isv":
        return set_var(st, t.a[0], t.a[1], val)
    return set_eq(st, t, 1 if val else 0) if t.lo is not None else _setb(st, t, val)


def _setb(st, t, val):
    v = 1 if val else 0
    if t in st.eqs:
        return st.eqs[t] == v
    st.eqs[t] = v
    return True


def set_eq(st, a, v):
    old = st.eqs.get(a)
    if old is not None:
        return old == v
    if v in st.nes.get(a, ()):
        return False
    if (a.lo is not None and v < a.lo) or (a.hi is not None and v > a.hi):
        return False
    if st.cons:
        if prove(st, ladd(a, K(-v - 1)), 4) or prove(st, ladd(lmul(a, -1), K(v - 1)), 4):
            return False
    st.eqs[a] = v
    # bit-field terms: x&m == v
    return True


def set_ne(st, a, v):
    if st.eqs.get(a) is not None:
        return st.eqs[a] != v
    s = st.nes.get(a, frozenset())
    st.nes[a] = s | {v}
    lo, hi = a.lo, a.hi
    if lo is not None and hi is not None and hi - lo < 64:
        left = [x for x in range(lo, hi + 1) if x not in st.nes[a]]
        if not left:
            return False
        if len(left) == 1:
            st.eqs[a] = left[0]
            return True
    if a.lo == v or prove(st, ladd(a, K(-v)), 3):
        return add_ge(st, ladd(a, K(-v - 1)))
    if prove(st, ladd(lmul(a, -1), K(v)), 3):
        return add_ge(st, ladd(lmul(a, -1), K(v - 1)))
    return True


def set_var(st, t, v, pos=True, all_variants=None):
    if t.k == "adt":
        return (t.a[1] == v) == pos
    cur = st.var.get(t)
    if pos:
        if isinstance(cur, str):
            return cur == v
        if cur and v in cur:
            return False
        st.var[t] = v
        return True
    if isinstance(cur, str):
        return cur != v
    st.var[t] = (cur or frozenset()) | {v}
    if all_variants:
        left = [x for x in all_variants if x not in st.var[t]]
        if not left:
            return False
        if len(left) == 1:
            st.var[t] = left[0]
    return True


def holds(st, t):
    """True / False / None for a boolean term."""
    neg = False
    while t.k == "not":
        t = t.a[0]
        neg = not neg
    r = None
    if t.k == "k":
        r = bool(t.a[0])
    elif t.k == "ge0":
        if prove(st, t.a[0]):
            r = True
        elif prove(st, ladd(lmul(t.a[0], -1), K(-1))):
            r = False
    elif t.k == "eq0":
        e = t.a[0]
        c, d = lin(e)
        c, d = _norm(st, c, dict(d))
        if not d:
            r = c == 0
        else:
            if len(d) == 1:
                (a, k), = d.items()
                if c % k or (-c // k) in st.nes.get(a, ()):
                    r = False
            if r is None:
                if t in st.eqs:
                    r = bool(st.eqs[t])
                elif prove(st, e, 4) and prove(st, lmul(e, -1), 4):
                    r = True
                elif prove(st, ladd(e, K(-1)), 4) or prove(st, ladd(lmul(e, -1), K(-1)), 4):
                    r = False
    elif t.k == "and":
        rs = [holds(st, x) for x in t.a]
        r = True if all(x is True for x in rs) else False if any(x is False for x in rs) else None
    elif t.k == "isv":
        x, v = t.a
        if x.k == "adt":
            r = x.a[1] == v
        else:
            cur = st.var.get(x)
            if isinstance(cur, str):
                r = cur == v
            elif cur and v in cur:
                r = False
    else:
        v = st.eqs.get(t)
        if v is not None:
            r = bool(v)
    if r is None:
        return None
    return r != neg


# ---------------------------------------------------------------- joins
def phi_candidates(p, tA, A):
    """linear facts about tA in A, restated about p"""
    out = []
    c, d = lin(tA)
    lo, hi = bounds(tA)
    if not d:
        return [ladd(p, K(-c)), ladd(K(c), p, -1)] + [lsub(a, p) for a in len_atoms(A)]
    out.append(lsub(p, tA))
    out.append(lsub(tA, p))
    out += [lsub(a, p) for a in len_atoms(A)]
    if lo is not None:
        out.append(ladd(p, K(-lo)))
    if hi is not None and hi < 2**62:
        out.append(ladd(K(hi), p, -1))
    if len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            for x in A.cons:
                c2, d2 = lin(x)
                if a in d2:
                    m = d2[a]
                    n = {b: v for b, v in d2.items() if b is not a}
                    n[p] = n.get(p, 0) + m
                    out.append(unlin(c2 - m * c, n))
            if a in A.eqs:
                v = A.eqs[a] + c
                out += [ladd(p, K(-v)), ladd(K(v), p, -1)]
    else:
        for x in A.cons:
            c2, d2 = lin(x)
            # x contains tA's non-constant part as a sub-expression
            for s in (1, -1):
                if all(d2.get(a, 0) == s * k for a, k in d.items()):
                    n = {b: v for b, v in d2.items() if b not in d}
                    n[p] = n.get(p, 0) + s
                    out.append(unlin(c2 - s * c, n))
    return out


def whole(v):
    """the bytes of one integer put together again are the integer"""
    if v.k != "lin" or not any(x.k in ("byteof", "elem") for x, _ in v.a[1]):
        return v
    d = dict(v.a[1])
    for n, ty in ((4, "u32"), (2, "u16")):
        for x, k in v.a[1]:
            u = k >> 8 * (n - 1)
            if x.k != "elem" or u <= 0 or u << 8 * (n - 1) != k:
                continue
            es = [mk("elem", x.a[0], ladd(x.a[1], K(i))) for i in range(n)]
            if all(d.get(e) == u << 8 * (n - 1 - i) for i, e in enumerate(es)):
                for e in es:
                    del d[e]
                return whole(ladd(unlin(v.a[0], d), lmul(ranged(mk("be", ty, tuple(es)), *INTS[ty]), u)))
    for x, k in v.a[1]:
        if x.k == "byteof" and x.a[0] == "be" and x.a[3] == 0:
            ty, src = x.a[1], x.a[2]
            n = INTS[ty][1].bit_length() // 8
            bs = [mk("byteof", "be", ty, src, i) for i in range(n)]
            d = dict(v.a[1])
            u = k >> 8 * (n - 1)
            if u and all(d.get(b) == u << 8 * (n - 1 - i) for i, b in enumerate(bs)):
                for b in bs:
                    del d[b]
                return whole(ladd(unlin(v.a[0], d), lmul(src, u)))
    return v


def divmod_lin(a, m):
    """quotient and remainder of a by m, when the terms that are not multiples of m stay within one period"""
    c, d = lin(a)
    q = unlin(c // m, {x: k // m for x, k in d.items() if k % m == 0})
    r = unlin(c % m, {x: k for x, k in d.items() if k % m})
    l, h = bounds(r)
    if l is None or h is None or l < 0 or h >= m:
        return None
    return q, r


def len_atoms(A):
    out = set()
    for x in A.cons:
        for a in lin(x)[1]:
            if a.k == "len":
                out.add(a)
    return sorted(out, key=lambda a: a.id)[:6]


def isnum(t):
    return t.k in ("k", "lin") or t.lo is not None or t.hi is not None


PROG = [None]


def split_tuple(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([<{":
            d += 1
        elif ch in ")]>}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def type_at(ty, proj):
    """type string of a projection of a value of type ty, or None"""
    for e in proj:
        if ty is None:
            return None
        if isinstance(e, int):
            e = f"f:{e}"
        if not isinstance(e, str):
            m = re.match(r"\[(.*?)(; .*)?\]$", ty)
            ty = m.group(1) if m else None
            continue
        if e.startswith("v:"):
            base = ty.split("<")[0]
            if base in ("std::option::Option", "std::result::Result"):
                g = split_tuple(ty[len(base) + 1:-1])
                v = e[2:]
                ty = "(" + (g[0] if v in ("Some", "Ok") else g[-1]) + ",)"
                continue
            d = PROG[0].adts.get(base)
            v = d and next((x for x in d["vs"] if x["n"] == e[2:]), None)
            ty = ("@", v) if v else None
            continue
        n = e[2:] if e.startswith("f:") else e
        if isinstance(ty, tuple):
            f = next((x for x in ty[1]["fs"] if x[0] == n), None)
            ty = f[1] if f else None
        elif ty.startswith("("):
            g = split_tuple(ty[1:-1])
            ty = g[int(n)] if n.isdigit() and int(n) < len(g) else None
        else:
            base = ty.split("<")[0]
            d = PROG[0].adts.get(base)
            f = d and not d["enum"] and next((x for x in d["vs"][0]["fs"] if x[0] == n), None)
            if base in ("std::option::Option", "std::result::Result") and n == "0":
                ty = split_tuple(ty[len(base) + 1:-1])[0]
            elif base == "std::ops::Range":
                ty = ty[len(base) + 1:-1]
            else:
                ty = f[1] if f else None
    return ty if isinstance(ty, str) else None


def rng_of(p, key):
    """range of a phi term, from the declared type of the place it stands for"""
    extra = []
    while isinstance(key, tuple) and len(key) == 2 and not isinstance(key[0], T):
        extra.append(key[1])
        key = key[0]
    if not (isinstance(key, tuple) and len(key) == 3):
        return
    _, root, q = key
    if "off" in extra or "len" in extra:
        ranged(p, 0, LENMAX)
        return
    if root[0] == "L":
        fn = PROG[0].fns.get(root[1].a[1])
        ty = fn.locals[root[2]] if fn else None
        ty = type_at(ty, tuple(q) + tuple(reversed(extra)))
        if ty in INTS:
            ranged(p, *INTS[ty])


def _key_kind(key):
    while isinstance(key, tuple):
        key = key[0]
    return key.k


def frame_refs(S):
    """sums E for which `len >= E` is known"""
    out = {}
    for x in S.cons:
        c, d = lin(x)
        if len(d) > 2 and all(k == (1 if t.k == "len" else -1) for t, k in d.items()) and sum(1 for t in d if t.k == "len") == 1:
            out[unlin(-c, {t: 1 for t in d if t.k != "len"})] = None
    return list(out)[:4]


PHI_HOOK = [None]       # called as f([(phi, incoming value)], state they come from) whenever values are merged
_WID = []


def join_terms(a, b, key, phis, ST=None):
    if a is b:
        return a
    if a.k == "adt" and b.k == "adt" and a.a[0] == b.a[0] and a.a[1] == b.a[1]:
        return adt(a.a[0], a.a[1], a.a[2], tuple(join_terms(x, y, (key, n), phis, ST) for n, x, y in zip(a.a[2], a.a[3], b.a[3])))
    if a.k == "tup" and b.k == "tup" and len(a.a[0]) == len(b.a[0]):
        return mk("tup", tuple(join_terms(x, y, (key, n), phis, ST) for n, (x, y) in enumerate(zip(a.a[0], b.a[0]))))
    if a.k == "sl" and b.k == "sl" and a.a[0] is b.a[0]:
        return mk("sl", a.a[0], join_terms(a.a[1], b.a[1], (key, "off"), phis, ST), join_terms(a.a[2], b.a[2], (key, "len"), phis, ST))
    if ST and a.k == "lin" and b.k == "lin" or ST and {a.k, b.k} == {"lin", "phi"}:
        # the same quantity on both sides, written differently
        for e, S, o in ((a, ST[1], b), (b, ST[0], a)):
            d = ladd(o, e, -1)
            if prove(S, d, 2) and prove(S, lmul(d, -1), 2):
                return e
        if _key_kind(key) in ("sj", "xj"):
            for e in frame_refs(ST[0]):
                if all(prove(S, ladd(o, e, -1), 2) and prove(S, ladd(e, o, -1), 2) for S, o in zip(ST, (a, b))):
                    (c1, d1), (c2, d2) = lin(a), lin(b)
                    com = unlin(min(c1, c2), {t: min(k, d2[t]) for t, k in d1.items() if k > 0 and d2.get(t, 0) > 0})
                    phis.append((None, lsub(e, com), None))
                    return e
    p = mk("phi", key)
    rng_of(p, key)
    phis.append((p, a, b))
    return p


def join(A, B, key):
    """least-effort upper bound of two states with equal typestate"""
    if A.mem == B.mem:
        n = St()
        n.mem = A.mem
        phis = []
    else:
        n = St()
        phis = []
        for root in A.mem:
            if root not in B.mem:
                if root[0] == "P" or root[0] == "T" or root[0] == "B":
                    da, db = A.mem[root], {}
                else:
                    continue
            else:
                da, db = A.mem[root], B.mem[root]
            if da is db or da == db:
                n.mem[root] = da
                continue
            n.mem[root] = _join_root(A, B, root, da, db, key, phis)
        for root in B.mem:
            if root not in A.mem and root[0] in ("P", "T", "B"):
                n.mem[root] = _join_root(A, B, root, {}, B.mem[root], key, phis)
    n.auto = A.auto
    if PHI_HOOK[0]:
        PHI_HOOK[0]([(p, x) for p, x, y in phis if p is not None], A)
        PHI_HOOK[0]([(p, y) for p, x, y in phis if p is not None], B)
    _join_facts(n, A, B, phis, key.k in ("sj", "xj", "j", "jh"))
    return n


def _join_root(A, B, root, da, db, key, phis):
    out = {}
    tops = set(da) | set(db)
    # keep a partition: drop keys strictly below another key of the union unless both have base
    keys = sorted(tops, key=len)
    done = []
    for q in keys:
        if any(len(x) < len(q) and q[:len(x)] == x for x in done):
            # finer override below an entry already joined as a whole
            continue
        ta, tb = read(A, (root,) + q), read(B, (root,) + q)
        if ta.k == "undef" or tb.k == "undef":
            continue
        out[q] = join_terms(ta, tb, (key, root, q), phis, (A, B))
        done.append(q)
    return out


def _join_facts(n, A, B, phis, deep=False):
    for x in A.cons:
        if x in B.cons or prove(B, x, 4):
            n.cons[x] = None
    for x in B.cons:
        if x not in n.cons and prove(A, x, 4):
            n.cons[x] = None
    if deep:
        # a bound on a sum of several parts holds on the other side with a slightly smaller constant
        for S, R in ((A, B), (B, A)):
            for x in S.cons:
                d = lin(x)[1]
                if x not in n.cons and len(d) > 3 and not any(t.k == "len" for t in d) and sum(1 for k in d.values() if k > 0) == 1:
                    for k in (1, 2, 3, 4, 6, 8, 10, 12):
                        if prove(R, ladd(x, K(k)), 4):
                            n.cons[ladd(x, K(k))] = None
                            break
    for t, v in A.eqs.items():
        w = B.eqs.get(t)
        if w == v:
            n.eqs[t] = v
        elif w is not None and isnum(t) and t.k not in ("eq0",):
            for e in (ladd(t, K(-min(v, w))), ladd(K(max(v, w)), t, -1)):
                lo, _ = bounds(e)
                if lo is None or lo < 0:
                    n.cons[e] = None
        elif w is None and isnum(t):
            # a single value on one side only: keep what the other side can prove
            for e in (ladd(t, K(-v)), ladd(K(v), t, -1)):
                lo, _ = bounds(e)
                if (lo is None or lo < 0) and prove(B, e, 4):
                    n.cons[e] = None
    for t, w in B.eqs.items():
        if t not in A.eqs and isnum(t):
            for e in (ladd(t, K(-w)), ladd(K(w), t, -1)):
                lo, _ = bounds(e)
                if (lo is None or lo < 0) and prove(A, e, 4):
                    n.cons[e] = None
    for S, R in ((A, B), (B, A)) if deep else ():
        # length bounds that one side states with a known value in place of the atom
        for t, v in S.eqs.items():
            if t.k != "phi" or R.eqs.get(t) == v or (S is B and t in R.eqs):
                continue
            for x in S.cons:
                if t not in lin(x)[1] and 1 < len(lin(x)[1]) < 4 and any(a.k == "len" for a in lin(x)[1]):
                    e = unlin(lin(x)[0] + v, {**lin(x)[1], t: lin(x)[1].get(t, 0) - 1})
                    if e not in n.cons and prove(R, e, 2):
                        n.cons[e] = None
    for t in set(A.nes) | set(B.nes):
        def nes(S):
            s = set(S.nes.get(t, ()))
            return s
        ca = nes(A) | ({v for v in nes(B) if t in A.eqs and A.eqs[t] != v})
        cb = nes(B) | ({v for v in nes(A) if t in B.eqs and B.eqs[t] != v})
        s = ca & cb
        if s:
            n.nes[t] = frozenset(s)
    for t, v in A.var.items():
        w = B.var.get(t)
        if w is None:
            continue
        if v == w:
            n.var[t] = v
        else:
            va = v if isinstance(v, frozenset) else None
            wb = w if isinstance(w, frozenset) else None
            if va and wb:
                s = va & wb
            elif va:
                s = frozenset(x for x in va if x != w)
            elif wb:
                s = frozenset(x for x in wb if x != v)
            else:
                s = frozenset()
            if s:
                n.var[t] = s
    for p, a, b in phis:
        if p is None:
            if bounds(a)[0] is None or bounds(a)[0] < 0:
                if prove(A, a, 4) and prove(B, a, 4):
                    n.cons[a] = None
            continue
        if not (isnum(a) and isnum(b)):
            continue
        for (t, S, u, R) in ((a, A, b, B), (b, B, a, A)):
            for e in phi_candidates(p, t, S):
                lo, _ = bounds(e)
                if lo is not None and lo >= 0:
                    continue
                if e in n.cons:
                    continue
                if prove(R, subst(e, {p: u}), 4) and prove(S, subst(e, {p: t}), 4):
                    n.cons[e] = None


def subst(e, m):
    c, d = lin(e)
    r = K(c)
    for a, k in d.items():
        r = ladd(r, lmul(m.get(a, a), k))
    return r


# ---------------------------------------------------------------- memory
def read(st, path):
    root, proj = path[0], path[1:]
    d = st.mem.get(root)
    base = None
    rest = proj
    if d:
        for i in range(len(proj), -1, -1):
            q = proj[:i]
            if q in d:
                base = d[q]
                rest = proj[i:]
                break
    if base is None:
        rt = root[0]
        if rt == "L":
            base = UNDEF
        elif rt == "T":
            base = deref_term(root[1])
            base_proj = base
        else:
            base = None
        if base is None:
            t = mk("ld", root, proj, 0)
        else:
            t = base
            for e in rest:
                t = project(t, e)
        # overrides below?
        return overlay(st, d, proj, t)
    t = base
    for e in rest:
        t = project(t, e)
    if rest:
        return t if not d else overlay(st, d, proj, t)
    return overlay(st, d, proj, t)


def overlay(st, d, proj, t):
    if not d:
        return t
    n = len(proj)
    ov = [(q[n:], v) for q, v in d.items() if len(q) > n and q[:n] == proj]
    if not ov:
        return t
    ov.sort(key=lambda x: len(x[0]))
    for q, v in ov:
        t = update(t, q, v)
    return t


def update(t, q, v):
    if not q:
        return v
    e = q[0]
    if isinstance(e, str):
        if e.startswith("v:"):
            if t.k == "adt" and t.a[1] == e[2:]:
                return update(t, q[1:], v)
            return mk("upd", t, q, v)
        n = e[2:]
        if t.k == "adt" and n in t.a[2]:
            i = t.a[2].index(n)
            vals = list(t.a[3])
            vals[i] = update(vals[i], q[1:], v)
            return adt(t.a[0], t.a[1], t.a[2], tuple(vals))
        if t.k in ("tup", "undef") and n.isdigit():
            i = int(n)
            vals = list(t.a[0]) if t.k == "tup" else []
            while len(vals) <= i:
                vals.append(UNDEF)
            vals[i] = update(vals[i], q[1:], v)
            return mk("tup", tuple(vals))
    return mk("upd", t, q, v)


def deref_term(p):
    """value stored behind pointer term p"""
    if p.k == "sl":
        if p.a[1].k == "k" and p.a[1].a[0] == 0 and len_of(p.a[0]) is p.a[2]:
            return p.a[0]
        return mk("slv", p)
    t = mk("deref", p)
    return t


def project(t, e):
    k = t.k
    if isinstance(e, str):
        if e[0] == "v":
            if k == "adt":
                return t if t.a[1] == e[2:] else BOT
            if k == "bot":
                return BOT
            if k == "upd":
                q = t.a[1]
                if q[0] == e and len(q) > 1:
                    return mk("updv", t, e)
                return project(t.a[0], e) if q[0] != e else mk("pr", t, e)
            if k == "ld":
                return mk("ld", t.a[0], t.a[1] + (e,), t.a[2])
            return mk("pr", t, e)
        n = e[2:]
        if k == "adt":
            if n in t.a[2]:
                return t.a[3][t.a[2].index(n)]
            return BOT
        if k == "tup" or k == "arr" or k == "clos":
            vals = t.a[0] if k != "clos" else t.a[1]
            if n.isdigit() and int(n) < len(vals):
                return vals[int(n)]
            return mk("pr", t, e)
        if k == "ref" or k == "sl":
            return t          # inside of Box / Pin / NonNull wrappers
        if k == "bot":
            return BOT
        if k == "ld":
            return mk("ld", t.a[0], t.a[1] + (e,), t.a[2])
        if k == "upd":
            q = t.a[1]
            if q[0] == e:
                if len(q) == 1:
                    return t.a[2]
                return update(project(t.a[0], e), q[1:], t.a[2])
            return project(t.a[0], e)
        if k == "updv":
            u, v = t.a
            q = u.a[1]
            if len(q) > 1 and q[1] == e:
                base = project(project(u.a[0], v), e)
                return update(base, q[2:], u.a[2]) if len(q) > 2 else u.a[2]
            return project(project(u.a[0], v), e)
        return mk("pr", t, e)
    # index
    if e[0] == "i":
        i = e[1]
        if k == "arr" and i.k == "k" and 0 <= i.a[0] < len(t.a[0]):
            return t.a[0][i.a[0]]
        if k == "slv":
            s = t.a[0]
            return project(s.a[0], ("i", ladd(s.a[1], i))) if s.a[0].k in ("arr", "toks") else mk("elem", s.a[0], ladd(s.a[1], i))
        if k == "toks":
            import codec
            x = codec.elem(t, i)
            if x is not None:
                return x
        if k == "rep":
            return t.a[0]
        if k == "vext" and t.a[1].k == "sl" and False:
            pass
        return mk("elem", t, i)
    return mk("pr", t, e)


def write(st, path, val):
    root, proj = path[0], path[1:]
    d = st.mem.get(root)
    if d is None:
        st.mem[root] = {proj: val}
        return
    n = len(proj)
    d2 = {q: v for q, v in d.items() if len(q) < n or q[:n] != proj} if any(len(q) > n for q in d) else dict(d)
    # a write below a stored aggregate: fold it in
    for i in range(n - 1, -1, -1):
        q = proj[:i]
        if q in d2 and d2[q].k in ("adt", "tup"):
            u = update(d2[q], proj[i:], val)
            if u.k != "upd":
                d2[q] = u
                st.mem[root] = d2
                return
            break
        if q in d2:
            break
    d2[proj] = val
    st.mem[root] = d2


# ---------------------------------------------------------------- sequences
def len_of(t):
    k = t.k
    if k == "sl":
        return t.a[2]
    if k == "slv":
        return t.a[0].a[2]
    if k == "arr":
        return K(len(t.a[0]))
    if k == "rep":
        return t.a[1]
    if k == "vnew":
        return K(0)
    if k == "vpush":
        return ladd(len_of(t.a[0]), K(1))
    if k == "vext":
        return ladd(len_of(t.a[0]), len_of(t.a[1]))
    if k == "vtrunc" or k == "vlen":
        return t.a[1]
    if k == "s":
        return K(len(t.a[0].encode()))
    if k == "copyof":
        return len_of(t.a[0])
    if k == "toks":
        import codec
        return codec.total(t.a[0])
    if k == "vbi":
        import codec
        return codec.vlen(t.a[0])
    if k == "pseq":
        import codec
        return codec.plen(("p", t.a[0]))
    return ranged(mk("len", t), 0, LENMAX)


def base_slice(v):
    """slice of the whole of sequence value v"""
    if v.k == "sl":
        return v
    if v.k == "slv":
        return v.a[0]
    if v.k == "copyof" and v.a[0].k == "sl":
        return v.a[0]
    return mk("sl", v, K(0), len_of(v))


# ---------------------------------------------------------------- control flow
def wto(fn):
    if getattr(fn, "_succ", None) is not None:
        return fn._succ
    from mir import succs
    import sys
    sys.setrecursionlimit(20000)
    blocks = fn.blocks
    dfn = {}
    num = [0]
    stack = []
    INF = 1 << 60

    def visit(v, part):
        stack.append(v)
        num[0] += 1
        dfn[v] = num[0]
        head = num[0]
        loop = False
        for w in succs(blocks[v]["t"]):
            if blocks[w]["c"]:
                continue
            if w not in dfn:
                m = visit(w, part)
            else:
                m = dfn[w]
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = INF
            el = stack.pop()
            if loop:
                while el != v:
                    del dfn[el]
                    el = stack.pop()
                part.insert(0, component(v))
            else:
                part.insert(0, v)
        return head

    def component(v):
        part = []
        for w in succs(blocks[v]["t"]):
            if blocks[w]["c"]:
                continue
            if w not in dfn:
                visit(w, part)
        return [v] + part

    part = []
    visit(0, part)
    # liveness of locals, for pruning
    fn._succ = (part, liveness(fn))
    return fn._succ


def liveness(fn):
    from mir import succs
    blocks = fn.blocks
    n = len(blocks)
    use = [set() for _ in range(n)]
    dfs = [set() for _ in range(n)]
    borrowed = set()

    def rd_place(b, p):
        if p[0] not in dfs[b]:
            use[b].add(p[0])
        for e in p[1:]:
            if e[0] == "i" and e[1] not in dfs[b]:
                use[b].add(e[1])

    def rd_op(b, o):
        if o and o["k"] in ("cp", "mv"):
            rd_place(b, o["p"])

    def wr(b, p):
        if len(p) == 1:
            dfs[b].add(p[0])
        else:
            rd_place(b, p)
    for i, b in enumerate(blocks):
        for s in b["s"]:
            if s[0] == "=":
                r = s[2]
                for k in ("o", "a", "b"):
                    if isinstance(r.get(k), dict):
                        rd_op(i, r[k])
                for o in r.get("ops", ()):
                    rd_op(i, o)
                if "p" in r:
                    rd_place(i, r["p"])
                    if r["r"] == "ref" and not any(e[0] == "d" for e in r["p"][1:]):
                        borrowed.add(r["p"][0])
                wr(i, s[1])
            elif s[0] == "sd":
                rd_place(i, s[1])
        t = b["t"]
        k = t["t"]
        if k == "switch":
            rd_op(i, t["d"])
        elif k == "call":
            for o in t["args"]:
                rd_op(i, o)
            if t["fo"]:
                rd_op(i, t["fo"])
            wr(i, t["d"])
        elif k == "assert":
            rd_op(i, t["c"])
            for o in t["ops"]:
                rd_op(i, o)
        elif k == "drop":
            rd_place(i, t["p"])
        elif k == "ret":
            if 0 not in dfs[i]:
                use[i].add(0)
    live = [set(u) for u in use]
    ch = True
    order = list(range(n - 1, -1, -1))
    while ch:
        ch = False
        for i in order:
            o = set(use[i])
            for w in succs(blocks[i]["t"]):
                o |= live[w] - dfs[i]
            if o != live[i]:
                live[i] = o
                ch = True
    return live, borrowed


class Frame:
    __slots__ = ("fn", "fid", "selfty", "depth", "tag", "ctx", "generic")


CLOSURE_CALL = re.compile(r"::(Fn::call|FnMut::call_mut|FnOnce::call_once)$")
INLINE_ALWAYS = re.compile(r"\{closure")


class Interp:
    def __init__(self, prog, client, inline=None, budget=400000):
        self.p = prog
        self.cl = client
        self.quiet = 0
        self.force_unroll = 0
        self.budget = budget
        self.steps = 0
        self.inline = inline or (lambda fid: True)
        self.stack = []
        self.blocks_seen = set()
        self.fns_seen = set()
        self.opaque = {}
        import models
        self.models = models
        self._impl = None
        self.summ = {}
        self.use_summaries = False
        self.never_sum = None
        PROG[0] = prog

    # -- resolution of trait methods on Self inside default methods
    def impl_index(self):
        if self._impl is None:
            self._impl = {}
            for im in self.p.impls:
                if not im["trait"]:
                    continue
                tr = im["trait"][len(im["ty"]) + 5:-1].split("<")[0]     # "<ty as trait<..>>"
                for it in im["items"]:
                    self._impl.setdefault((im["ty"], tr, it.rsplit("::", 1)[-1]), it)
        return self._impl

    def resolve(self, fr, f):
        """function id to inline for callee f in frame fr (or its name when external)."""
        if f["t"] and f["g"]:
            ty = f["g"][0]
            if fr is not None and ty == "Self" and fr.selfty:
                ty = fr.selfty
            elif fr is not None and fr.generic and ty in fr.generic:
                ty = fr.generic[ty]
            if f["f"] == f["o"]:
                # unresolved, or a default method
                it = self.impl_index().get((ty.lstrip("&"), f["t"].split("<")[0], f["o"].rsplit("::", 1)[-1]))
                if it:
                    return it, ty
            return f["f"], ty
        return f["f"], None

    # ------------------------------------------------------------ frames
    # ------------------------------------------------------------ summaries
    def summary(self, fn):
        """[(facts state, return term, typestate-free)] of a function from slices and integers,
        or None when it must be inlined (some obligation depends on the caller)."""
        sm = self.summ.get(fn.id, 0)
        if sm != 0:
            return sm
        self.summ[fn.id] = None
        if self.never_sum and self.never_sum.search(fn.id):
            return None
        tys = fn.locals[1:fn.nargs + 1]
        if not self.use_summaries or fn.nargs == 0 or not all(t in INTS or SLICE.match(t) for t in tys) or "&" in fn.locals[0].replace("&'static", ""):
            return None
        rec = SummaryClient(self.cl)
        q, cl, stack, rs = self.quiet, self.cl, self.stack, getattr(self, "_rets_stack", [])
        self.quiet, self.cl, self.stack, self._rets_stack = 0, rec, [], []
        steps = self.steps
        bs, fs = self.blocks_seen, self.fns_seen
        self.blocks_seen, self.fns_seen = set(), set()
        try:
            st = St()
            args = self.root_args(fn, st)
            outs = self.call_fn(fn, args, st, mk("sroot", fn.id), None, None, nosum=True)
        except Limit:
            outs = None
        finally:
            self.quiet, self.cl, self.stack, self._rets_stack = q, cl, stack, rs
            self.steps = steps
        nb, nf = self.blocks_seen, self.fns_seen
        self.blocks_seen, self.fns_seen = bs, fs
        if outs is None or rec.calls_seen or not all(rec.sites.values()):
            self.sumfail = getattr(self, "sumfail", {})
            self.sumfail[fn.id] = [k for k, v in rec.sites.items() if not v]
            return None
        outs = self.merge_by_shape(outs, mk("ctx", mk("sroot", fn.id), fn.id), SUM_LIMIT.get(fn.id, K_SUM))
        res = []
        for s, r in outs:
            keep = St()
            keep.cons, keep.eqs, keep.nes, keep.var = s.cons, s.eqs, s.nes, s.var
            res.append((keep, r))
        self.summ[fn.id] = (res, dict(rec.sites), nb, nf)
        return self.summ[fn.id]

    def merge_by_shape(self, outs, fid, limit):
        if len(outs) <= limit:
            return outs
        groups = {}
        for s, r in outs:
            k = (shape(r), PARTITION[0](self, s))
            groups.setdefault(k, []).append((s, r))
        res = []
        for key, g in sorted(groups.items(), key=lambda x: str(x[0])):
            s0, r0 = g[0]
            tmp = ("L", fid, 0)
            s0.mem[tmp] = {(): r0}
            for s, r in g[1:]:
                s.mem[tmp] = {(): r}
                s0 = join(s0, s, mk("sj", fid, str(key)))
            r0 = read(s0, (tmp,))
            del s0.mem[tmp]
            res.append((s0, r0))
        return res

    def instantiate(self, fn, sm, args, st, site):
        m = {}
        for i, (a, ty) in enumerate(zip(args, fn.locals[1:fn.nargs + 1])):
            if SLICE.match(ty):
                m[mk("buf", i + 1)] = a
            else:
                m[mk("ld", ("P", i + 1, fn.id), (), 0)] = self.typed(a, ty)
        inst = mk("inst", fn.id, tuple(args))      # a summarised function is a function of its arguments
        m[mk("sroot", fn.id)] = inst
        memo = {}
        out = []
        for n, (fs, r) in enumerate(sm[0]):
            s = st.copy()
            good = len(sm[0]) == 1 or set_eq(s, ranged(mk("exit", inst, len(sm[0])), 0, len(sm[0]) - 1), n)
            if not good:
                continue
            for t, v in fs.eqs.items():
                u = rebuild(t, m, memo)
                if u.k in ("ge0", "eq0", "not", "and", "isv") or u.k == "k" and t.k in ("eq0", "ge0", "eqv", "isv", "and"):
                    good = assume(s, u, bool(v))
                elif u.k == "lin" or u.k == "k":
                    good = assume(s, eq0(ladd(u, K(-v))), True)
                else:
                    good = set_eq(s, u, v)
                if not good:
                    break
            if not good:
                continue
            for t, v in fs.var.items():
                u = rebuild(t, m, memo)
                if isinstance(v, str):
                    good = set_var(s, u, v)
                else:
                    for x in v:
                        good = good and set_var(s, u, x, False)
                if not good:
                    break
            if not good:
                continue
            for t, v in fs.nes.items():
                u = rebuild(t, m, memo)
                for x in v:
                    if not assume(s, eq0(ladd(u, K(-x))), False):
                        good = False
                        break
            if not good:
                continue
            for c in fs.cons:
                if not add_ge(s, rebuild(c, m, memo)):
                    good = False
                    break
            if good:
                out.append((s, rebuild(r, m, memo)))
        if not self.quiet:
            self.blocks_seen |= sm[2]
            self.fns_seen |= sm[3]
            if hasattr(self.cl, "on_summary"):
                self.cl.on_summary(self, fn, sm[1])
        return out

    def call_fn(self, fn, args, st, site, selfty=None, generic=None, nosum=False):
        """inline fn; returns [(state, return term)]"""
        if not nosum and self.use_summaries:
            sm = self.summary(fn)
            if sm is not None and all(a.k == "sl" for a, ty in zip(args, fn.locals[1:fn.nargs + 1]) if SLICE.match(ty)):
                return self.instantiate(fn, sm, args, st, site)
        if len(self.stack) > MAXDEPTH:
            raise Limit("inlining depth at " + fn.id)
        fr = Frame()
        fr.fn = fn
        fr.fid = mk("ctx", site, fn.id)
        fr.selfty = selfty
        fr.generic = generic
        fr.tag = ()
        fr.ctx = fr.fid
        self.stack.append(fn.id)
        if not self.quiet:
            self.fns_seen.add(fn.id)
        fid = fr.fid
        for i, a in enumerate(args):
            write(st, (("L", fid, i + 1),), self.typed(a, fn.locals[i + 1]))
        part, _ = wto(fn)
        rets = []
        self._rets_stack = getattr(self, "_rets_stack", [])
        self._rets_stack.append(rets)
        pend = {0: [st]}
        self.run(fr, part, pend)
        self._rets_stack.pop()
        self.stack.pop()
        out = []
        for s in rets:
            r = read(s, (("L", fid, 0),))
            if r.k == "undef":
                r = UNIT
            mem = {k: v for k, v in s.mem.items() if not (k[0] == "L" and k[1] is fid)}
            s.mem = mem
            out.append((s, r))
        if len(out) > 1:
            out = self.merge_exits(out, fid)
        return out

    def merge_exits(self, out, fid):
        # identical results first
        groups = {}
        for s, r in out:
            groups.setdefault((s.auto, shape(r), PARTITION[0](self, s)), []).append((s, r))
        if len(out) <= K_SOFT:
            res = []
            for key, g in groups.items():
                uniq = []
                for s, r in g:
                    if not any(r is r2 and s.same(s2) for s2, r2 in uniq):
                        uniq.append((s, r))
                res += uniq
            return res
        res = []
        for n, (key, g) in enumerate(sorted(groups.items(), key=lambda x: str(x[0]))):
            if len(g) > max(1, K_EXIT // max(1, len(groups))):
                s0, r0 = g[0]
                tmp = ("L", fid, 0)
                s0.mem[tmp] = {(): r0}
                for s, r in g[1:]:
                    s.mem[tmp] = {(): r}
                    s0 = join(s0, s, mk("xj", fid, str(key)))
                r0 = read(s0, (tmp,))
                del s0.mem[tmp]
                res.append((s0, r0))
            else:
                res += g
        return res

    def typed(self, t, ty):
        if t.lo is None and t.hi is None and ty in INTS and t.k not in ("k", "lin"):
            ranged(t, *INTS[ty])
        return t

    # ------------------------------------------------------------ regions
    def run(self, fr, items, pend):
        for it in items:
            if isinstance(it, int):
                sts = pend.pop(it, None)
                if sts:
                    sts = self.reduce(fr, it, sts)
                    for s in sts:
                        self.block(fr, it, s, pend)
            else:
                self.loop(fr, it, pend)

    def prune(self, fr, bb, s):
        live, borrowed = wto(fr.fn)[1]
        lv = live[bb]
        fid = fr.fid
        dead = [k for k in s.mem if k[0] == "L" and k[1] is fid and k[2] not in lv and k[2] not in borrowed and k[2] != 0]
        if dead:
            s.mem = {k: v for k, v in s.mem.items() if k not in dead}

    def reduce(self, fr, bb, sts):
        if len(sts) == 1:
            return sts
        for s in sts:
            self.prune(fr, bb, s)
        out = []
        for s in sts:
            for o in out:
                if s.same(o):
                    break
            else:
                out.append(s)
        if len(out) > K_SOFT:
            res = []
            for s in out:
                pk = PARTITION[0](self, s)
                for i, (o, ok) in enumerate(res):
                    if o.auto == s.auto and ok == pk and o.mem == s.mem:
                        res[i] = (join(o, s, mk("j", fr.ctx, bb, str(fr.tag))), ok)
                        break
                else:
                    res.append((s, pk))
            out = [o for o, _ in res]
        if len(out) > K_HARD:
            by = {}
            rp = (("L", fr.fid, 0),)
            for s in out:
                by.setdefault((s.auto, shape(read(s, rp)), PARTITION[0](self, s)), []).append(s)
            out = []
            for n, (a, g) in enumerate(sorted(by.items(), key=lambda x: str(x[0]))):
                s0 = g[0]
                for s in g[1:]:
                    s0 = join(s0, s, mk("jh", fr.ctx, bb, str(fr.tag), str(a)))
                out.append(s0)
        return out

    def body_pass(self, fr, comp, heads):
        head = comp[0]
        p = {head: heads}
        self.run(fr, [head] + comp[1:], p)
        back = p.pop(head, [])
        return back, p

    def loop(self, fr, comp, pend):
        head = comp[0]
        entry = pend.pop(head, None)
        if not entry:
            return
        oldtag = fr.tag
        entry = self.reduce(fr, head, entry)
        if len(entry) > 3:
            by = {}
            for s in entry:
                by.setdefault((s.auto, PARTITION[0](self, s)), []).append(s)
            entry = []
            for a, g in by.items():
                s0 = g[0]
                for s in g[1:]:
                    s0 = join(s0, s, mk("je", fr.ctx, head, str(fr.tag)))
                entry.append(s0)
        # 1. bounded unrolling: exact for loops with a small constant trip count
        if self.force_unroll or self.want_unroll(fr, comp, entry):
            U = self.force_unroll or 6
            self.quiet += 1
            cur = [s.copy() for s in entry]
            n = 0
            try:
                for n in range(U):
                    fr.tag = oldtag + (("u", head, n),)
                    cur, _ = self.body_pass(fr, comp, cur)
                    if not cur or len(cur) > (64 if self.force_unroll else 12):
                        break
            finally:
                self.quiet -= 1
                fr.tag = oldtag
            if not cur:
                cur = entry
                for i in range(n + 1):
                    fr.tag = oldtag + (("u", head, i),)
                    cur, exits = self.body_pass(fr, comp, cur)
                    for b, l in exits.items():
                        pend.setdefault(b, []).extend(l)
                    if not cur:
                        break
                fr.tag = oldtag
                return
        # 2. invariants
        fr.tag = oldtag + (("b", head),)
        key = mk("lh", fr.ctx, head, str(oldtag))
        H = []          # list of (state, phimap)
        for s in entry:
            H.append([s, {}])
        self.quiet += 1
        try:
            for it in range(25):
                changed = False
                back = []
                for h, _ in H:
                    b, _x = self.body_pass(fr, comp, [h.copy()])
                    back.append(b)
                newH = [list(x) for x in H]
                for i, bs in enumerate(back):
                    for b in bs:
                        j = i if newH[i][0].auto == b.auto else next((j for j, (h, _) in enumerate(newH) if h.auto == b.auto), None)
                        if j is None:
                            # new typestate at the head: memory/facts of the head it came from, widened
                            h0, pm = H[i]
                            w = widen(h0, b, key, dict(pm), it)
                            w[0].auto = b.auto
                            # variables of the checker belong to the typestate
                            w[0].mem.update({r: v for r, v in b.mem.items() if r[0] == "G"})
                            newH.append([w[0], w[1]])
                            changed = True
                        else:
                            h0, pm = newH[j]
                            w, pm2, ch = widen(h0, b, key, pm, it)
                            if ch:
                                newH[j] = [w, pm2]
                                changed = True
                H = newH
                if not changed:
                    break
            else:
                raise Limit(f"loop invariant in {fr.fn.id} bb{head}")
        finally:
            self.quiet -= 1
        for h, _ in H:
            _, exits = self.body_pass(fr, comp, [h.copy()])
            for b, l in exits.items():
                pend.setdefault(b, []).extend(l)
        fr.tag = oldtag

    def want_unroll(self, fr, comp, entry):
        # an integer local holding a constant at the head and assigned inside
        # the loop: candidate for a small trip count
        heads = set()

        def walk(x):
            if isinstance(x, int):
                heads.add(x)
            else:
                for y in x:
                    walk(y)
        walk(comp)
        assigned = set()
        for b in heads:
            for s in fr.fn.blocks[b]["s"]:
                if s[0] == "=" and len(s[1]) == 1:
                    assigned.add(s[1][0])
        for s in entry:
            for l in assigned:
                d = s.mem.get(("L", fr.fid, l))
                if d and () in d and (d[()].k == "k" and fr.fn.locals[l] in INTS or d[()].k == "adt" and "Iter" in d[()].a[0]):
                    return True
        # iteration over a literal array or a known range
        for s in entry:
            for r, d in s.mem.items():
                if r[0] == "L" and r[1] is fr.fid:
                    t = d.get(())
                    if t is not None and t.k == "adt" and t.a[0] == "std::ops::Range" and all(x.k == "k" for x in t.a[3]) and t.a[3][1].a[0] <= 6:
                        return True
        return False

    # ------------------------------------------------------------ blocks
    def block(self, fr, bb, st, pend):
        self.steps += 1
        if self.steps > self.budget:
            raise Limit("step budget")
        fn = fr.fn
        b = fn.blocks[bb]
        if not self.quiet:
            self.blocks_seen.add((fn.id, bb))
        for s in b["s"]:
            if s[0] == "=":
                v = self.rvalue(fr, st, s[2], s, bb)
                if v is None:
                    return
                self.assign(fr, st, s[1], v, s[3])
            elif s[0] == "dead":
                k = ("L", fr.fid, s[1])
                if k in st.mem:
                    del st.mem[k]
            elif s[0] == "sd":
                self.assign(fr, st, s[1], mk("sd", s[2], mk("site", fr.ctx, bb, fr.tag)), s[3])
        t = b["t"]
        k = t["t"]
        if k == "goto":
            pend.setdefault(t["to"], []).append(st)
        elif k == "switch":
            self.switch(fr, st, t, pend)
        elif k == "drop":
            for s in (self.cl.on_drop(self, st, fr, bb, t) if hasattr(self.cl, "on_drop") else None) or [st]:
                pend.setdefault(t["to"], []).append(s)
        elif k == "assert":
            self.do_assert(fr, st, bb, t, pend)
        elif k == "call":
            for s, r in self.do_call(fr, st, bb, t):
                if t["to"] is None or r is None:
                    continue
                self.assign(fr, s, t["d"], r, t["ln"])
                pend.setdefault(t["to"], []).append(s)
        elif k == "ret":
            self._rets_stack[-1].append(st)
        elif k == "yield":
            if hasattr(self.cl, "on_yield"):
                self.cl.on_yield(self, st, fr, bb, t)
            pend.setdefault(t["to"], []).append(st)

    def site(self, fr, bb):
        return mk("site", fr.ctx, bb, fr.tag)

    def assign(self, fr, st, place, v, ln):
        path = self.path(fr, st, place)
        if len(place) == 1:
            self.typed(v, fr.fn.locals[place[0]])
        if self.cl is not None and path[0][0] != "L" and hasattr(self.cl, "on_write"):
            self.cl.on_write(self, st, fr, path, v, ln, place)
        write(st, path, v)

    def path(self, fr, st, place):
        cur = (("L", fr.fid, place[0]),)
        for e in place[1:]:
            k = e[0]
            if k == "d":
                p = read(st, cur)
                if p.k == "ref":
                    cur = p.a[0]
                else:
                    if len(cur) == 1 and not self.quiet and hasattr(self.cl, "on_deref"):
                        self.cl.on_deref(self, st, fr, place, p)
                    cur = (("T", p),)
            elif k == "f":
                cur = cur + ("f:" + e[1],)
            elif k == "v":
                cur = cur + ("v:" + e[1],)
            elif k == "i":
                cur = cur + (("i", read(st, (("L", fr.fid, e[1]),))),)
            elif k == "ci":
                if e[3]:
                    n = len_of(read(st, cur))
                    cur = cur + (("i", ladd(n, K(-e[1]))),)
                else:
                    cur = cur + (("i", K(e[1])),)
            else:
                cur = cur + (("x", str(e)),)
        # Box/Pin internals: fields of a ref are the ref
        return cur

    def operand(self, fr, st, o):
        k = o["k"]
        if k in ("cp", "mv"):
            return read(st, self.path(fr, st, o["p"]))
        if k == "c":
            if "v" in o:
                return K(o["v"])
            if "s" in o:
                return mk("s", o["s"])
            if "prom" in o:
                return self.promoted(st, o["prom"])
            if "def" in o:
                if o["def"].endswith("time::Duration::ZERO"):
                    return K(0)
                return self.typed(mk("cst", o["def"], o["ty"]), o["ty"])
            if o["ty"] == "()":
                return UNIT
            return mk("cst", o["ty"])
        if k == "fn":
            return mk("fn", FnRef(o["fn"]))
        return mk("rt")

    def promoted(self, st, pid):
        f = self.p.fns.get(pid)
        if f is None:
            return mk("cst", pid)
        s = St()
        q = self.quiet
        self.quiet = q + 1
        try:
            site = mk("prom", pid)
            fr = Frame()
            fr.fn, fr.fid, fr.selfty, fr.generic, fr.tag, fr.ctx = f, mk("ctx", site, pid), None, None, (), site
            pend = {}
            rets = []
            self._rets_stack = getattr(self, "_rets_stack", [])
            self._rets_stack.append(rets)
            part, _ = wto(f)
            self.run(fr, part, {0: [s]})
            self._rets_stack.pop()
            if len(rets) != 1:
                return mk("cst", pid)
            s = rets[0]
            r = read(s, (("L", fr.fid, 0),))
            for k, d in s.mem.items():
                if k[1] is fr.fid and k[2] != 0:
                    st.mem[("B", site, k[2])] = d
            if r.k == "ref" and r.a[0][0][0] == "L":
                p = r.a[0]
                return mk("ref", (("B", site, p[0][2]),) + p[1:], 0)
            return r
        finally:
            self.quiet = q

    def rvalue(self, fr, st, r, s, bb):
        k = r["r"]
        if k == "use":
            return self.operand(fr, st, r["o"])
        if k == "ref":
            p = r["p"]
            # &*x where x is not a tracked reference: same pointer
            path = self.path(fr, st, p)
            if len(path) == 1 and path[0][0] == "T":
                t = path[0][1]
                return t
            return mk("ref", path, r["m"])
        if k == "bin":
            a = self.operand(fr, st, r["a"])
            b = self.operand(fr, st, r["b"])
            return self.binop(fr, st, r["op"], a, b, r["ty"], self.site(fr, bb))
        if k == "un":
            a = self.operand(fr, st, r["o"])
            if r["op"] == "Not":
                if a.k in ("ge0", "eq0", "not", "isv", "and", "or") or (a.lo == 0 and a.hi == 1) or fr.fn.locals[s[1][0]] == "bool":
                    return lnot(a)
                return mk("bitnot", a)
            if r["op"] == "PtrMetadata":
                return len_of(self.deref_val(st, a))
            if r["op"] == "Neg":
                return lmul(a, -1) if a.k == "k" else mk("neg", a)
            return mk("un", r["op"], a)
        if k == "cast":
            return self.cast(fr, st, r, self.operand(fr, st, r["o"]), s, bb)
        if k == "discr":
            path = self.path(fr, st, r["p"])
            v = read(st, path)
            return self.discr(st, v, r["ty"])
        if k == "agg":
            ops = tuple(self.operand(fr, st, o) for o in r["ops"])
            a = r["a"]
            if a == "adt":
                if hasattr(self.cl, "on_agg"):
                    self.cl.on_agg(self, st, fr, r, ops, s[3])
                if len(r["fs"]) != len(ops):
                    return adt(r["adt"], r["v"], ("?",) * len(ops), ops)
                return adt(r["adt"], r["v"], r["fs"], ops)
            if a == "tuple":
                return mk("tup", ops)
            if a == "array":
                return mk("arr", ops)
            if a == "closure":
                return mk("clos", r["c"], ops)
            return ops[0]
        if k == "repeat":
            try:
                n = K(int(re.match(r"\d+", r["n"]).group()))
            except Exception:
                n = ranged(mk("cst", r["n"]), 0, LENMAX)
            return mk("rep", self.operand(fr, st, r["o"]), n)
        return mk("other", self.site(fr, bb))

    def variants(self, adtname):
        base = adtname.split("<")[0].lstrip("&").strip()
        if base in BUILTIN:
            return BUILTIN[base]
        return self.p.discr.get(base)

    def discr(self, st, v, ty):
        vs = self.variants(ty)
        if v.k == "adt" and vs:
            for n, name in vs.items():
                if name == v.a[1]:
                    return K(n)
        if vs:
            cur = st.var.get(v)
            if isinstance(cur, str):
                for n, name in vs.items():
                    if name == cur:
                        return K(n)
        return mk("discr", v, ty.split("<")[0].lstrip("&").strip())

    def deref_val(self, st, t, n=4):
        """follow references down to the value"""
        while n and t.k == "ref":
            t = read(st, t.a[0])
            n -= 1
        return t

    def cast(self, fr, st, r, a, s, bb):
        to, frm = r["ty"], r["from"]
        if to in INTS and (frm in INTS):
            lo, hi = INTS[to]
            l, h = bounds(a)
            if l is None or h is None:
                fl, fh = INTS[frm]
                l = fl if l is None else max(l, fl)
                h = fh if h is None else min(h, fh)
            if l >= lo and h <= hi:
                return a if isnum(a) else ranged(a, *INTS[frm])
            ok_ = prove(st, ladd(a, K(-lo))) and prove(st, ladd(K(hi), a, -1))
            if hasattr(self.cl, "on_narrow") and not self.quiet:
                self.cl.on_narrow(self, st, fr, bb, a, frm, to, ok_, s[3])
            if ok_:
                return a
            return ranged(mk("cast", to, a), lo, hi)
        if to in INTS:
            if a.k == "discr" or a.k == "k":
                return a
            return ranged(mk("cast", to, a), *INTS[to])
        if "Unsize" in r["ck"] and a.k == "ref":
            v = read(st, a.a[0])
            if re.search(r"\[.*; ", frm) and "[" in to:
                m = re.search(r"; (\d+)\]", frm)
                if v.k in ("arr", "rep"):
                    return mk("sl", v, K(0), len_of(v)) if not a.a[1] else a
                if m:
                    return mk("sl", mk("mem", a.a[0]), K(0), K(int(m.group(1))))
            return a
        return a

    def binop(self, fr, st, op, a, b, ty, site):
        if op.endswith("WithOverflow"):
            base = op[:-len("WithOverflow")]
            v = self.arith(base, a, b, ty, True)
            lo, hi = INTS.get(ty, (None, None))
            l, h = bounds(v)
            if lo is not None and l is not None and h is not None and l >= lo and h <= hi:
                flag = FALSE
            else:
                flag = mk("ovf", v, ty)
            return mk("tup", (v, flag))
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            v = self.arith(op.replace("Unchecked", ""), a, b, ty, False)
            return v
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            if ty in INTS and ty != "bool" or (isnum(a) and isnum(b)):
                self.typed(a, ty)
                self.typed(b, ty)
                if op == "Lt":
                    return ge0(ladd(lsub(b, a), K(-1)))
                if op == "Le":
                    return ge0(lsub(b, a))
                if op == "Gt":
                    return ge0(ladd(lsub(a, b), K(-1)))
                if op == "Ge":
                    return ge0(lsub(a, b))
                e = eq0(lsub(a, b))
                return e if op == "Eq" else lnot(e)
            if ty == "bool":
                if op in ("Eq", "Ne"):
                    if b.k == "k":
                        r = a if b.a[0] else lnot(a)
                        return r if op == "Eq" else lnot(r)
                    if a is b:
                        return TRUE if op == "Eq" else FALSE
            if op == "Eq":
                return TRUE if a is b else mk("eqv", *sorted((a, b), key=lambda x: x.id))
            if op == "Ne":
                return FALSE if a is b else lnot(mk("eqv", *sorted((a, b), key=lambda x: x.id)))
            return ranged(mk("cmp", op, a, b), 0, 1)
        if op == "BitAnd" and b.k == "k" and a.k != "k" and a.lo is not None and a.lo >= 0:
            m = b.a[0]
            if m and m & (m - 1) == 0:
                if prove(st, ladd(K(m - 1), a, -1), 4):
                    return K(0)
                if a.hi is not None and a.hi < 2 * m and prove(st, ladd(a, K(-m)), 4):
                    return K(m)
        if op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr", "Div", "Rem", "ShlUnchecked", "ShrUnchecked"):
            v = self.arith(op.replace("Unchecked", ""), a, b, ty, False)
            if v.k == "pow2":
                n = next((n for n in range(64) if prove(st, ladd(K(n), b, -1), 2)), None)
                if n is not None:
                    st.cons[ladd(K(1 << n), v, -1)] = None
            return v
        return mk("bin", op, a, b)

    def arith(self, op, a, b, ty, checked):
        self.typed(a, ty)
        lo, hi = INTS.get(ty, (None, None))
        if a.k == "k" and b.k == "k":
            x, y = a.a[0], b.a[0]
            try:
                v = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Shl": lambda: x << y, "Shr": lambda: x >> y, "Div": lambda: x // y, "Rem": lambda: x % y}[op]()
                if not checked and lo is not None and not lo <= v <= hi:
                    v &= hi if lo == 0 else v
                return K(v)
            except Exception:
                pass
        if op in ("Add", "Sub", "Mul"):
            self.typed(b, ty)
            if op == "Add":
                v = ladd(a, b)
            elif op == "Sub":
                v = lsub(a, b)
            elif b.k == "k":
                v = lmul(a, b.a[0])
            elif a.k == "k":
                v = lmul(b, a.a[0])
            else:
                (l1, h1), (l2, h2) = bounds(a), bounds(b)
                v = mk("mul", *sorted((a, b), key=lambda x: x.id))
                if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
                    ranged(v, 0, h1 * h2 if h1 is not None and h2 is not None else None)
            v = whole(v)
            if checked:
                return v
            l, h = bounds(v)
            if lo is None or (l is not None and h is not None and l >= lo and h <= hi):
                return v
            return ranged(mk("wrap", ty, v), lo, hi)
        la, ha = bounds(a)
        lb, hb = bounds(b) if isnum(b) else (None, None)
        if ty == "bool":
            if op == "BitAnd":
                if FALSE in (a, b):
                    return FALSE
                return b if a is TRUE else a if b is TRUE else mk("and", *sorted((a, b), key=lambda x: x.id))
            if op == "BitOr":
                if TRUE in (a, b):
                    return TRUE
                return b if a is FALSE else a if b is FALSE else lnot(mk("and", *sorted((lnot(a), lnot(b)), key=lambda x: x.id)))
            return ranged(mk("bin", op, a, b), 0, 1)
        if op == "BitAnd":
            if a.k == "k":
                a, b = b, a
                la, ha = lb, hb
            m = b.a[0] if b.k == "k" else bounds(b)[1]
            if b.k == "k" and m > 0 and a.k == "lin":
                if m & (m + 1) == 0:
                    r = divmod_lin(a, m + 1)
                    if r:
                        return r[1]
                elif m & (m - 1) == 0:
                    r = divmod_lin(a, 2 * m)
                    if r:
                        l, h = bounds(r[1])
                        if h < m:
                            return K(0)
                        if l >= m:
                            return K(m)
            v = mk("bin", "BitAnd", a, b)
            if m is not None and m >= 0 and la is not None and la >= 0:
                if b.k == "k" and ha is not None and (m & (m + 1)) == 0 and ha <= m:
                    return a
                ranged(v, 0, min(m, ha) if ha is not None else m)
            return v
        if op == "BitOr":
            for x, y in ((a, b), (b, a)):
                if y.k == "k" and y.a[0] > 0 and isnum(x):
                    l, h = bounds(x)
                    if l is not None and h is not None and l >= 0 and h < (y.a[0] & -y.a[0]):
                        return ladd(x, y)
                if y.k == "k" and y.a[0] == 0 and isnum(x):
                    return x
                if isnum(x) and isnum(y) and y.k != "k":
                    # disjoint bits: y is a multiple of a power of two above x
                    l, h = bounds(x)
                    c, d = lin(y)
                    g = 0
                    for k in [c] + list(d.values()):
                        g |= abs(k)
                    if l is not None and h is not None and l >= 0 and bounds(y)[0] is not None and bounds(y)[0] >= 0 and h < (g & -g):
                        return whole(ladd(x, y))
            v = mk("bin", "BitOr", *sorted((a, b), key=lambda x: x.id))
            if la is not None and lb is not None and la >= 0 and lb >= 0 and ha is not None and hb is not None:
                ranged(v, 0, (1 << max(ha.bit_length(), hb.bit_length())) - 1)
            return v
        if op == "Shl" and b.k == "k":
            v = lmul(a, 1 << b.a[0])
            l, h = bounds(v)
            if hi is not None and l is not None and h is not None and l >= lo and h <= hi:
                return v
            return ranged(mk("shl", a, b, ty), lo, hi)
        if op == "Shl" and a is K(1):
            return ranged(mk("pow2", b), 1, hi)
        if op in ("Shr", "Div", "Rem") and b.k == "k" and b.a[0] > 0 and (a.k == "lin" or isnum(a)) and la is not None and la >= 0:
            r = divmod_lin(a, b.a[0] if op != "Shr" else 1 << b.a[0])
            if r:
                return r[1] if op == "Rem" else r[0]
        if op == "Shr" and b.k == "k":
            v = mk("bin", "Shr", a, b)
            if la is not None and la >= 0:
                ranged(v, 0, ha >> b.a[0] if ha is not None else None)
            return v
        if op == "Rem" and b.k == "k" and b.a[0] > 0 and la is not None and la >= 0:
            return ranged(mk("bin", "Rem", a, b), 0, b.a[0] - 1)
        if op == "Div" and b.k == "k" and b.a[0] > 0 and la is not None and la >= 0:
            return ranged(mk("bin", "Div", a, b), 0, ha // b.a[0] if ha is not None else None)
        v = mk("bin", op, a, b)
        return ranged(v, lo, hi) if lo is not None else v

    # ------------------------------------------------------------ terminators
    def switch(self, fr, st, t, pend):
        v = self.operand(fr, st, t["d"])
        vs = t["vs"]
        if v.k == "discr":
            names = self.variants(v.a[1])
            if names:
                allv = list(names.values())
                rest = st.copy()
                feas = True
                live = set(allv)
                for val, b in vs:
                    name = names.get(val)
                    if name is None:
                        continue
                    s = st.copy()
                    if feas and set_var(s, v.a[0], name) and self._var_ok(s, v.a[0], name):
                        pend.setdefault(b, []).append(s)
                    if feas:
                        feas = set_var(rest, v.a[0], name, False, allv)
                if feas and not self.unreachable(fr, t["else"]):
                    pend.setdefault(t["else"], []).append(rest)
                return
        if t["ty"] == "bool":
            for val, b in vs:
                s = st.copy()
                if assume(s, v, bool(val)):
                    pend.setdefault(b, []).append(s)
            s = st
            if assume(s, v, not bool(vs[0][0])) and not self.unreachable(fr, t["else"]):
                pend.setdefault(t["else"], []).append(s)
            return
        feas = True
        rest = st.copy()
        for val, b in vs:
            s = rest.copy()
            if feas and assume(s, eq0(ladd(v, K(-val))), True):
                pend.setdefault(b, []).append(s)
            if feas:
                feas = assume(rest, eq0(ladd(v, K(-val))), False)
        if feas and not self.unreachable(fr, t["else"]):
            pend.setdefault(t["else"], []).append(rest)

    def _var_ok(self, s, t, name):
        return True

    def unreachable(self, fr, bb):
        b = fr.fn.blocks[bb]
        return b["t"]["t"] == "unreachable" and not b["s"]

    def do_assert(self, fr, st, bb, t, pend):
        c = self.operand(fr, st, t["c"])
        exp = bool(t["e"])
        proven = False
        if c.k == "ovf":
            v, ty = c.a
            lo, hi = INTS[ty]
            proven = prove(st, ladd(v, K(-lo))) and prove(st, ladd(K(hi), v, -1))
            ok_ = proven or (add_ge(st, ladd(v, K(-lo))) and add_ge(st, ladd(K(hi), v, -1)))
        else:
            h = holds(st, c)
            proven = h is not None and h == exp
            ok_ = assume(st, c, exp)
        if not self.quiet and hasattr(self.cl, "on_panic_site"):
            self.cl.on_panic_site(self, st, fr, bb, t["m"], proven, t["ln"])
        if ok_:
            pend.setdefault(t["to"], []).append(st)

    # ------------------------------------------------------------ calls
    def do_call(self, fr, st, bb, t):
        args = [self.operand(fr, st, a) for a in t["args"]]
        site = self.site(fr, bb)
        f = t["f"]
        if f is None:
            fo = self.operand(fr, st, t["fo"]) if t["fo"] else None
            return self.invoke(fr, st, site, fo, args, t, bb)
        name, selfty = self.resolve(fr, f)
        return self.call_named(fr, st, site, f, name, selfty, args, t, bb)

    def call_named(self, fr, st, site, f, name, selfty, args, t, bb):
        if self.cl is not None:
            h = self.cl.on_call(self, st, fr, name, f, args, t, bb, site)
            if h is not None:
                return h
        fn = self.p.fns.get(name)
        if CLOSURE_CALL.search(f["o"]) and len(args) == 2 and args[1].k == "tup" and len(self.stack) < MAXDEPTH:
            e = args[0]
            v = self.deref_val(st, e) if e.k == "ref" else e
            if v.k in ("clos", "fn") and not (v.k == "clos" and v.a[0] in self.stack):
                return self.invoke(fr, st, site, e, list(args[1].a[0]), t, bb)
        if fn is not None and fn.d.get("mac") and name.endswith(" as std::clone::Clone>::clone"):
            fn = None       # derived: the value itself
        if fn is not None and fn.d["dk"] in ("Fn", "AssocFn", "Closure") and self.inline(name) and name not in self.stack and len(self.stack) < MAXDEPTH:
            generic = None
            if fr is not None and fr.generic:
                generic = fr.generic
            return self.call_fn(fn, args, st, site, selfty if selfty else (fr.selfty if fr and f["g"] and f["g"][0] == "Self" else None), generic)
        if not self.quiet and hasattr(self.cl, "on_panic_site") and fr is not None:
            if fn is not None and fn.d["dk"] in ("Fn", "AssocFn", "Closure") and (name in self.stack or len(self.stack) >= MAXDEPTH):
                self.cl.on_panic_site(self, st, fr, bb, "recursion", False, t["ln"])
        m = self.models.lookup(name, f["o"])
        if m is not None:
            r = m(self, st, fr, args, t, site, f, bb)
            if r is not None:
                return r
        if MAYPANIC.search(name) and not self.quiet and hasattr(self.cl, "on_panic_site"):
            self.cl.on_panic_site(self, st, fr, bb, "call:" + name.rsplit("::", 1)[-1], False, t["ln"])
        return [(st, self.opaque_call(st, fr, name, f, args, t, site))]

    def opaque_call(self, st, fr, name, f, args, t, site):
        if not self.quiet:
            self.opaque[name] = self.opaque.get(name, 0) + 1
        vals = tuple(self.deref_val(st, a) for a in args)
        for a in args:
            self.havoc_arg(st, a, site)
        r = mk("call", name, vals, site)
        dty = fr.fn.locals[t["d"][0]] if len(t["d"]) == 1 else None
        if dty:
            self.typed(r, dty)
        return r

    def havoc_arg(self, st, a, site, depth=3):
        if a.k == "ref" and a.a[1]:
            p = a.a[0]
            v = read(st, p)
            nv = mk("hv", site, p)
            if v.lo is not None:
                ranged(nv, v.lo, v.hi if v.hi in [x[1] for x in INTS.values()] else None)
            if hasattr(self.cl, "on_havoc"):
                self.cl.on_havoc(self, st, p, site)
            write(st, p, nv)
        elif depth and a.k in ("adt", "tup", "clos"):
            vals = a.a[3] if a.k == "adt" else a.a[0] if a.k == "tup" else a.a[1]
            for x in vals:
                if isinstance(x, T):
                    self.havoc_arg(st, x, site, depth - 1)

    def invoke(self, fr, st, site, f, args, t, bb):
        """call a callable term (closure, fn item) with a list of argument terms"""
        if f is not None and f.k == "ref":
            f2 = self.deref_val(st, f)
            if f2.k in ("clos", "fn"):
                if f2.k == "clos":
                    fn = self.p.fns.get(f2.a[0])
                    if fn is not None and fn.locals[1].startswith("&"):
                        return self._clos(fr, st, site, fn, f, args, t, bb)
                f = f2
        if f is not None and f.k == "fn":
            d = f.a[0].d
            name, selfty = self.resolve(fr, d)
            # tuple-struct / variant constructor
            if name not in self.p.fns:
                par, _, v = name.rpartition("::")
                if par in self.p.adts:
                    return [(st, adt(par, v, tuple(str(i) for i in range(len(args))), tuple(args)))]
                if name in ("std::option::Option::Some", "std::prelude::v1::Some"):
                    return [(st, some(args[0]))]
                if name in ("std::result::Result::Ok",):
                    return [(st, ok(args[0]))]
                if name in ("std::result::Result::Err",):
                    return [(st, err(args[0]))]
            return self.call_named(fr, st, site, d, name, selfty, list(args), t, bb)
        if f is not None and f.k == "clos":
            fn = self.p.fns.get(f.a[0])
            if fn is not None:
                env = f
                if fn.locals[1].startswith("&"):
                    root = ("B", site, "env")
                    st.mem[root] = {(): f}
                    env = mk("ref", (root,), 1)
                return self._clos(fr, st, site, fn, env, args, t, bb)
        for a in args:
            self.havoc_arg(st, a, site)
        r = mk("call", "?", tuple(args), mk("inv", site, f if f is not None else UNIT))
        return [(st, r)]

    def _clos(self, fr, st, site, fn, env, args, t, bb):
        if len(self.stack) >= MAXDEPTH or fn.id in self.stack:
            return [(st, mk("call", fn.id, tuple(args), site))]
        s2 = mk("clsite", site)
        return self.call_fn(fn, [env] + list(args), st, s2, fr.selfty if fr else None, fr.generic if fr else None)

    # ------------------------------------------------------------ roots
    def root_args(self, fn, st, types=None):
        out = []
        for i in range(1, fn.nargs + 1):
            out.append(self.param(i, fn.locals[i], st, fn.id))
        return out

    def param(self, i, ty, st, fid=""):
        m = re.match(r"&(?:'\w+ )?(mut )?(.*)$", ty)
        if m:
            if m.group(2).startswith("[") and not re.search(r"; ", m.group(2)):
                b = mk("buf", i)
                return mk("sl", b, K(0), ranged(mk("len", b), 0, LENMAX)) if not m.group(1) else mk("ref", (("P", i, fid),), 1)
            return mk("ref", (("P", i, fid),), 1 if m.group(1) else 0)
        t = mk("ld", ("P", i, fid), (), 0)
        if ty in INTS:
            ranged(t, *INTS[ty])
        return t

    def analyze(self, fn, st=None, args=None, selfty=None, generic=None):
        st = st or St()
        args = args if args is not None else self.root_args(fn, st)
        if selfty is None:
            selfty = fn.d.get("implty")
        self.steps = 0
        return self.call_fn(fn, args, st, mk("root", fn.id), selfty, generic)


SLICE = re.compile(r"&(?:'\w+ )?\[u8\]$")


class SummaryClient:
    """collects the panic obligations while a summary is computed"""

    def __init__(self, outer):
        self.sites = {}
        self.calls_seen = False
        self.outer = outer

    def on_call(self, I, st, fr, name, f, args, t, bb, site):
        return None

    def on_panic_site(self, I, st, fr, bb, kind, ok, ln):
        k = (fr.fn.id, bb, kind, ln)
        self.sites[k] = self.sites.get(k, True) and ok

    def on_summary(self, I, fn, sites):
        for k, v in sites.items():
            self.sites[k] = self.sites.get(k, True) and v


def rebuild(t, m, memo):
    """t with the terms of m replaced, renormalised"""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(rebuild(x, m, memo) for x in t)
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
        memo[t] = r
        return r
    k = t.k
    if k in ("k", "s", "cst", "fn", "undef", "vnew", "bot"):
        r = t
    elif k == "lin":
        r = K(t.a[0])
        for a, c in t.a[1]:
            r = ladd(r, lmul(rebuild(a, m, memo), c))
    elif k == "ge0":
        r = ge0(rebuild(t.a[0], m, memo))
    elif k == "eq0":
        r = eq0(rebuild(t.a[0], m, memo))
    elif k == "not":
        r = lnot(rebuild(t.a[0], m, memo))
    elif k == "elem" and t.a[0] in m and m[t.a[0]].k == "sl":
        b = m[t.a[0]]
        r = project(mk("slv", b), ("i", rebuild(t.a[1], m, memo)))
        ranged(r, t.lo, t.hi)
    elif k == "sl" and t.a[0] in m and m[t.a[0]].k == "sl":
        b = m[t.a[0]]
        r = mk("sl", b.a[0], ladd(b.a[1], rebuild(t.a[1], m, memo)), rebuild(t.a[2], m, memo))
    elif k == "len" and t.a[0] in m and m[t.a[0]].k == "sl":
        r = m[t.a[0]].a[2]
    elif k == "mul":
        a, b = rebuild(t.a[0], m, memo), rebuild(t.a[1], m, memo)
        r = lmul(a, b.a[0]) if b.k == "k" else lmul(b, a.a[0]) if a.k == "k" else ranged(mk("mul", *sorted((a, b), key=lambda x: x.id)), t.lo, t.hi)
    else:
        a = tuple(rebuild(x, m, memo) for x in t.a)
        r = mk(k, *a)
        if t.lo is not None or t.hi is not None:
            ranged(r, t.lo, t.hi)
    memo[t] = r
    return r


class FnRef:
    _t = {}

    def __new__(cls, d):
        k = (d["f"], tuple(d["g"]))
        x = cls._t.get(k)
        if x is None:
            x = object.__new__(cls)
            x.d = d
            cls._t[k] = x
        return x

    def __repr__(self):
        return self.d["f"]


def shape(t):
    if t.k == "adt":
        n = t.a[1]
        if t.a[3] and t.a[3][0].k == "adt":
            n += "/" + str(t.a[3][0].a[1])
        return n
    if t.k == "k":
        return str(t.a[0])
    return t.k


def widen(h, b, key, pm, it):
    """loop head state h against back-edge state b.  pm: phi -> (root, proj).
    Returns (state, phimap, changed)."""
    n = h.copy()
    pm = dict(pm)
    changed = False
    newphi = []
    for root in list(h.mem):
        if root not in b.mem:
            if root[0] == "L":
                del n.mem[root]
                changed = True
                continue
            db = {}
        else:
            db = b.mem[root]
        da = h.mem[root]
        if da is db or da == db:
            continue
        out = {}
        keys = sorted(set(da) | set(db), key=len)
        done = []
        for q in keys:
            if any(len(x) < len(q) and q[:len(x)] == x for x in done):
                continue
            ta, tb = read(h, (root,) + q), read(b, (root,) + q)
            if ta.k == "undef" or tb.k == "undef":
                if q in da:
                    changed = True
                continue
            v = ta
            if ta is not tb and not (ta.k == "phi" and ta in pm and pm[ta] == (root, q)):
                v = widen_terms(ta, tb, (key, root, q), newphi, pm, (root,) + q)
                if v is not ta:
                    changed = True
            elif ta is not tb and PHI_HOOK[0]:
                _WID.append((ta, ta, tb))
            out[q] = v
            done.append(q)
        if out != da:
            changed = True
        n.mem[root] = out
    for root in b.mem:
        if root not in h.mem and root[0] in ("P", "T", "B"):
            out = {}
            for q, tb in b.mem[root].items():
                ta = read(h, (root,) + q)
                out[q] = widen_terms(ta, tb, (key, root, q), newphi, pm, (root,) + q) if ta is not tb else ta
            n.mem[root] = out
            changed = True
    if PHI_HOOK[0]:
        PHI_HOOK[0]([(p, x) for p, x, y in _WID if p is not x], h)
        PHI_HOOK[0]([(p, y) for p, x, y in _WID], b)
        _WID.clear()
    for p, path, ta in newphi:
        pm[p] = path
    # candidate facts for new phis, from the head state
    for p, path, ta in newphi:
        if isnum(ta):
            for e in phi_candidates(p, ta, h):
                lo, _ = bounds(e)
                if (lo is None or lo < 0) and len(n.cons) < 200:
                    n.cons[e] = None
            # against every length known at the head
            lens = set()
            for x in h.cons:
                for a in lin(x)[1]:
                    lens.add(a)
            lens = sorted(lens | set(len_atoms(b)), key=lambda a: (a.k != "len", a.id))
            for a in lens[:30]:
                e = lsub(a, p)
                if e not in n.cons and prove(h, lsub(a, ta), 4):
                    n.cons[e] = None
    # facts must survive the back edge
    sub = {p: read(b, path) for p, path in pm.items()}
    nsub = {p: t for p, t in sub.items() if isnum(t) or t.k in ("k", "lin")}

    def mentions(t, depth=6):
        return bool(subterms(t) & phiset) if phiset else False
    phiset = set(pm)
    for x in list(n.cons):
        d = lin(x)[1]
        if any((a in phiset and a not in nsub) or (a not in phiset and mentions(a)) for a in d):
            del n.cons[x]
            changed = True
            continue
        y = subst(x, nsub)
        if x in b.cons and y is x:
            continue
        if not prove(b, y, 6):
            del n.cons[x]
            changed = True
    for dct, bd in ((n.eqs, b.eqs), (n.nes, b.nes), (n.var, b.var)):
        for t in list(dct):
            v = dct[t]
            if t in phiset:
                w = sub.get(t)
                good = False
                if w is not None:
                    if dct is n.eqs:
                        good = (w.k == "k" and w.a[0] == v) or b.eqs.get(w) == v
                    elif dct is n.var:
                        good = (w.k == "adt" and w.a[1] == v) or b.var.get(w) == v
                        if isinstance(v, frozenset):
                            good = (w.k == "adt" and w.a[1] not in v) or (isinstance(b.var.get(w), str) and b.var.get(w) not in v) or (isinstance(b.var.get(w), frozenset) and v <= b.var.get(w))
                if not good:
                    del dct[t]
                    changed = True
            elif mentions(t):
                del dct[t]
                changed = True
            elif bd.get(t) != v and dct is not n.nes:
                if dct is n.var and isinstance(v, frozenset) and (bd.get(t) is not None):
                    w = bd[t]
                    if (isinstance(w, str) and w not in v) or (isinstance(w, frozenset) and v <= w):
                        continue
                del dct[t]
                changed = True
            elif dct is n.nes and not v <= bd.get(t, frozenset()) and not (t in b.eqs and b.eqs[t] not in v):
                del dct[t]
                changed = True
    return n, pm, changed


def widen_terms(a, b, key, newphi, pm, path):
    if a is b:
        return a
    if a.k == "phi" and a in pm:
        if PHI_HOOK[0]:
            _WID.append((a, a, b))
        return a
    if a.k == "adt" and b.k == "adt" and a.a[0] == b.a[0] and a.a[1] == b.a[1]:
        return adt(a.a[0], a.a[1], a.a[2], tuple(widen_terms(x, y, (key, n), newphi, pm, path + ("f:" + n,)) for n, x, y in zip(a.a[2], a.a[3], b.a[3])))
    if a.k == "tup" and b.k == "tup" and len(a.a[0]) == len(b.a[0]):
        return mk("tup", tuple(widen_terms(x, y, (key, n), newphi, pm, path + (f"f:{n}",)) for n, (x, y) in enumerate(zip(a.a[0], b.a[0]))))
    p = mk("phi", key)
    rng_of(p, key)
    newphi.append((p, path, a))
    if PHI_HOOK[0]:
        _WID.append((p, a, b))
    return p
