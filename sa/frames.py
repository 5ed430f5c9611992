"""MQTT frame facts: what the fixed header of a buffer says about the frame's size."""
import absint
from absint import prove, isnum, SLICE
from terms import *

SHORT = ("More", "BufferTooShort", "BufferEmpty")     # error kinds that mean "more bytes are needed"


def outcome_types(p):
    """enums (packet, consumed) | (missing, _) that frame decoders return"""
    out = {}
    for a, d in p.adts.items():
        if d["enum"] and a.startswith("flowsdk::mqtt_serde::"):
            two = {v["n"]: v["fs"] for v in d["vs"] if len(v["fs"]) == 2 and v["fs"][1][1] == "usize"}
            pk = [n for n, fs in two.items() if "usize" != fs[0][1] and "acket" in fs[0][1]]
            more = [n for n, fs in two.items() if fs[0][1] == "usize"]
            if pk and more:
                out[a] = (pk[0], more[0])
    return out


def readers(p):
    """functions reading a variable byte integer: &[u8] -> Result<(usize, usize), _> that call no other such function"""
    import panics
    ids = panics.int_readers(p)
    return [p.fns[i] for i in sorted(ids) if not any(t["f"]["f"] in ids for _, t in p.fns[i].calls())] or [p.fns[i] for i in sorted(ids)]


def base_len(b):
    return mk("len", b)


def vbi_instances(I, rd, base, st):
    """[(state, 'ok', E) | (state, 'short'/'bad', None)] for the length field at base[1..]"""
    L = base_len(base)
    if prove(st, ladd(K(1), L, -1)):          # len <= 1: the length field is missing
        return [(st, "short", None)]
    st = st.copy()
    if not absint.add_ge(st, ladd(L, K(-2))):
        return [(st, "short", None)]
    sub = mk("sl", base, K(1), ladd(L, K(-1)))
    sm = I.summary(rd)
    if sm is None:
        return None
    out = []
    for s, r in I.instantiate(rd, sm, [sub], st.copy(), "frame"):
        if r.k == "adt" and r.a[1] == "Ok":
            t = r.a[3][0]
            out.append((s, "ok", ladd(ladd(t.a[0][0], t.a[0][1]), K(1))))
        elif r.k == "adt" and r.a[3] and r.a[3][0].k == "adt" and r.a[3][0].a[1] in SHORT:
            out.append((s, "short", None))
        else:
            out.append((s, "bad", None))
    return out


def complete(I, rd, base, st):
    """the buffer provably holds the whole first frame, or its length field is provably malformed"""
    L = base_len(base)
    if prove(st, ladd(K(1), L, -1)):
        return False
    if not prove(st, ladd(L, K(-2))):
        return False
    ins = vbi_instances(I, rd, base, st)
    return ins is not None and all(k == "bad" or k == "ok" and prove(s, lsub(L, E)) for s, k, E in ins)


def incomplete(I, rd, base, st):
    """the buffer provably lacks part of the first frame"""
    L = base_len(base)
    if prove(st, ladd(K(1), L, -1)):
        return True
    ins = vbi_instances(I, rd, base, st)
    return ins is not None and all(k == "short" or k == "ok" and prove(s, ladd(lsub(E, L), K(-1))) for s, k, E in ins)


def bounded_above(st, L):
    """some fact of the path limits the buffer's length from above"""
    if L in st.eqs or (L.hi is not None and L.hi < LENMAX):
        return True
    for x in list(st.cons) + [t.a[0] for t, v in st.eqs.items() if t.k == "ge0" and v]:
        if lin(x)[1].get(L, 0) < 0:
            return True
    return any(t.k == "ge0" and not v and lin(t.a[0])[1].get(L, 0) > 0 for t, v in st.eqs.items())


def data_terms(t):
    """terms a value is computed from.  Merged values (phi) are returned but not looked into, see Provenance; an opaque result
    of a call may come from any slice the call was given."""
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in out:
            out.add(x)
            if x.k in ("inst", "call"):
                st.extend(y for y in x.a[1] if isinstance(y, T))
            elif x.k in ("exit", "view"):
                st.append(x.a[0])
            elif x.k in ("sl", "elem"):
                st.append(x.a[0])       # where the bytes are is not part of what they are
            elif x.k not in ("phi", "hv", "inv"):
                st.extend(x.a)
    return out


FRAME = mk("frame end")


class Provenance:
    """Which merged values may hold bytes from beyond the frame.  Decided where values are merged, with the facts known there: the bytes lie
    inside the frame, or below a cursor merged along with them (which the result must then show to be inside the frame)."""

    def __init__(self, base, I, rds):
        self.b, self.I, self.rds = base, I, rds
        self.seen, self.bad = set(), set()
        self.cand = {}                # merged value -> cursors its bytes lie below
        self.deps = {}                # (value, cursor) -> [alternatives, one of which must hold]
        self.memo = {}
        self.busy = False

    def __enter__(self):
        absint.PHI_HOOK[0] = self.hook
        return self

    def __exit__(self, *a):
        absint.PHI_HOOK[0] = None

    def top(self, p):
        r = self.memo.get(p)
        if r is None:
            r = self.memo[p] = not any(x.k in ("sroot", "inst") for x in subterms(p))
        return r

    def hook(self, batch, st):
        if self.busy or not batch or not self.top(batch[0][0]):
            return
        cur = [(p, x) for p, x in batch if isnum(x)]
        for p, x in batch:
            self.seen.add(p)
            if p in self.bad:
                continue
            ends, inner = set(), []
            for y in data_terms(x):
                if y.k == "sl" and y.a[0] is self.b:
                    ends.add(ladd(y.a[1], y.a[2]))
                elif y.k == "elem" and y.a[0] is self.b:
                    ends.add(ladd(y.a[1], K(1)))
                elif y.k == "phi" and y in self.bad:
                    self.bad.add(p)
                elif y.k == "phi" and (y in self.cand or y is p):
                    inner.append(y)
            ends = [e for e in ends if not (e.k == "k" and e.a[0] <= 2)]
            if p in self.bad or not ends and not [y for y in inner if y is not p]:
                continue
            self.busy = True
            try:
                if not [y for y in inner if y is not p] and any(self.inside(st, rd, ends) for rd in self.rds):
                    continue
                cs = {}
                if p not in self.cand or FRAME in self.cand[p]:
                    # everything lies inside the frame here
                    for rd in self.rds:
                        alts = [[(y, d) for d in (self.cand.get(y) or [FRAME]) if d is FRAME or self.inside(st, rd, [d])] for y in inner]
                        if all(alts) and (not ends or self.inside(st, rd, ends)):
                            cs[FRAME] = alts
                            break
                for c, v in cur:
                    if p in self.cand and c not in self.cand[p]:
                        continue
                    if not all(prove(st, lsub(v, e)) for e in ends):
                        continue
                    alts = []
                    for y in inner:
                        alts.append([(y, d) for d in (self.cand.get(y) or [c]) if d is not FRAME and prove(st, lsub(v, d))])
                    if all(alts):
                        cs[c] = alts
                if p in self.cand:
                    self.cand[p] &= set(cs)
                else:
                    self.cand[p] = set(cs)
                for c, alts in cs.items():
                    self.deps.setdefault((p, c), []).extend(alts)
                if not cs:
                    self.bad.add(p)
            finally:
                self.busy = False

    def inside(self, st, rd, ends):
        ins = vbi_instances(self.I, rd, self.b, st)
        return bool(ins) and all(k != "ok" or all(prove(s, lsub(E, e)) for e in ends) for s, k, E in ins)

    def settle(self):
        """drop cursors whose justification was dropped"""
        live = {(p, c) for p, cs in self.cand.items() for c in cs}
        while True:
            out = {x for x in live if not all(any(tuple(y) in live for y in alt) for alt in self.deps.get(x, ()))}
            if not out:
                break
            live -= out
        self.live = {}
        for p, c in live:
            self.live.setdefault(p, []).append(c)

    def clean(self, y, s, n):
        """a merged value met in a result (state s, n bytes consumed)"""
        if not self.top(y):
            return True
        if y in self.bad or y not in self.seen:
            return False
        return y not in self.cand or any(c is FRAME or prove(s, lsub(n, c)) for c in self.live.get(y, ()))


class limits:
    """temporarily other merge limits"""

    def __init__(self, soft, hard, exit_, summ=8):
        self.v = (soft, hard, exit_, summ)

    def __enter__(self):
        self.old = (absint.K_SOFT, absint.K_HARD, absint.K_EXIT, absint.K_SUM)
        absint.K_SOFT, absint.K_HARD, absint.K_EXIT, absint.K_SUM = self.v

    def __exit__(self, *a):
        absint.K_SOFT, absint.K_HARD, absint.K_EXIT, absint.K_SUM = self.old


def base_of(I, st, args, fn):
    """the base term of the byte buffer parameter of a decoder"""
    for a, ty in zip(args, fn.locals[1:fn.nargs + 1]):
        if SLICE.match(ty) and a.k == "sl":
            return a.a[0]
        if "bytes::Bytes" in ty and "Mut" not in ty:
            return a
    return None


def partition(rds):
    """state classes for absint.PARTITION: what is known about the completeness of each frame whose length field was read"""
    leaf = {f.id: f for f in rds}

    def cls(I, st):
        out = set()
        for t in st.eqs:
            if t.k == "exit" and t.a[0].k == "inst" and t.a[0].a[0] in leaf and t.a[0].a[1]:
                s = t.a[0].a[1][0]
                if s.k == "sl" and s.a[1] is K(1):
                    b = s.a[0]
                    k = (b.id, st.eqs[t])
                    if complete(I, leaf[t.a[0].a[0]], b, st):
                        out.add(k + ("c",))
                    elif incomplete(I, leaf[t.a[0].a[0]], b, st):
                        out.add(k + ("i",))
                    else:
                        out.add(k + ("?",))
        for t in st.cons:
            c, m = lin(t)
            if len(m) == 1:
                a, f = next(iter(m.items()))
                if a.k == "len" and f == -1 and c <= 1:
                    out.add((a.id, "tiny"))
        for t, v in st.eqs.items():
            if t.k == "len" and isinstance(v, int) and v <= 1:
                out.add((t.id, "tiny"))
        return tuple(sorted(out, key=str))
    return cls
