"""The byte count a decoder reports is the frame's size and its fields come from that frame."""
import re
import absint, frames, panics
from absint import prove
from frames import limits
from terms import *

RULE = ("Abstract interpretation of every frame decoder with arbitrary bytes.  On every path that returns (packet, n): n == 1 + length-of-length-field + "
        "remaining length, n <= bytes supplied, and every byte of the input that a field of the packet is computed from has an index below n.  "
        "An obligation counts as proven when one of several sound analysis passes (differing in how much they merge paths) proves it.")
THOROUGH_CONFIGS = ("default", "lax")
PASSES = ((12, 40, 24), (8, 24, 24), (40, 80, 60))


def decoders(p):
    oc = frames.outcome_types(p)
    out = []
    for f in p.fns.values():
        if f.crate == "flowsdk" and f.file.startswith("src/mqtt_serde") and f.d["dk"] in ("Fn", "AssocFn") and f.nargs:
            for a in oc:
                if f.locals[0].startswith(f"std::result::Result<{a},") and any(t in ("&[u8]", "bytes::Bytes") for t in f.locals[1:f.nargs + 1]):
                    out.append((f, oc[a]))
    return out


def outer(x):
    """the summarised functions a merged value comes from"""
    out, todo, seen = [], [x], set()
    while todo:
        y = todo.pop()
        if isinstance(y, tuple):
            todo.extend(y)
        elif isinstance(y, T) and y not in seen:
            seen.add(y)
            if y.k == "inst":
                out.append(y)
            else:
                todo.extend(y.a)
    return out


def is_top(f):
    return f.d["vis"] == "Public" or f.id.startswith("<")


def run(c):
    p = c.prog()
    ds = [(f, o) for f, o in decoders(p) if is_top(f)]
    if not c.anchor("frame decoders", ds, 30):
        return
    rds = frames.readers(p)
    if not c.anchor("length-field reader", rds):
        return
    c.assume("the length-field reader itself decodes correctly (property P04)")
    top = {f.id for f, _ in ds}      # a merged value of another decoder run on the same buffer is checked there
    res = {}
    npk = 0
    for lim in PASSES:
        todo = [(f, o) for f, o in ds if f.id not in res or not all(v for v in res[f.id].values())]
        if not todo:
            break
        with limits(*lim):
            ps = panics.Pass(p)
            work = [(f, o, frozenset()) for f, o in todo]
            while work:
                f, (pk, more), inline = work.pop(0)
                opaque = set()
                base = []
                got = {}
                prov = []

                def prep(I, st, args):
                    base.append(frames.base_of(I, st, args, f))
                    prov.append(frames.Provenance(base[0], I, rds).__enter__())
                # the decoder itself is looked into, not summarised
                look = {f.id} | inline
                old_sm = {x: ps.summ.pop(x) for x in look if x in ps.summ}
                if inline:
                    old_sm, ps.summ = ps.summ, {}
                ps.never = re.compile("|".join("^" + re.escape(x) + "$" for x in sorted(look)))
                try:
                    _, outs = ps.run(f, prep)
                except absint.Limit:
                    continue
                finally:
                    absint.PHI_HOOK[0] = None
                    ps.never = None
                    ps.summ.pop(f.id, None)
                    if inline:
                        ps.summ = old_sm
                    else:
                        ps.summ.update(old_sm)
                b = base[0]
                prov = prov[0]
                prov.settle()
                L = frames.base_len(b)
                n_ok = 0
                for s, r in outs:
                    if r.k != "adt" or r.a[1] != "Ok" or r.a[3][0].k != "adt" or r.a[3][0].a[1] != pk:
                        if r.k == "adt" and r.a[1] == "Err" or r.k == "adt" and r.a[3][0].k == "adt":
                            continue
                        got["an outcome the analysis can tell apart"] = False
                        continue
                    n_ok += 1
                    pkt, n = r.a[3][0].a[3]
                    k1, k2, k3 = "n <= supplied", "n == frame size", "fields inside the frame"
                    got[k1] = got.get(k1, True) and prove(s, lsub(L, n))
                    good = False
                    for rd in rds:
                        ins = frames.vbi_instances(ps.last, rd, b, s)
                        if ins and all(k == "ok" and prove(s2, lsub(n, E)) and prove(s2, lsub(E, n)) for s2, k, E in ins):
                            good = True
                    got[k2] = got.get(k2, True) and good
                    inside = True
                    for x in frames.data_terms(pkt):
                        if x.k == "sl" and x.a[0] is b:
                            c.count("slices checked")
                            inside = inside and prove(s, lsub(n, ladd(x.a[1], x.a[2])))
                        elif x.k == "elem" and x.a[0] is b:
                            c.count("byte reads checked")
                            inside = inside and prove(s, ladd(lsub(n, x.a[1]), K(-1)))
                        elif x.k == "phi":
                            c.count("merged values checked")
                            inside = inside and prov.clean(x, s, n)
                            for z in outer(x) if not prov.top(x) else ():
                                if z.a[0] in top and any(y.k == "sl" and y.a[0] is b and y.a[1] is K(0) for y in z.a[1]):
                                    continue
                                if not all(prove(s, lsub(n, ladd(y.a[1], y.a[2]))) for y in z.a[1] if y.k == "sl" and y.a[0] is b):
                                    inside = False
                                    opaque.add(z.a[0])
                    got[k3] = got.get(k3, True) and inside
                if opaque - inline and len(inline) < 8:
                    # values merged inside a summarised function: look into it as well
                    work.insert(0, (f, (pk, more), inline | opaque))
                    continue
                npk += n_ok
                old = res.setdefault(f.id, {})
                for k, v in got.items():
                    old[k] = old.get(k, False) or v
    c.count("packet outcomes", npk)
    c.ob("packet outcomes found", npk >= 30, f"{npk} packet outcomes, the rule expects at least 30")
    for f, _ in ds:
        if f.id not in res:
            c.ob(f"{f.id} analysable", False, "the analysis gave up", f.file)
            continue
        for k, v in res[f.id].items():
            c.ob(f"{f.id}: {k}", v, f"must hold whenever {f.id} returns a packet", f"{f.file}:{f.line}")
