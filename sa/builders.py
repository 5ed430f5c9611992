"""Option builders: what each setter does to the finished configuration."""
import re
import absint, engine
from absint import read
from terms import *


def find(p):
    """[(builder type, finishing method, finished type)]"""
    out = []
    for f in p.fns.values():
        if f.nargs != 1 or f.d.get("vis") != "Public" or "{closure" in f.id or "::tests::" in f.id:
            continue
        b = re.sub(r"^&(mut )?", "", f.locals[1])
        if b not in p.adts or not f.id.startswith(b + "::") or f.id.rsplit("::", 1)[1] != "build":
            continue
        r = f.locals[0]
        m = re.match(r"std::result::Result<([\w:]+), ", r)
        r = m.group(1) if m else r
        if r in p.adts and r != b:
            out.append((b, f, r))
    return sorted(out, key=lambda x: x[0])


def finish(p, build, b):
    """the configurations a builder value can finish as"""
    I, cl, a, st0, outs = engine.run(p, build, args={0: b} if not build.locals[1].startswith("&") else None, part=lambda I, st: ())
    return [(s, engine.pay(r, "Ok") if r.k == "adt" and r.a[1] == "Ok" else r) for s, r in outs if not (r.k == "adt" and r.a[1] == "Err")]


def methods(p, bty):
    for f in p.fns.values():
        if f.id.startswith(bty + "::") and "{closure" not in f.id and f.d.get("vis") == "Public" and f.nargs >= 2 and re.sub(r"^&(mut )?", "", f.locals[1]) == bty:
            yield f.id.rsplit("::", 1)[1], f


def whole(p, ty):
    """an arbitrary value of a struct, field by field"""
    if ty not in p.adts:
        return None
    fs = list(engine.fields(p, ty))
    short = ty.rsplit("::", 1)[1]
    return adt(ty, short, tuple(fs), tuple(mk("in", "builder", n) for n in fs))


def outcomes(p, f):
    """[(state, builder afterwards)], arguments"""
    bty = f.locals[1]
    b = whole(p, bty)
    I, cl, a, st0, outs = engine.run(p, f, args={0: b} if b is not None else None, part=lambda I, st: ())
    res = []
    for s, r in outs:
        if r.k == "adt" and r.a[1] == "Err" and r.a[0].endswith("::Result"):
            continue
        if r.k == "adt" and r.a[1] == "Ok" and r.a[0].endswith("::Result"):
            r = r.a[3][0]
        for _ in range(3):
            if r.k == "ref":
                r = read(s, r.a[0])
        res.append((s, r))
    return res, a


def fields(p, ty):
    return engine.fields(p, ty)


def changes(p, build, cty, f):
    """fields of the configuration a setter changes: {field: [(state, old, new)]}, arguments; None: not understood"""
    res, a = outcomes(p, f)
    me = a[0] if a[0].k != "ref" else None
    if me is None:
        return None, a
    base = finish(p, build, me)
    if len(base) != 1 or not res:
        return None, a
    out = {}
    for s, r in res:
        new = finish(p, build, r)
        if len(new) != 1:
            return None, a
        for n in fields(p, cty):
            o, v = engine.fget(base[0][1], n), engine.fget(new[0][1], n)
            if o is not v:
                out.setdefault(n, []).append((s, o, v))
    for n in out:
        if len(out[n]) < len(res):
            # some way through leaves the field alone
            out[n].append((res[0][0], None, None))
    return out, a
