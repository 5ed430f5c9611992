"""Who writes, borrows or builds what: syntactic effects over the MIR of every function."""


def places(fn):
    """(place, kind, line, block): kind in write, mut, shared, read, move"""
    for bi, b in enumerate(fn.blocks):
        if b["c"]:
            continue
        for s in b["s"]:
            if s[0] == "=":
                yield s[1], "write", s[3], bi
                r = s[2]
                if r["r"] == "ref":
                    yield r["p"], "mut" if r["m"] else "shared", s[3], bi
                elif r["r"] == "discr":
                    yield r["p"], "read", s[3], bi
                else:
                    for o in [r.get("o"), r.get("a"), r.get("b")] + list(r.get("ops", ())):
                        if isinstance(o, dict) and o.get("k") in ("cp", "mv"):
                            yield o["p"], "read" if o["k"] == "cp" else "move", s[3], bi
            elif s[0] == "setdiscr":
                yield s[1], "write", s[-1], bi
        t = b["t"]
        if t["t"] == "call":
            yield t["d"], "write", t["ln"], bi
            for o in t["args"]:
                if o.get("k") in ("cp", "mv"):
                    yield o["p"], "read" if o["k"] == "cp" else "move", t["ln"], bi


def has_field(pl, adt, field):
    """index of the projection step of the field, or None"""
    for i, e in enumerate(pl[1:], 1):
        if e[0] == "f" and e[1] == field and e[3] == adt:
            return i
    return None


def index(p):
    """{(adt, field): [(fn, kind, line, rest)]} over all functions"""
    if getattr(p, "_fx", None) is None:
        p._fx = {}
        for f in p.fns.values():
            for pl, k, ln, bi in places(f):
                for i, e in enumerate(pl[1:], 1):
                    if e[0] == "f" and e[3]:
                        p._fx.setdefault((e[3], e[1]), []).append((f, k, ln, pl[i + 1:], any(x[0] == "d" for x in pl[1:i])))
    return p._fx


def users(p, adt, field, kinds=("write", "mut", "move"), shared=False):
    """[(fn, kind, line, rest of the place after the field)]; shared: only through a reference, not in a local value"""
    return [u[:4] for u in index(p).get((adt, field), ()) if u[1] in kinds and (u[4] or not shared)]


def builders(p, adt):
    """functions that build a value of the type field by field"""
    out = []
    for f in p.fns.values():
        for b in f.blocks:
            if b["c"]:
                continue
            for s in b["s"]:
                if s[0] == "=" and s[2]["r"] == "agg" and s[2].get("adt") == adt:
                    out.append((f, s))
    return out


def constant_fields(p, adt):
    """fields of a struct that no function writes or borrows mutably after construction"""
    out = []
    for n, t, *_ in p.adts[adt]["vs"][0]["fs"]:
        if not [1 for u in users(p, adt, n, ("write", "mut"))]:
            out.append(n)
    return out


def callers(p, fid):
    """functions with a direct call of the function: [(fn, line)]"""
    if getattr(p, "_callers", None) is None:
        p._callers = {}
        for f in p.fns.values():
            for b in f.blocks:
                t = b["t"]
                if not b["c"] and t["t"] == "call" and isinstance(t.get("f"), dict) and t["f"].get("f"):
                    p._callers.setdefault(t["f"]["f"], []).append((f, t["ln"]))
    return p._callers.get(fid, [])
