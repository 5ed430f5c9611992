"""No byte sequence makes the packet decoders panic."""
import re
import panics, absint
from terms import *

RULE = ("Abstract interpretation of the MIR of every public decoding entry point (functions of the packet layer that take a byte slice, and the incremental "
        "parser's methods) with arbitrary input. Every index, slice, arithmetic-overflow, unwrap, explicit panic, and panicking library call "
        "reachable from them is an obligation that must be proven unreachable.")
THOROUGH_CONFIGS = ("default", "lax")


def is_derived(f):
    return "::_::" in f.id or "arbitrary" in f.id or f.id.endswith("as std::fmt::Debug>::fmt")


def parsers(p):
    """types of the packet layer that own a receive buffer"""
    return [a for a, d in p.adts.items() if a.startswith("flowsdk::mqtt_serde::") and not d["enum"] and any("BytesMut" in t[1] for t in d["vs"][0]["fs"])]


def decode_entries(p):
    own = parsers(p)
    holders = own + [a for a, d in p.adts.items() if a.startswith("flowsdk::mqtt_serde::") and not d["enum"] and any(t[1] in own for t in d["vs"][0]["fs"])]
    out = []
    for f in p.fns.values():
        if f.crate != "flowsdk" or not f.file.startswith("src/mqtt_serde") or is_derived(f) or f.d["dk"] not in ("Fn", "AssocFn"):
            continue
        pub = f.d["vis"] == "Public" or f.id.startswith("<")
        tys = f.locals[1:f.nargs + 1]
        if pub and any(t == "&[u8]" or any(h in t for h in holders) for t in tys):
            out.append(f)
    return out, own


def version_known(p, own):
    """documented precondition of the incremental parser: its protocol version has been set"""
    def paths(ty, pre=()):
        d = p.adts.get(ty.split("<")[0])
        if d is None or d["enum"]:
            return []
        out = []
        for n, t, *_ in d["vs"][0]["fs"]:
            if ty.split("<")[0] in own and t == "u8":
                out.append(pre + ("f:" + n,))
            elif t in own:
                out += paths(t, pre + ("f:" + n,))
        return out

    def prep(fn):
        ty = fn.locals[1]
        if not ty.startswith("&mut ") or fn.nargs != 1 or not re.search("Result<", fn.locals[0]):
            return None
        ps = paths(ty[5:])
        if not ps:
            return None

        def go(I, st, args):
            for q in ps:
                v = absint.read(st, args[0].a[0] + q)
                ranged(v, 0, 255)
                absint.assume(st, eq0(v), False)
        return go
    return prep


def run(c):
    p = c.prog()
    es, own = decode_entries(p)
    if not c.anchor("decoding entry points", es, 60) or not c.anchor("incremental parser type", own):
        return
    c.assume("the incremental parser is asked for packets only after its protocol version is set (it asserts this; every caller in the crate does)")
    c.assume("std::io::Read::read returns n <= buf.len(); allocation succeeds; the stack suffices for non-recursive code")
    # the precondition cannot be undone by bytes: whatever a parser method stores as the version is not the "unknown" value
    n = 0
    for f in es:
        if f.nargs and f.locals[1].startswith("&mut ") and f.locals[1][5:] in own:
            fs = [x[0] for x in p.adts[f.locals[1][5:]]["vs"][0]["fs"] if x[1] == "u8"]
            ps = panics.Pass(p)
            root = []
            try:
                _, outs = ps.run(f, lambda I, st, args: root.append(args[0].a[0]))
            except absint.Limit:
                continue
            for x in fs:
                init = absint.read(absint.St(), root[0] + ("f:" + x,))
                for st, r in outs:
                    v = absint.read(st, root[0] + ("f:" + x,))
                    n += 1
                    e = eq0(v)
                    c.ob(f"{f.id} keeps the version known", v is init or e is FALSE or absint.holds(st, e) is False,
                         f"on return the parser's {x} may have become 0 (was {show(init)}, is {show(v)})", f.file)
    c.count("parser method exits checked for the version", n)
    ps = panics.check(c, es, version_known(p, own))
    c.ob("panic sites found", c.stats["panic sites"] >= 200, f"{c.stats['panic sites']} sites (the rule expects at least 200)")
    for f in es[:10]:
        c.sample({"entry": f.id})
