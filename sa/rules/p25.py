"""The C interface: pointers, panics and ownership."""
import re
import absint, ffi
from absint import read, len_of
from terms import *

RULE = ("Abstract interpretation of every hand-written extern \"C\" function from arbitrary arguments; each raw pointer enters with an unknown null state, the engines' methods return arbitrary results. "
        "Obligations: a pointer is read, written, turned into a string, slice, box or reference only where it is known not to be null; no reachable panic site is left undischarged; a returned pointer is null or a fresh allocation, given up exactly once, "
        "and nothing else is given up; whatever is returned with a length has it written to the out parameter; each kind of pointer has one release function, which takes it back the way it was made (box of the same type, C string, boxed slice with its length), once, and only if it is not null.")
THOROUGH_CONFIGS = ("default",)


def strip(ty):
    return re.sub(r"^\*(const|mut) ", "", ty)


def unslice(ty):
    m = re.match(r"\[(.*?)(; .*)?\]$", ty)
    return m.group(1) if m else ty


def run(c):
    p = c.prog()
    fs = ffi.externs(p)
    if not c.anchor("C functions", fs):
        return
    made, freed = {}, {}
    structs = {}
    releases = set()
    derefs = calls = sites = 0
    for f in fs:
        n = ffi.name(f)
        cl = Own(p)
        try:
            cl, I, args, outs = ffi.run(p, f, cl)
        except absint.Limit as e:
            c.ob(f"{n}: followed", False, str(e), f.file)
            continue
        derefs += cl.derefs
        calls += cl.calls
        sites += len(cl.sites)
        c.ob(f"{n}: pointers are used only when not null", not cl.bad, "; ".join(sorted(w for _, w in cl.bad)[:3]) or f"{cl.derefs} uses", f.file)
        pan = sorted({(fid, kind, ln) for (fid, bb, kind, ln), good in cl.sites.items() if not good})
        c.ob(f"{n}: cannot panic", not pan, "; ".join(f"{fid.rsplit('::', 1)[1]} line {ln}: {kind}" for fid, kind, ln in pan[:3]) or f"{len(cl.sites)} sites", f.file)
        c.ob(f"{n}: has an outcome", bool(outs), "no outcome", f.file)
        for k, v in cl.structs.items():
            structs.setdefault(k, {}).setdefault("made", set()).add(v)
        ptrs = [a for a in args if a.k == "ptr"]
        rel = any(e[0] == "take" for s, _ in outs for e in s.auto or ())
        if rel:
            releases.add(n)
            release(c, p, f, n, args, outs, freed, structs)
            continue
        wrong, lost, lens = [], [], []
        for s, r in outs:
            if f.locals[0].startswith("*"):
                if r.k == "nullptr":
                    lk = [e for e in ffi.trace(s, "leak")]
                    if lk:
                        lost.append(f"null is returned after {show(lk[0][1])[:80]} was given up")
                    continue
                if r.k != "raw" or r.a[0] == "other":
                    wrong.append(f"{show(r)[:100]} is returned")
                    continue
                mode, v = r.a[0], r.a[1]
                obj = mk("bslice", v) if mode == "slice" else v
                ty = {"box": lambda: v.a[1] if v.k == "boxed" else r.a[2], "cstring": lambda: "i8", "slice": lambda: strip(f.locals[0])}[mode]()
                if ty == "?" or mode == "box" and ty != strip(f.locals[0]):
                    wrong.append(f"a box of {ty} is returned as {f.locals[0]}")
                lk = [e[1] for e in ffi.trace(s, "leak")]
                if lk.count(obj) != 1:
                    wrong.append(f"{show(r)[:100]} is returned, but freed when the function ends")
                own = [e[1] for e in ffi.trace(s, "own")]
                for x in lk:
                    if x is not obj and x not in own:
                        lost.append(f"{show(x)[:100]} is given up but not returned")
                made.setdefault(strip(f.locals[0]), {}).setdefault(mode, set()).add(n)
                if mode == "slice":
                    outp = [a for a in ptrs if "usize" in a.a[2] and a.a[2].startswith("*mut")]
                    if not outp:
                        lens.append("there is nowhere to put the length")
                    for a in outp:
                        if ffi.nonnull(s, a) or possible_nonnull(s, a):
                            w = read(s, (("T", a),))
                            want = len_of(v)
                            if w is not want and not (absint.prove(s, lsub(w, want)) and absint.prove(s, lsub(want, w))):
                                lens.append(f"the length is {show(w)[:80]} instead of {show(want)[:80]}")
            else:
                lk = [e[1] for e in ffi.trace(s, "leak")]
                if lk:
                    lost.append(f"{show(lk[0])[:100]} is given up")
        if f.locals[0].startswith("*"):
            c.ob(f"{n}: returns null or a live allocation of its own", not wrong, "; ".join(sorted(set(wrong))[:2]) or f"{len(outs)} outcomes", f.file)
            c.ob(f"{n}: the length goes with the bytes", not lens, "; ".join(sorted(set(lens))[:2]) or "written", f.file) if any("slice" in m for m in [made.get(strip(f.locals[0]), {})]) else None
        c.ob(f"{n}: gives up nothing else", not lost, "; ".join(sorted(set(lost))[:2]) or "nothing", f.file)
    # every kind of pointer handed out can be given back
    for ty, modes in sorted(made.items()):
        short = ty.rsplit("::", 1)[-1]
        c.ob(f"pointers to {short} are all made the same way", len(modes) == 1, ", ".join(f"{m}: {', '.join(sorted(x))}" for m, x in modes.items()), fs[0].file)
        for m in modes:
            c.ob(f"pointers to {short}: there is a release function", bool(freed.get((ty, m))), f"none takes back a {m} of {short}" if not freed.get((ty, m)) else ", ".join(sorted(freed[(ty, m)])), fs[0].file)
    for (ty, m), who in sorted(freed.items()):
        c.ob(f"release of {ty.rsplit('::', 1)[-1]}: the way it was made", m in made.get(ty, {m: 1}), f"{', '.join(sorted(who))} releases a {m}, but it is made as {', '.join(made.get(ty, {}))}", fs[0].file)
    for (ty, field), d in sorted(structs.items()):
        mk_, fr = d.get("made", set()), d.get("freed", set())
        c.ob(f"pointers in {ty.rsplit('::', 1)[-1]}.{field}: released the way they are made", mk_ == fr and len(mk_) == 1, f"made as {sorted(mk_)}, released as {sorted(fr)}", fs[0].file)
    c.count("functions followed", len(fs))
    c.count("pointer uses", derefs)
    c.count("panic sites", sites)
    c.ob("functions followed", len(fs) >= 50 and derefs >= 50 and len(releases) >= 5, f"{len(fs)} functions, {derefs} pointer uses, {len(releases)} release functions")


def possible_nonnull(s, a):
    n = ffi.null(a)
    return n is not TRUE and not absint.prove(s, ladd(n, K(-1)))


class Own(ffi.Ffi):
    """also: which allocations go into the C structs that are built"""

    def __init__(self, p):
        super().__init__(p)
        self.structs = {}

    def on_agg(self, I, st, fr, r, ops, ln):
        if not fr.fn.file.startswith("flowsdk_ffi"):
            return
        fs = dict(zip(r["fs"], ops))
        if not any(v.k in ("raw", "nullptr") for v in ops):
            return
        for k, v in fs.items():
            if v.k == "raw":
                mode = v.a[0]
                if mode == "slice":
                    n = len_of(v.a[1])
                    ln_ = [g for g, w in fs.items() if w is n]
                    mode = f"slice with its length in {ln_[0]}" if ln_ else "slice without its length"
                    ffi.note(st, "own", mk("bslice", v.a[1]))
                else:
                    ffi.note(st, "own", v.a[1])
                self.structs[(r["adt"], k)] = mode


def release(c, p, f, n, args, outs, freed, structs):
    ptrs = [a for a in args if a.k == "ptr"]
    bad = []
    for s, r in outs:
        tk = ffi.trace(s, "take")
        if ffi.trace(s, "call") or ffi.trace(s, "leak"):
            bad.append("does more than releasing")
        for a in ptrs:
            mine = [e for e in tk if root(e[3]) is a]
            nl = ffi.null(a)
            isnull = absint.prove(s, ladd(nl, K(-1)))
            if isnull and mine:
                bad.append("takes back a null pointer")
            if not isnull and len(mine) != 1:
                bad.append(f"the pointer is taken back {len(mine)} times")
            for e in mine:
                if unslice(e[2]) != strip(a.a[2]):
                    bad.append(f"taken back as {e[2]}")
                if e[1] == "slice" and not (e[3].k == "cbytes" and e[3].a[1] in args):
                    bad.append("taken back with another length")
                freed.setdefault((strip(a.a[2]), e[1]), set()).add(n)
        for e in ffi.trace(s, "each"):
            if root(e[1]) in ptrs:
                x = mk("deref", mk("each", e[1]))
                for fld, isnull in e[2]:
                    mine = [y for y in tk if (y[3].a[0] if y[3].k == "cbytes" else y[3]) is mk("pr", x, "f:" + fld)]
                    if len(mine) != (0 if isnull else 1):
                        bad.append(f"an element's {fld} is released {len(mine)} times{' although it is null' if isnull else ''}")
        last = tk[-1] if tk else None
        for e in tk:
            if root(e[3]) in ptrs:
                if e is not last:
                    bad.append("what the pointer leads to is used after it was released")
                continue
            # a pointer inside an element of what is released
            x = e[3].a[0] if e[3].k == "cbytes" else e[3]
            if x.k != "pr" or x.a[0].k != "deref" or x.a[0].a[0].k != "each" or root(x.a[0].a[0].a[0]) not in ptrs:
                bad.append(f"{show(x)[:80]} is released")
                continue
            fld = str(x.a[1]).split(":")[-1]
            ty = next(strip(a.a[2]) for a in ptrs if a is root(x.a[0].a[0].a[0]))
            mode = e[1]
            if mode == "slice":
                y = e[3].a[1]
                mode = f"slice with its length in {str(y.a[1]).split(':')[-1]}" if y.k == "pr" and y.a[0] is x.a[0] else "slice without its length"
            structs.setdefault((ty, fld), {}).setdefault("freed", set()).add(mode)
    c.ob(f"{n}: releases its argument once, and nothing if it is null", not bad, "; ".join(sorted(set(bad))[:3]) or f"{len(outs)} outcomes", f.file)


def root(t):
    while t.k in ("cbytes", "cast"):
        t = t.a[0]
    return t
