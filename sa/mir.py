"""Loads the fact base and offers basic queries and a pretty printer."""
import json, os, glob, gzip, re


class Fn:
    __slots__ = ("d", "id", "crate", "blocks", "nargs", "locals", "file", "_succ", "names")

    def __init__(self, d, crate):
        self.d = d
        self.id = d["id"]
        self.crate = crate
        self.blocks = d["blocks"]
        self.nargs = d["nargs"]
        self.locals = d["locals"]
        self.file = d["file"]
        self._succ = None
        self.names = {}
        for n, p in d["dbg"]:
            if len(p) == 1:
                self.names.setdefault(p[0], n)

    def __repr__(self):
        return f"<Fn {self.id}>"

    @property
    def line(self):
        return self.d["l0"]

    def calls(self):
        for i, b in enumerate(self.blocks):
            t = b["t"]
            if t["t"] == "call" and t["f"]:
                yield i, t

    def succ(self, i):
        return succs(self.blocks[i]["t"])


def succs(t):
    k = t["t"]
    if k in ("goto", "drop", "assert", "yield"):
        return [t["to"]]
    if k == "switch":
        return [b for _, b in t["vs"]] + [t["else"]]
    if k == "call":
        return [t["to"]] if t["to"] is not None else []
    return []


REEXPORT = re.compile(r"\bflowsdk(::[a-z_0-9]+)*::[A-Z]\w*")


class Prog:
    def __init__(self, fdir):
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.crates = []
        self.alias, self.traits = {}, set()
        for p in sorted(glob.glob(os.path.join(fdir, "*.jsonl"))):
            crate = os.path.basename(p).split(".")[0]
            self.crates.append(crate)
            with open(p, encoding="utf-8") as f:
                for l in f:
                    if crate != "flowsdk":
                        l = REEXPORT.sub(self.canonical, l)
                    d = json.loads(l)
                    if d["kind"] == "fn":
                        fid = d["id"]
                        if fid not in self.fns:
                            self.fns[fid] = Fn(d, crate)
                        else:
                            n = 2
                            while f"{fid}#{n}" in self.fns:
                                n += 1
                            d["id"] = f"{fid}#{n}"
                            self.fns[d["id"]] = Fn(d, crate)
                    elif d["kind"] == "adt":
                        self.adts[d["id"]] = d
                    elif d["kind"] == "reexport":
                        self.alias[d["id"]] = d["to"]
                    else:
                        self.impls.append(d)
        self.discr = {}
        for a, d in self.adts.items():
            if d["enum"]:
                self.discr[a] = {int(v["d"]): v["n"] for v in d["vs"]}

    def canonical(self, m):
        """other crates may name a type by the path of a re-export"""
        n = m.group(0)
        r = self.alias.get(n)
        if r is None:
            r = n
            if n not in self.adts and n not in self.traits:
                parts = n.split("::")
                def sub(a):
                    it = iter(a)
                    return all(x in it for x in parts)
                c = [a for a in self.adts if a.endswith("::" + parts[-1]) and a.startswith("flowsdk::") and sub(a.split("::"))]
                if len(c) == 1:
                    r = c[0]
            self.alias[n] = r
        return r

    def find(self, suffix):
        return [f for k, f in self.fns.items() if k.endswith(suffix)]


def ptplace(p):
    s = f"_{p[0]}"
    for e in p[1:]:
        k = e[0]
        if k == "d":
            s = f"(*{s})"
        elif k == "f":
            s += "." + e[1]
        elif k == "v":
            s = f"({s} as {e[1]})"
        elif k == "i":
            s += f"[_{e[1]}]"
        else:
            s += str(e)
    return s


def ptop(o):
    k = o["k"]
    if k in ("cp", "mv"):
        return ("" if k == "cp" else "move ") + ptplace(o["p"])
    if k == "fn":
        return "fn " + o["fn"]["f"]
    if k == "c":
        if "v" in o:
            return str(o["v"]) + ":" + o["ty"]
        if "s" in o:
            return repr(o["s"])
        return "const " + o.get("prom", o.get("def", "")) + ":" + o["ty"]
    return k


def ptrv(r):
    k = r["r"]
    if k == "use":
        return ptop(r["o"])
    if k == "ref":
        return ("&raw " if r.get("raw") else "&") + ("mut " if r["m"] else "") + ptplace(r["p"])
    if k == "bin":
        return f"{r['op']}({ptop(r['a'])}, {ptop(r['b'])})"
    if k == "un":
        return f"{r['op']}({ptop(r['o'])})"
    if k == "cast":
        return f"{ptop(r['o'])} as {r['ty']} ({r['ck']})"
    if k == "discr":
        return f"discr({ptplace(r['p'])})"
    if k == "agg":
        n = r["a"] if r["a"] != "adt" else r["adt"] + "::" + r["v"]
        if r["a"] == "closure":
            n = r["c"]
        return f"{n}({', '.join(map(ptop, r['ops']))})"
    if k == "repeat":
        return f"[{ptop(r['o'])}; {r['n']}]"
    return str(r)


def show(f):
    print(f"fn {f.id}  [{f.d['phase']}] {f.file}:{f.line} nargs={f.nargs}")
    for i, t in enumerate(f.locals):
        print(f"  let _{i}: {t}  {f.names.get(i, '')}")
    for i, b in enumerate(f.blocks):
        if b["c"]:
            continue
        print(f" bb{i}:")
        for s in b["s"]:
            if s[0] == "=":
                print(f"   {ptplace(s[1])} = {ptrv(s[2])}  // {s[3]}")
            elif s[0] != "dead":
                print("  ", s)
        t = b["t"]
        k = t["t"]
        if k == "call":
            fn = t["f"]["f"] if t["f"] else ptop(t["fo"])
            print(f"   {ptplace(t['d'])} = {fn}({', '.join(map(ptop, t['args']))}) -> bb{t['to']}  // {t['ln']}")
        elif k == "switch":
            print(f"   switch {ptop(t['d'])} {t['vs']} else {t['else']}")
        elif k == "assert":
            print(f"   assert {ptop(t['c'])}=={t['e']} {t['m']} {list(map(ptop, t['ops']))} -> bb{t['to']} // {t['ln']}")
        else:
            print("  ", {k: v for k, v in t.items() if k not in ("t",)}, k)


if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.dirname(__file__))
    import build
    p = Prog(build.facts("all")[0])
    for a in sys.argv[1:]:
        fs = [p.fns[a]] if a in p.fns else p.find(a)
        for f in fs:
            show(f)
