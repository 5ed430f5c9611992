"""Panic-freedom of a set of entry points, by abstract interpretation."""
import re
import absint
from terms import *

DECODE_INT = re.compile(r"^std::result::Result<\(usize, usize\), ")


class Rec:
    def __init__(self):
        self.sites = {}

    def on_call(self, *a):
        return None

    def on_panic_site(self, I, st, fr, bb, kind, ok, ln):
        k = (fr.fn.id, bb, kind, ln)
        self.sites[k] = self.sites.get(k, True) and ok

    def on_summary(self, I, fn, sites):
        for k, v in sites.items():
            self.sites[k] = self.sites.get(k, True) and v


def int_readers(p):
    """functions that turn bytes into (value, consumed): inlined in the second pass"""
    return {f.id for f in p.fns.values() if f.nargs == 1 and f.locals[1] == "&[u8]" and DECODE_INT.match(f.locals[0])}


class Pass:
    """one analysis variant over many entry points, sharing summaries"""

    def __init__(self, p, summaries=True, never=None):
        self.p, self.summaries, self.never = p, summaries, never
        self.summ = {}
        self.fns = set()
        self.blocks = set()

    def run(self, fn, prep=None, rec=None):
        rec = rec or Rec()
        I = absint.Interp(self.p, rec)
        I.use_summaries = self.summaries
        I.summ = self.summ
        I.never_sum = self.never
        st = args = None
        if prep:
            st = absint.St()
            args = I.root_args(fn, st)
            prep(I, st, args)
        outs = I.analyze(fn, st, args) if prep else I.analyze(fn)
        self.fns |= I.fns_seen
        self.blocks |= I.blocks_seen
        self.last = I
        return rec, outs


def closures_of(p, fns):
    """closure bodies created inside the given functions"""
    out = []
    for fid in fns:
        f = p.fns.get(fid)
        if f is None:
            continue
        for b in f.blocks:
            if b["c"]:
                continue
            for s in b["s"]:
                if s[0] == "=" and s[2]["r"] == "agg" and s[2]["a"] == "closure":
                    g = p.fns.get(s[2]["c"])
                    if g is not None and g.d["dk"] == "Closure":
                        out.append(g)
    return out


def check(c, entries, prep=None, scope="", keep=None):
    """every panic site reachable from the entry points is discharged in at least one sound pass.
    entries: [Fn]; prep(fn) -> callback or None assuming documented preconditions."""
    p = c.prog()
    rd = int_readers(p)
    passes = [Pass(p), Pass(p, True, re.compile("|".join("^" + re.escape(x) + "$" for x in sorted(rd)) or "$^"))]
    seen_fns = set()
    status = {}

    def one(fn, pr):
        rec, _ = passes[0].run(fn, pr)
        res = dict(rec.sites)
        if not all(res.values()):
            rec2, _ = passes[1].run(fn, pr)
            for k in list(res):
                if not res[k] and rec2.sites.get(k, True):
                    # proven in, or unreachable according to, the other sound pass
                    res[k] = True
            c.count("entry points analysed twice")
        for k, v in res.items():
            status.setdefault(k, []).append((fn.id, v))

    for fn in entries:
        try:
            one(fn, prep(fn) if prep else None)
        except absint.Limit as e:
            c.ob(f"{fn.id} analysable", False, f"the analysis gave up: {e}", fn.file)
    # closures handed to library code (iterator adaptors, map_err ...) that were not run in place
    done = set()
    while True:
        todo = [g for g in closures_of(p, passes[0].fns) if g.id not in passes[0].fns and g.id not in done]
        if not todo:
            break
        for g in todo:
            done.add(g.id)
            try:
                one(g, None)
            except absint.Limit as e:
                c.ob(f"{g.id} analysable", False, f"the analysis gave up: {e}", g.file)
    seen_fns = passes[0].fns
    order = {}
    for (fid, bb, kind, ln), rs in sorted(status.items(), key=lambda x: (x[0][0], x[0][2], x[0][1])):
        n = order[(fid, kind)] = order.get((fid, kind), 0) + 1
        f = p.fns[fid]
        if keep and not keep(f):
            continue
        bad = [e for e, v in rs if not v]
        c.ob(f"{fid} {kind} #{n}", not bad, f"this {kind} site must not panic" + (f"; not excluded when entered from {bad[0]}" if bad else ""), f"{f.file}:{ln}")
    c.count("entry points", len(entries))
    c.count("functions analysed", len(seen_fns))
    c.count("panic sites", len(status))
    c.count("closures analysed standalone", len(done))
    return passes
