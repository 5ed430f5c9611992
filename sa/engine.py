"""Running the protocol engine's methods symbolically: entry setup and views of the result."""
import re
import absint, frames, panics
from absint import read, write, prove, isnum
from terms import *

ENG = "flowsdk::mqtt_client::engine::MqttEngine"
PKT = "flowsdk::mqtt_serde::control_packet::MqttPacket"
EVT = "flowsdk::mqtt_client::engine::MqttEvent"


class Cl(panics.Rec):
    """records calls of interest as a trace kept in the state (st.auto)"""

    def __init__(self, hooks=None):
        super().__init__()
        self.hooks = hooks or []

    def on_call(self, I, st, fr, name, f, args, t, bb, site):
        for rx, h in self.hooks:
            if rx.search(name) or rx.search(f["o"]):
                r = h(I, st, fr, name, args, t, site)
                if r is not None:
                    return r
        return super().on_call(I, st, fr, name, f, args, t, bb, site) if hasattr(super(), "on_call") else None


def fields(p, adt):
    return {n: t for n, t, *_ in p.adts[adt]["vs"][0]["fs"]}


def methods(p, adt, pub=None):
    return [f for f in p.fns.values() if f.d["dk"] == "AssocFn" and f.id.startswith(adt + "::") and "{" not in f.id and (pub is None or f.d["vis"] == pub)]


def packet(p, variant, tag="in"):
    """a packet of the given variant with arbitrary contents"""
    for v in p.adts[PKT]["vs"]:
        if v["n"] == variant:
            return absint.adt(PKT, variant, tuple(f[0] for f in v["fs"]), tuple(mk("in", tag, variant, f[0]) for f in v["fs"]))
    return None


def by_input(I, st):
    """states that know different things about the input packet or the configuration are kept apart"""
    out = []
    for t, v in list(st.eqs.items()) + list(st.var.items()):
        x, n = t, 0
        while x.k == "pr" and n < 4:
            x = x.a[0]
            n += 1
        if x.k == "in" and n <= 1 or t.k == "ld" and t.a[1] and t.a[1][0] == "f:options":
            out.append((t.id, str(v)))
    return tuple(sorted(out))


def run(p, fn, args=None, hooks=None, prep=None, budget=400000, part=None):
    """exits of fn from an arbitrary state: [(state, result)], and the terms of its arguments"""
    cl = Cl(hooks)
    I = absint.Interp(p, cl)
    I.use_summaries = False
    st = absint.St()
    a = I.root_args(fn, st)
    for i, v in (args or {}).items():
        a[i] = v
    if prep:
        prep(I, st, a)
    st0 = st.copy()
    old = absint.PARTITION[0]
    absint.PARTITION[0] = part or by_input
    try:
        with frames.limits(150, 400, 400):
            outs = I.analyze(fn, st, a)
    finally:
        absint.PARTITION[0] = old
    return I, cl, a, st0, outs


def items(t):
    """contents of a sequence built by pushes: (base term, [elements])"""
    out = []
    while t.k == "vpush":
        out.append(t.a[1])
        t = t.a[0]
    return t, out[::-1]


# ---------------------------------------------------------------- queries on exit states
def refuted(st, cap=1500):
    """the linear facts of the state contradict each other (elimination over the rationals with integer rounding)"""
    import math
    rows, todo, seen = [], list(st.cons), set()

    def norm(c, d):
        d = {a: k for a, k in d.items() if k}
        g = math.gcd(*d.values()) if d else 0
        if g > 1:
            c, d = c // g, {a: k // g for a, k in d.items()}
        return c, d
    for x in todo:
        c, d = lin(x)
        rows.append(norm(*absint._norm(st, c, dict(d))))
    for a in {a for c, d in rows for a in d}:
        if a.lo is not None:
            rows.append((-a.lo, {a: 1}))
        if a.hi is not None:
            rows.append((a.hi, {a: -1}))
    while True:
        uniq = {}
        for c, d in rows:
            if not d:
                if c < 0:
                    return True
                continue
            k = tuple(sorted((a.id, v) for a, v in d.items()))
            if k not in uniq or uniq[k][0] > c:
                uniq[k] = (c, d)
        rows = list(uniq.values())
        if not rows or len(rows) > cap:
            return False
        pos, neg = {}, {}
        for c, d in rows:
            for a, v in d.items():
                t = pos if v > 0 else neg
                t[a] = t.get(a, 0) + 1
        e = min({a for c, d in rows for a in d}, key=lambda a: (pos.get(a, 0) * neg.get(a, 0), a.id))
        P = [(c, d) for c, d in rows if d.get(e, 0) > 0]
        N = [(c, d) for c, d in rows if d.get(e, 0) < 0]
        rows = [(c, d) for c, d in rows if e not in d]
        for c1, d1 in P:
            for c2, d2 in N:
                m, k = -d2[e], d1[e]
                d = {a: v * m for a, v in d1.items()}
                for a, v in d2.items():
                    d[a] = d.get(a, 0) + v * k
                rows.append(norm(c1 * m + c2 * k, d))


def possible(st, *conds):
    """can the state satisfy the conditions?  cond: ("eq", term, value) | ("ne", term, value) | ("var", term, variant) | ("not", term, variant) | ("if", term, bool)"""
    s = st.copy()
    for k, t, v in conds:
        if k == "eq":
            if isinstance(v, int):
                if not absint.assume(s, eq0(ladd(t, K(-v))), True):
                    return False
            elif not absint.assume(s, eq0(lsub(t, v)), True):
                return False
        elif k == "ne":
            if not absint.assume(s, eq0(ladd(t, K(-v))), False):
                return False
        elif k == "var":
            if t.k == "adt":
                if t.a[1] != v:
                    return False
            elif not absint.set_var(s, t, v):
                return False
        elif k == "not":
            if t.k == "adt":
                if t.a[1] == v:
                    return False
            elif not absint.set_var(s, t, v, False):
                return False
        elif k == "if":
            if not absint.assume(s, t, v):
                return False
    return not refuted(s)


def same(st, a, b):
    """the two values are certainly equal in the state"""
    if a is b:
        return True
    if isnum(a) and isnum(b) and prove(st, lsub(a, b)) and prove(st, lsub(b, a)):
        return True
    va, vb = st.eqs.get(a), st.eqs.get(b)
    if b.k == "k" and va == b.a[0] or a.k == "k" and vb == a.a[0]:
        return True
    if a.k == "adt" and b.k == "adt" and a.a[0] == b.a[0] and a.a[1] == b.a[1]:
        return all(same(st, x, y) for x, y in zip(a.a[3], b.a[3]))
    if a.k == "adt" and not a.a[3] and st.var.get(b) == a.a[1] or b.k == "adt" and not b.a[3] and st.var.get(a) == b.a[1]:
        return True
    # a value rebuilt field by field from another one
    for x, y in ((a, b), (b, a)):
        if x.k == "adt" and x.a[3]:
            base = y
            if st.var.get(y) == x.a[1]:
                base = absint.project(y, "v:" + x.a[1])
            elif not x.a[0].endswith("::" + x.a[1]):
                continue
            if all(same(st, z, absint.project(base, "f:" + n)) for z, n in zip(x.a[3], x.a[2])):
                return True
    if a.k == "tup" and b.k == "tup" and len(a.a[0]) == len(b.a[0]):
        return all(same(st, x, y) for x, y in zip(a.a[0], b.a[0]))
    return False


def fget(t, *names):
    for n in names:
        t = absint.project(t, "f:" + n)
    return t


def pay(t, variant, n="0"):
    """payload field of an enum value"""
    return absint.project(absint.project(t, "v:" + variant), "f:" + n)


def pid_field(p, variant):
    """name of the packet identifier field of a packet variant's payload type"""
    ty = [v["fs"][0][1] for v in p.adts[PKT]["vs"] if v["n"] == variant][0]
    for n, t, *_ in p.adts[ty]["vs"][0]["fs"]:
        if n in ("packet_id", "message_id"):
            return n
    return None


def handler(p):
    """the method that handles one decoded packet: takes a packet, returns events and response packets"""
    return [f for f in methods(p, ENG) if PKT in f.locals[1:f.nargs + 1] and EVT in f.locals[0] and PKT in f.locals[0].replace(EVT, "")]


def handled(p, variants=None):
    """{variant: (I, cl, args, st0, exits, input packet)} for the packet handler on every packet variant"""
    h = handler(p)
    if len(h) != 1:
        return None, {}
    f = h[0]
    i = [k for k in range(f.nargs) if f.locals[k + 1] == PKT][0]
    out = {}
    for v in p.adts[PKT]["vs"]:
        if variants and v["n"] not in variants:
            continue
        pk = packet(p, v["n"])
        out[v["n"]] = run(p, f, {i: pk}, hooks=[ENC]) + (pk,)
    return f, out


def result_lists(p, r):
    """(events, responses) of a handler result"""
    parts = r.a[0] if r.k == "tup" else r.a[3] if r.k == "adt" else ()
    ev = rs = None
    for x in parts:
        b, el = items(x)
        if any(e.k == "adt" and e.a[0] == EVT for e in el):
            ev = (b, el)
        elif any(e.k == "adt" and e.a[0] == PKT for e in el):
            rs = (b, el)
    rest = [items(x) for x in parts if items(x) != ev and items(x) != rs]
    if ev is None and rest:
        ev = rest.pop(0)
    if rs is None and rest:
        rs = rest.pop(0)
    return ev, rs


def self_field(s, a, *names):
    """current value of a field of self in a state"""
    return read(s, a[0].a[0] + tuple("f:" + n for n in names))


# encoding a packet: a pure function of the packet, either outcome
def _enc(I, st, fr, name, args, t, site):
    v = I.deref_val(st, args[0])
    e = mk("enc", v)
    s2 = st.copy()
    out = []
    if absint.set_var(st, e, "Ok"):
        out.append((st, ok(mk("encoded", v))))
    if absint.set_var(s2, e, "Err"):
        out.append((s2, err(mk("encerr", v))))
    return out


ENC = (re.compile(r"control_packet::MqttPacket::to_bytes$|control_packet::MqttControlPacket>::to_bytes$"), _enc)


# ---------------------------------------------------------------- what construction establishes for good
def constructor(p, adt):
    """the function that builds values of the type"""
    import effects
    fs = {f.id: f for f, _ in effects.builders(p, adt) if f.locals[0] == adt or f.locals[0].startswith("std::result::Result<" + adt)}
    return list(fs.values())


def built(p, adt, args):
    """the values the only constructor can build from the arguments"""
    fs = constructor(p, adt)
    if len(fs) != 1:
        return []
    I, cl, a, st0, outs = run(p, fs[0], args)
    return [(r.a[3][0] if r.k == "adt" and r.a[1] == "Ok" else r) for s, r in outs if not (r.k == "adt" and r.a[1] == "Err")]


def fixed(p, adt, vals, at=()):
    """[(path, value)] of the fields that keep the value construction gave them"""
    import effects
    out = []
    if not vals or any(v.k != "adt" or v.a[0] != adt for v in vals):
        return out
    const = effects.constant_fields(p, adt)
    for n, t, *_ in p.adts[adt]["vs"][0]["fs"]:
        vs = {fget(v, n) for v in vals}
        if n in const and len(vs) == 1 and not any(x.k in ("call", "cst") for x in subterms(min(vs, key=lambda x: x.id))):
            out.append((at + ("f:" + n,), vs.pop()))
        elif t in p.adts and not p.adts[t]["enum"] and not [1 for u in effects.users(p, adt, n, ("write",)) if not u[3]]:
            out += fixed(p, t, list(vs), at + ("f:" + n,))
    return out


def assume_built(p, adt=ENG, opts="options"):
    """prep callback: fields never written after construction hold what the constructor computes from the options"""
    def prep(I, st, a):
        root = a[0].a[0] if a[0].k == "ref" else None
        if root is None:
            return
        o = read(st, root + ("f:" + opts,))
        for q, v in fixed(p, adt, built(p, adt, {0: o})):
            if q != ("f:" + opts,):
                absint.write(st, root + q, v)
    return prep


# ---------------------------------------------------------------- names of private fields, by what they do
def roles(p):
    """{role: path of field names inside the engine}"""
    got = getattr(p, "_roles", None)
    if got is not None:
        return got
    absint.PROG[0] = p
    R = {}
    fs = fields(p, ENG)
    ms = {f.id.rsplit("::", 1)[-1]: f for f in methods(p, ENG)}

    def changed(f, **kw):
        I, cl, a, st0, outs = run(p, f, hooks=[ENC], **kw)
        return {n for n in fs for s, r in outs if self_field(s, a, n) is not self_field(st0, a, n)}, (a, st0, outs)
    one = lambda xs: (lambda l: l.pop() if len(l) == 1 else None)(set(xs))
    R["options"] = one(n for n, t in fs.items() if t.endswith("::MqttClientOptions"))
    R["inflight"] = one(n for n, t in fs.items() if t.endswith("::InflightQueue"))
    R["events"] = one(n for n, t in fs.items() if t == f"std::vec::Vec<{EVT}>")
    R["out"] = one(n for n, t in fs.items() if t == "std::collections::VecDeque<std::vec::Vec<u8>>")
    R["restream"] = one(n for n, t in fs.items() if re.match(r"std::collections::VecDeque<\(u64, ", t))
    R["parser"] = one(n for n, t in fs.items() if t.endswith("::MqttParser"))
    R["prio"] = one(n for n, t in fs.items() if t.split("<")[0].endswith("::PriorityQueue"))
    if "is_connected" in ms:
        I, cl, a, st0, outs = run(p, ms["is_connected"])
        R["connected"] = one(n for n in fs for s, r in outs if r is self_field(st0, a, n))
    if "schedule_reconnect" in ms:
        ch, _ = changed(ms["schedule_reconnect"])
        R["reconnect_at"] = one(n for n in ch if fs[n] == "std::option::Option<std::time::Instant>")
        R["attempts"] = one(n for n in ch if fs[n] == "u32")
    f, res = handled(p, ("PingResp5",))
    for v, (I, cl, a, st0, outs, pk) in res.items():
        R["ping"] = one(n for n in fs for s, r in outs if fs[n] == "std::option::Option<std::time::Instant>" and self_field(s, a, n) is not self_field(st0, a, n))
    if "enqueue_packet" in ms:
        ch, _ = changed(ms["enqueue_packet"])
        R["sent"] = one(n for n in ch if fs[n] == "std::time::Instant")
    if "ingest_stream_packet" in ms:
        R["received"] = one(n for n, t in fs.items() if t == "std::time::Instant" and n != R.get("sent"))
    q = R.get("inflight") and fs[R["inflight"]]
    if q:
        for n, t in fields(p, q).items():
            if t.startswith("std::collections::HashMap<u16, "):
                R["entries"] = n
            elif t == "usize":
                R["quota"] = n
            elif t == "u16":
                R["recvmax"] = n
            elif t.startswith("std::collections::VecDeque<(u16"):
                R["deadlines"] = n
            elif t == "std::time::Duration":
                R["retry"] = n
            elif t == "u8":
                R["version"] = n
    p._roles = R
    return R


class Flow:
    """where merged values come from; use as a context manager around runs"""

    def __init__(self):
        self.src = {}

    def __enter__(self):
        self.old = absint.PHI_HOOK[0]
        absint.PHI_HOOK[0] = self.hook
        return self

    def __exit__(self, *a):
        absint.PHI_HOOK[0] = self.old

    def hook(self, pairs, st):
        for ph, v in pairs:
            self.src.setdefault(ph, {}).setdefault(v.id, v)

    def leaves(self, t):
        """the values a merged value stands for"""
        seen, out, todo = set(), [], [t]
        while todo:
            x = todo.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x in self.src:
                todo += list(self.src[x].values())
            else:
                out.append(x)
        return out

    def terms(self, t):
        """all terms the value is made of, through merges"""
        seen, todo = {}, [t]
        while todo:
            for x in subterms(todo.pop()):
                if x.id not in seen:
                    seen[x.id] = x
                    todo += list(self.src.get(x, {}).values())
        return list(seen.values())


def ghost(st, name, val=None):
    """a variable of the checker kept in the analysed state, merged at joins like any other"""
    q = (("G", name),)
    if val is not None:
        write(st, q, K(val))
    return read(st, q)


class Agg:
    """one obligation per key, over all paths of a function"""

    def __init__(self, c, name, w):
        self.c, self.name, self.w, self.got = c, name, w, {}
        self.paths = 0

    def __call__(self, k, good, what=""):
        a = self.got.setdefault(k, [True, "", 0])
        a[2] += 1
        if not good and a[0]:
            a[0], a[1] = False, str(what)[:300]
        return good

    def close(self, *want):
        for k in want:
            self.got.setdefault(k, [False, "no path of the function is subject to this obligation", 0])
        for k, (good, what, n) in self.got.items():
            self.c.ob(f"{self.name}: {k}", good, what or f"holds on every path ({n} checked)", self.w)
            self.c.sample({"function": self.name, "obligation": k, "paths": n})
        self.c.count("paths checked", self.paths)
        self.c.count("path obligations", sum(x[2] for x in self.got.values()))


def method(p, name, adt=ENG):
    return p.fns.get(adt + "::" + name)


def mover(p):
    """the engine's method that takes waiting packets out of the priority queue to send them"""
    import effects
    q = [i for i in p.fns if i.endswith("PriorityQueue::<P, T>::dequeue")]
    fs = {f.id: f for i in q for f, ln in effects.callers(p, i) if f.id.startswith(ENG + "::") and f.nargs == 1}
    return list(fs.values())[0] if len(fs) == 1 else None


def where(f):
    return f"{f.file}:{f.line}"


def need(c, R, *names):
    """the private fields a rule is about must have been identified"""
    return all([c.anchor(f"field with the role '{n}'", [R[n]] if R.get(n) else []) for n in names])


PUSH = re.compile(r"(VecDeque::<T, A>::push_back|Vec::<T, A>::push)$")


def pushes(p, field, tell):
    """hook: tell(st, value, site) whenever something is appended to the engine's field"""
    def h(I, st, fr, name, args, t, site):
        if args and args[0].k == "ref" and args[0].a[0][-1:] == ("f:" + field,) and args[0].a[0][0][0] == "P":
            tell(st, args[1], site)
    return (PUSH, h)


def sent_packet(v):
    """the packet whose encoding is sent"""
    return v.a[0] if v.k == "encoded" else v


def stub(f):
    """hook: calls of the function have no effect here; they are judged on their own"""
    return (re.compile("^" + re.escape(f.id) + "$"), lambda I, st, fr, name, args, t, site: [(st, mk("call", name, tuple(I.deref_val(st, x) for x in args[1:]), site))])


# parsing bytes: any result, no effect on the engine itself
NOPARSE = (re.compile(r"::MqttParser::(next_packet|next_parsed|feed|buffer_mut|set_mqtt_version|set_parse_level)$"), lambda I, st, fr, name, args, t, site: [(st, mk("call", name, (), site))])


# ---------------------------------------------------------------- the queue of waiting packets, by its contract (see P23)
def pq_hooks(p, on_take=None, on_put=None, on_evict=None):
    """hooks for peek, dequeue and enqueue of the priority queue"""
    def head(I, st, a):
        q = read(st, a.a[0])
        h = mk("pqhead", q)
        out = []
        for var in ("Some", "None"):
            s = st.copy()
            if absint.set_var(s, h, var):
                out.append((s, var, q, pay(h, "Some")))
        return out

    def peek(I, st, fr, name, args, t, site):
        if args[0].k != "ref":
            return None
        out = []
        for s, var, q, x in head(I, st, args[0]):
            if var == "None":
                out.append((s, NONE))
                continue
            refs = []
            for n in "01":
                at = (("G", "pqhead" + n),)
                write(s, at, fget(x, n))
                refs.append(mk("ref", at, 0))
            out.append((s, some(mk("tup", tuple(refs)))))
        return out

    def take(I, st, fr, name, args, t, site):
        if args[0].k != "ref":
            return None
        out = []
        for s, var, q, x in head(I, st, args[0]):
            if var == "None":
                out.append((s, NONE))
                continue
            write(s, args[0].a[0], mk("mut", "dequeue", q, (), site))
            if on_take:
                on_take(s, fget(x, "1"), site)
            out.append((s, some(mk("tup", (fget(x, "0"), fget(x, "1"))))))
        return out

    def put(I, st, fr, name, args, t, site):
        if args[0].k != "ref":
            return None
        q = read(st, args[0].a[0])
        write(st, args[0].a[0], mk("mut", "enqueue", q, (args[1], args[2]), site))
        if on_put:
            on_put(st, args[1], args[2], site)
        if not fr.fn.locals[t["d"][0]].startswith("std::option::Option<"):
            if on_evict:
                on_evict(st, None, site)
            return [(st, UNIT)]
        # a full queue gives an element up
        s2, x = st.copy(), mk("call", name, (q,), site)
        if on_evict:
            on_evict(s2, x, site)
        return [(st, NONE), (s2, some(x))]
    pre = r"::PriorityQueue::<P, T>::"
    return [(re.compile(pre + "peek$"), peek), (re.compile(pre + "dequeue$"), take), (re.compile(pre + "enqueue$"), put)]


def inserts(p, R, tell):
    """hook: tell(st, key, entry, site) when an entry is put into the table of unacknowledged packets"""
    def h(I, st, fr, name, args, t, site):
        if len(args) > 2 and args[0].k == "ref" and args[0].a[0][-1:] == ("f:" + R["entries"],):
            tell(st, args[1], args[2], site)
    return (re.compile(r"HashMap::<K, V.*>::insert$"), h)


def entry_fields(p, R):
    """role -> field of an unacknowledged entry: id, packet, qos, channel, time"""
    q = fields(p, ENG)[R["inflight"]]
    ety = fields(p, q)[R["entries"]].split("<u16, ", 1)[1].rstrip(">")
    fs = fields(p, ety)
    out = {}
    for n, t in fs.items():
        out[{"u16": "id", PKT: "packet", "u8": "qos", "std::option::Option<u64>": "channel", "std::time::Instant": "time"}.get(t, "_")] = n
    return ety, out


def forget(st, *atoms):
    """drop what the state knows about the terms: they stand for new values from here on"""
    for d in (st.cons, st.eqs, st.nes, st.var):
        for k in [k for k in d if any(x in atoms for x in subterms(k))]:
            del d[k]
