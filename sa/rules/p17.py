"""Retransmission: never on a live MQTT 5 connection, on time and once with MQTT 3.1.1."""
import engine, effects, absint, re
from engine import possible, self_field, fget, pay, same, forget
from rules.p12 import LOSSY
from terms import *

RULE = ("Abstract interpretation of the search for overdue packets with a typestate per iteration (first deadline: none, due, early; its packet: gone, sent again meanwhile, still unacknowledged), of the tick with the overdue packets as an unknown sequence, "
        "and of every function that writes the deadlines.")
THOROUGH_CONFIGS = ("default",)
T, PID, ENT = absint.ranged(mk("in", "deadline"), *INTS["std::time::Instant"]), absint.ranged(mk("in", "deadline id"), 0, 65535), ("G", "entry")
DQ = re.compile(r"VecDeque::<T, A>::(\w+)$")
RANGE = re.compile(r"Iterator for std::ops::Range<A>>::next$")
NEXT = re.compile(r"Iterator>?::next$")


def run(c):
    p = c.prog()
    R = engine.roles(p)
    if not engine.need(c, R, "inflight", "entries", "deadlines", "retry", "out", "connected", "options"):
        return
    q = engine.fields(p, engine.ENG)[R["inflight"]]
    fs = [f for f in engine.methods(p, q) if f.locals[0].startswith("std::vec::Vec<") and engine.PKT in f.locals[0] and "std::time::Instant" in f.locals[1:f.nargs + 1] and f.locals[1].startswith("&mut")
          and [1 for g, *_ in effects.users(p, q, R["deadlines"], ("write", "mut")) if g.id == f.id]]
    ver = [n for n, t in engine.fields(p, q).items() if t == "u8"]
    if not (c.anchor("search for overdue packets", fs if len(fs) == 1 else []) and c.anchor("protocol version of the table", ver if len(ver) == 1 else [])):
        return
    search(c, p, R, q, fs[0], ver[0])
    writers(c, p, R, q, fs[0], ver[0])
    tick(c, p, R, fs[0])
    config(c, p, R, q, ver[0])


def search(c, p, R, q, f, ver):
    ety, E = engine.entry_fields(p, R)
    ob = engine.Agg(c, f.id.rsplit("::", 1)[-1], engine.where(f))
    retry, dq, ents = R["retry"], R["deadlines"], R["entries"]
    PK, CH, ET = mk("in", "entry packet"), mk("in", "entry channel"), absint.ranged(mk("in", "entry time"), *INTS["std::time::Instant"])
    chv = lambda st: engine.read(st, (ENT, "f:" + E["channel"]))
    has = lambda st, *x: all(y in st.auto for y in x)
    box = {}
    names = list(engine.fields(p, ety))

    def entry(st, time):
        vals = {E["id"]: PID, E["packet"]: PK, E["channel"]: CH, E["time"]: time}
        engine.write(st, (ENT,), absint.adt(ety, ety.rsplit("::", 1)[-1], tuple(names), tuple(vals.get(x) or absint.ranged(mk("in", "entry " + x), 0, None) for x in names)))

    def tell(st, *x, drop=()):
        st.auto = tuple(sorted((set(st.auto) - set(drop)) | set(x)))

    def table(a, n):
        return a.k == "ref" and a.a[0][-1:] == ("f:" + n,) and a.a[0][0][0] == "P"

    N = mk("in", "deadlines")

    def counter(t, seen=()):
        """a loop counter from zero in steps of one"""
        if t in seen:
            return True
        return t in fl.src and all(x is K(0) or x is K(1) or counter(x, seen + (t,)) or counter(ladd(x, K(-1)), seen + (t,)) for x in fl.src[t].values())

    def counted(st, full=False):
        """the loop runs over as many deadlines as there were at the start: counter < number of deadlines, or not any more"""
        cs = {K(0)} | {a for x in list(st.cons) + list(st.eqs) for a in dict(lin(x)[1]) if counter(a)}
        return any(absint.prove(st, lsub(x, N) if full else ladd(lsub(N, x), K(-1))) for x in cs)

    def finish(st):
        au = st.auto
        if "early" in au:
            ob("a deadline not yet reached is kept", "popped" not in au or "back" in au, str(au))
        if "due" in au or "own" in au:
            ob("a deadline that has passed is taken off", "popped" in au, str(au))
            ob("the packet of a deadline that has passed is looked up", any(x in au for x in ("gone", "stale", "match")), str(au))
        if "match" in au and "due" in au:
            ob("an unacknowledged packet whose time has come is resent", "resent" in au, str(au))
            ob("the deadline of a resent packet is renewed", "requeued" in au, str(au))
            ob("the time of sending of a resent packet is renewed", same(st, engine.read(st, (ENT, "f:" + E["time"])), box["now"]), show(engine.read(st, (ENT, "f:" + E["time"])))[:80])
            ob("the entry keeps its packet and channel", same(st, engine.read(st, (ENT, "f:" + E["packet"])), PK) and same(st, chv(st), CH), "")
        else:
            ob("nothing else is resent", "resent" not in au or "own" in au, str(au))
            if "stale" in au:
                ob("an entry sent again meanwhile keeps its time", same(st, engine.read(st, (ENT, "f:" + E["time"])), ET), "")
        st.auto = tuple(x for x in au if x in ("ranged", "ever", "done"))

    def look(I, st, pop):
        finish(st)
        if counted(st):
            tell(st, "ranged")
        forget(st, T, PID, mk("in", "deadline id"))
        out = []
        age, r = lsub(box["now"], T), self_field(st, box["a"], retry)
        for k in ("none", "due", "early") + (("own",) if "ever" in st.auto and "ranged" not in st.auto else ()):
            s = st.copy()
            tell(s, k)
            if k == "none":
                out.append((s, NONE))
                continue
            if not absint.assume(s, ge0(age), True):
                continue
            ok = absint.assume(s, ge0(lsub(age, r)), True) if k == "due" else absint.assume(s, ge0(ladd(lsub(r, age), K(-1))), True) if k == "early" else absint.assume(s, eq0(age), True)
            if not ok or engine.refuted(s):
                continue
            v = mk("tup", (PID, T))
            engine.write(s, (("G", "front"),), v)
            if pop:
                tell(s, "popped")
            out.append((s, some(v if pop else mk("ref", (("G", "front"),), 0))))
        return out

    def deque(I, st, fr, name, args, t, site):
        if not args or not table(args[0], dq):
            return None
        n = name.rsplit("::", 1)[-1]
        if n == "front":
            return look(I, st, False)
        if n == "pop_front":
            if any(x in st.auto for x in ("due", "early", "own")) and "popped" not in st.auto:
                tell(st, "popped")
                return [(st, some(mk("tup", (PID, T))))]
            if "none" in st.auto:
                return [(st, NONE)]
            return look(I, st, True)
        if n == "push_front":
            ob("only the deadline just taken is put back", same(st, args[1], mk("tup", (PID, T))) and "early" in st.auto, show(args[1])[:80])
            tell(st, "back")
            return [(st, UNIT)]
        if n == "push_back":
            ok_ = same(st, args[1], mk("tup", (PID, box["now"])))
            ob("a renewed deadline is that of the packet, from now", ok_ and ("match" in st.auto), f"{show(args[1])[:80]} {st.auto}")
            tell(st, "requeued", "ever")
            return [(st, UNIT)]
        if n == "len":
            return [(st, absint.ranged(mk("in", "deadlines"), 0, None))]
        if n == "is_empty":
            return None
        ob("the deadlines are looked at in order", False, n)

    def lookup(I, st, fr, name, args, t, site):
        if not args or not table(args[0], ents):
            return None
        n = name.rsplit("::", 1)[-1]
        if n in ("contains_key", "get", "get_mut"):
            key = I.deref_val(st, args[1])
            if key is not PID:
                ob("the packet looked up is that of the deadline", False, show(key)[:80])
                return None
            out = []
            for k in ("gone", "stale", "match"):
                if any(x in st.auto for x in ("gone", "stale", "match")) and k not in st.auto:
                    continue
                s = st.copy()
                if k not in st.auto:
                    forget(s, ET, PK, CH)
                tell(s, k)
                if k == "gone":
                    out.append((s, K(0) if n == "contains_key" else NONE))
                    continue
                if k not in st.auto:
                    entry(s, T if k == "match" else ET)
                    if k == "stale":  # sent again after that deadline was set
                        absint.assume(s, ge0(ladd(lsub(ET, T), K(-1))), True)
                out.append((s, K(1) if n == "contains_key" else some(mk("ref", (ENT,), 1 if n == "get_mut" else 0))))
            return out
        ob("the search does not add or remove entries", False, n)

    def clone(I, st, fr, name, args, t, site):
        v = I.deref_val(st, args[0])
        return [(st, v)] if v is PK or v is CH else None

    def push(I, st, fr, name, args, t, site):
        v = args[1]
        if v.k == "tup" and len(v.a[0]) == 2:
            ob("what is resent is the unacknowledged packet", same(st, v.a[0][0], PK) and "match" in st.auto, show(v.a[0][0])[:80])
            ob("what is resent goes to the packet's own channel", same(st, v.a[0][1], CH), show(v.a[0][1])[:80])
            ob("a packet is resent at most once in a tick", "resent" not in st.auto and "own" not in st.auto, str(st.auto))
            tell(st, "resent")

    def rng(I, st, fr, name, args, t, site):
        v = engine.read(st, args[0].a[0]) if args[0].k == "ref" else args[0]
        end = fget(v, "end")
        finish(st)
        s2 = st.copy()
        I.havoc_arg(st, args[0], site)
        if end is mk("in", "deadlines"):
            tell(s2, "done")
            tell(st, "ranged")
            at = args[0].a[0]
            engine.write(st, at, absint.adt(v.a[0], v.a[1], v.a[2], (mk("hv", site, at), end))) if v.k == "adt" else None
        return [(st, some(mk("hv", site, "i"))), (s2, NONE)]
    hooks = [(DQ, deque), (re.compile(r"HashMap::<K, V.*>::(\w+)$"), lookup), (re.compile(r"Clone>::clone$"), clone), (re.compile(r"Vec::<T, A>::push$"), push), (RANGE, rng)]
    for five in (False, True):
        def prep(I, st, a):
            box["a"], box["now"] = a, [x for x, t in zip(a[1:], f.locals[2:]) if t == "std::time::Instant"][0]
            absint.assume(st, eq0(ladd(self_field(st, a, ver), K(-5))), five)
            st.auto = ()
            entry(st, ET)
        with engine.Flow() as fl:
            I, cl, a, st0, outs = engine.run(p, f, hooks=hooks, prep=prep)
        for s, r in outs:
            ob.paths += 1
            if five:
                ob("MQTT 5: nothing is retransmitted on a live connection", r.k == "vnew", show(r)[:80])
                ob("MQTT 5: nothing is changed", "ever" not in s.auto and not any(x in s.auto for x in ("popped", "match")), str(s.auto))
                continue
            end = any(x in s.auto for x in ("none", "early", "done")) or counted(s, True)
            ob("the search goes on until a deadline not yet reached", end, str(s.auto))
            finish(s)
            ob("the result is what was collected", r.k != "vnew" or "ever" not in s.auto, f"{show(r)[:80]} {s.auto}")
    ob.close("MQTT 5: nothing is retransmitted on a live connection", "an unacknowledged packet whose time has come is resent", "the deadline of a resent packet is renewed", "the time of sending of a resent packet is renewed",
             "what is resent is the unacknowledged packet", "what is resent goes to the packet's own channel", "a packet is resent at most once in a tick", "the search goes on until a deadline not yet reached", "nothing else is resent")


def writers(c, p, R, q, f, ver):
    ety, E = engine.entry_fields(p, R)
    dq, ents = R["deadlines"], R["entries"]
    fs = {g.id: g for g, *_ in effects.users(p, q, dq, ("write", "mut"))}
    ins = {g.id: g for g, *_ in effects.users(p, q, ents, ("write", "mut"))}
    ob = engine.Agg(c, "other writers", engine.where(f))
    ctor = [g.id for g in engine.constructor(p, q)]
    n = 0
    for i, g in sorted({**fs, **ins}.items()):
        if i == f.id or i in ctor or "::tests::" in i:
            continue
        ob("deadlines and entries are written by methods of the table", i.startswith(q + "::") and "{" not in i, i)
        if not i.startswith(q + "::"):
            continue

        def put(st, key, v, site):
            st.auto = (st.auto or ()) + ((key, v),)
        try:
            I, cl, a, st0, outs = engine.run(p, g, hooks=[engine.inserts(p, R, put)])
        except absint.Limit as e:
            ob("analysable", False, f"{i}: {e}")
            continue
        for s, r in outs:
            ob.paths += 1
            d0, d1, v = self_field(st0, a, dq), self_field(s, a, dq), self_field(st0, a, ver)
            new = s.auto or ()
            b, xs = engine.items(d1)
            if new:
                n += 1
                if possible(s, ("ne", v, 5)):
                    ob("a packet put into the table gets its deadline (MQTT 3.1.1)", b is d0 and [same(s, x, mk("tup", (k, fget(e, E["time"])))) for x, (k, e) in zip(xs, new)] == [True] * len(new) and len(xs) == len(new), f"{i}: {show(d1)[:100]}")
            elif d1 is not d0:
                e1 = self_field(s, a, ents)
                empty = e1.k == "vnew" or e1.k == "cleared" or prove_empty(s, e1)
                ob("deadlines are dropped only with all entries", empty and not xs, f"{i}: {show(e1)[:80]}")
    c.anchor("insertions of unacknowledged packets", range(n))
    # an entry in the table is reached through the table only
    for g, k, ln, rest in effects.users(p, ety, E["time"], ("write", "mut"), shared=True):
        ob("the time of sending is written by the search only", g.id == f.id, g.id)
    ob.close("a packet put into the table gets its deadline (MQTT 3.1.1)", "deadlines and entries are written by methods of the table")


def prove_empty(s, t):
    return not possible(s, ("if", ge0(ladd(absint.len_of(t), K(-1))), True))


def tick(c, p, R, search):
    f = engine.method(p, "handle_tick")
    if not c.anchor("tick of the engine", [f] if f else []):
        return
    st_field = [n for n, t in engine.fields(p, engine.ENG).items() if "(u64, std::vec::Vec<u8>)" in t]
    if not c.anchor("packets to be resent on a channel", st_field if len(st_field) == 1 else []):
        return
    st_field = st_field[0]
    EXP, PK, CH = mk("in", "overdue"), mk("in", "overdue packet"), mk("in", "overdue channel")
    ob = engine.Agg(c, "tick", engine.where(f))

    def find(I, st, fr, name, args, t, site):
        ob("the tick asks once for overdue packets", st.auto is None, str(st.auto))
        ob("overdue is judged at the time of the tick", args[1] is box["now"], show(args[1])[:60])
        st.auto = "asked"
        return [(st, EXP)]

    def settle(st):
        ob("every overdue packet is resent", st.auto != "item", "an overdue packet is not sent")

    def nxt(I, st, fr, name, args, t, site):
        it = I.deref_val(st, args[0])
        ts = fl.terms(it)
        if EXP not in ts:
            return None
        settle(st)
        bad = [x for x in ts if str(x.a[0]).split("::")[-1] in LOSSY and x.k in ("call", "pure", "adapt", "mut", "iter")] + [x for x in ts if x.k in LOSSY]
        ob("the packets resent are all the overdue ones", not bad, [show(x)[:60] for x in bad])
        forget(st, PK, CH)
        end = st.copy()
        end.auto, st.auto = "done", "item"
        return [(st, some(mk("tup", (PK, CH)))), (end, NONE)]

    def enc(I, st, fr, name, args, t, site):
        out = engine._enc(I, st, fr, name, args, t, site)
        for s, v in out:
            if v.a[1] == "Err" and s.auto == "item" and PK in subterms(v):
                s.auto = "failed"
        return out

    def content(st, v):
        x = engine.sent_packet(v)
        ob("what is resent is encoded", v.k == "encoded", show(v)[:80])
        base = x
        paths = []
        while base.k == "upd":
            paths.append(base.a[1][-1])
            base = base.a[0]
        if base is not PK and base.k == "adt":
            # rebuilt variant by variant
            src = [t for t in subterms(base) if t is PK]
            base = PK if src else base
        ob("what is resent is the overdue packet", base is PK, show(v)[:120])
        ob("nothing else of a resent packet changes", set(paths) <= {"f:dup"}, paths)
        for w in ("Publish3", "Publish5"):
            if possible(st, ("var", PK, w)):
                ob("a resent PUBLISH is marked as duplicate", same(st, absint.project(pay(x, w), "f:dup"), K(1)), show(x)[:100])

    def out(st, v, site):
        x = engine.sent_packet(v)
        if PK not in subterms(x):
            return
        ob("an overdue packet is resent once", st.auto == "item", str(st.auto))
        ob("a packet of a channel is not resent on the shared one", not possible(st, ("var", CH, "Some")), "")
        content(st, v)
        st.auto = "sent"

    def chan(I, st, fr, name, args, t, site):
        if args and args[0].k == "ref" and args[0].a[0][-1:] == ("f:" + st_field,):
            v = args[1]
            if v.k != "tup":
                return
            ob("an overdue packet is resent once", st.auto == "item", str(st.auto))
            ob("a packet is resent on its own channel", same(st, v.a[0][0], pay(CH, "Some")) and not possible(st, ("var", CH, "None")), show(v.a[0][0])[:80])
            content(st, v.a[0][1])
            st.auto = "sent"
    box = {}
    built = engine.assume_built(p)

    def prep(I, st, a):
        built(I, st, a)
        box["now"] = a[1]
    with engine.Flow() as fl:
        I, cl, a, st0, outs = engine.run(p, f, hooks=[(re.compile("^" + re.escape(search.id) + "$"), find), (engine.ENC[0], enc), engine.pushes(p, R["out"], out), (engine.PUSH, chan), (NEXT, nxt)], prep=prep)
    conn = self_field(st0, a, R["connected"])
    v5 = self_field(st0, a, R["options"], "mqtt_version")
    for s, r in outs:
        ob.paths += 1
        settle(s)
        up = self_field(s, a, R["connected"])
        if not possible(s, ("eq", conn, 1)):
            ob("nothing is retransmitted while disconnected", s.auto is None, str(s.auto))
        elif possible(s, ("if", up, True)) and possible(s, ("eq", conn, 1)):
            ob("every tick of a live connection resends what is overdue", s.auto == "done" or s.auto is None and not possible(s, ("eq", conn, 1), ("ne", v5, 5)), str(s.auto))
    ob.close("every tick of a live connection resends what is overdue", "nothing is retransmitted while disconnected", "an overdue packet is resent once", "a packet is resent on its own channel", "a packet of a channel is not resent on the shared one", "a resent PUBLISH is marked as duplicate",
             "what is resent is the overdue packet")


def config(c, p, R, q, ver):
    vals = engine.built(p, engine.ENG, {})
    ob = engine.Agg(c, "configuration", engine.where(engine.constructor(p, engine.ENG)[0]) if vals else None)
    for v in vals:
        t, o = fget(v, R["inflight"]), fget(v, R["options"])
        ob("the table knows the engine's protocol version", same(absint.St(), fget(t, ver), fget(o, "mqtt_version")), show(fget(t, ver))[:80])
        ms = fget(o, "retransmission_timeout_ms")
        ob("the table uses the configured timeout", same(absint.St(), fget(t, R["retry"]), lmul(ms, 10 ** 6)), show(fget(t, R["retry"]))[:80])
    for n in (ver, R["retry"]):
        us = [g.id for g, k, ln, rest in effects.users(p, q, n, ("write", "mut"))]
        ob("the table's version and timeout never change", not us, us)
    ob.close("the table knows the engine's protocol version", "the table uses the configured timeout")
