"""The number of unacknowledged PUBLISHes never exceeds the receive maximum."""
import engine, effects, absint, re
from engine import possible, self_field, fget, pay, same
from terms import *

RULE = ("Who-may-write analysis of the table of unacknowledged packets, its PUBLISH counter and the limit; abstract interpretation of every method that writes them: the counter changes by exactly the number of quota-using packets "
        "entering minus those leaving the table, a PUBLISH enters only below the limit, and the limit is the server's.")
THOROUGH_CONFIGS = ("default",)
NEXT = re.compile(r"Iterator>?::next$")
USES = ("Publish5", "Publish3", "PubRel5", "PubRel3")
PROP = "flowsdk::mqtt_serde::mqttv5::common::properties::Property"


def run(c):
    p = c.prog()
    R = engine.roles(p)
    if not engine.need(c, R, "inflight", "entries", "quota", "recvmax"):
        return
    Q = engine.fields(p, engine.ENG)[R["inflight"]]
    ety, E = engine.entry_fields(p, R)
    vs = [v["n"] for v in p.adts[engine.PKT]["vs"]]
    if not c.anchor("packet kinds that use the quota", [v for v in USES if v in vs], 4):
        return
    # who writes
    ws = {}
    for role in ("entries", "quota", "recvmax"):
        for f, kind, ln, rest in effects.users(p, Q, R[role], ("write", "mut", "move")):
            if f.id.startswith("<") and "Clone" in f.id:
                continue
            ws.setdefault(f.id, (f, set()))[1].add(role)
            good = f.id.startswith(Q + "::")
            c.ob(f"{role} written only by the table's own methods: {f.id.rsplit('::', 1)[-1]}", good, f"{f.id} writes it", f"{f.file}:{ln}")
    ms = {i: f for i, (f, r) in ws.items() if i.startswith(Q + "::") and "{closure" not in i}
    c.anchor("methods that write the table", ms, 4)
    for i, (f, r) in ws.items():
        if "{closure" in i:
            c.ob(f"no closure writes the table: {i.rsplit('::', 2)[-2]}", False, "not analysed", f"{f.file}:{f.line}")
    # the packet of an entry does not change after insertion
    bad = [(f, ln) for f, k, ln, rest in effects.users(p, ety, E["packet"], ("write", "mut"), True) if not f.id.startswith("<")]
    c.ob("the packet of an entry is never replaced", not bad, f"{bad[0][0].id}" if bad else "no write or mutable borrow of it", f"{bad[0][0].file}:{bad[0][1]}" if bad else "")
    whole = [(f, ln) for f in p.fns.values() for pl, k, ln, b in effects.places(f) if k == "write" and pl[1:] and pl[-1][0] in ("*", "d") and len(pl) == 2 and f.locals[pl[0]] == "&mut " + ety]
    c.ob("an entry is never overwritten in place", not whole, whole[0][0].id if whole else "no write through a reference to an entry", f"{whole[0][0].file}:{whole[0][1]}" if whole else "")
    for i in sorted(ms):
        writer(c, p, R, Q, E, ms[i])
    start(c, p, R, Q)
    announced(c, p, R, Q)
    lost(c, p, R)
    # what is sent is tracked, and so counted
    from rules import p14
    if all(R.get(x) for x in ("options", "connected", "out", "prio", "events")):
        p14.queue(c, p, R, E)
        p14.request(c, p, R, E, "publish_encoded", "Publish", True)


def uses(s, pk):
    """does the packet use the quota on this path: True, False, or None if it may or may not"""
    vs = [v["n"] for v in absint.PROG[0].adts[engine.PKT]["vs"]]
    got = {v in USES for v in vs if possible(s, ("var", pk, v))}
    return got.pop() if len(got) == 1 else None


def writer(c, p, R, Q, E, f):
    short = f.id.rsplit("::", 1)[-1]
    ob = engine.Agg(c, short, engine.where(f))
    get = lambda st, n: engine.read(st, (("G", n),))
    put = lambda st, n, v: engine.write(st, (("G", n),), v)
    Z = K(0)
    ent = "f:" + R["entries"]

    def at_table(a):
        return a.k == "ref" and a.a[0][-1:] == (ent,) and a.a[0][0][0] == "P"

    def insert(I, st, fr, name, args, t, site):
        if not at_table(args[0]):
            return None
        q = engine.read(st, args[0].a[0])
        pk = fget(args[2], E["packet"])
        put(st, "more", K(1) if get(st, "in") is not Z else get(st, "more"))
        put(st, "in", pk)
        n, m = (engine.read(st0_[0], base_[0] + ("f:" + R[x],)) for x in ("quota", "recvmax"))
        if any(possible(st, ("var", pk, v)) for v in ("Publish5", "Publish3")):
            for v in ("Publish5", "Publish3"):
                ob("a PUBLISH is tracked only below the receive maximum", not possible(st, ("var", pk, v), ("if", ge0(lsub(n, m)), True)), "inserted although the limit is reached")
        old = mk("mapget", q, args[1])
        engine.write(st, args[0].a[0], mk("mut", "insert", q, (args[1], args[2]), site))
        s2 = st.copy()
        out = []
        if absint.set_var(st, old, "Some"):
            put(st, "out", fget(pay(old, "Some"), E["packet"]))
            out.append((st, some(pay(old, "Some"))))
        if absint.set_var(s2, old, "None"):
            out.append((s2, NONE))
        return out

    def remove(I, st, fr, name, args, t, site):
        if not at_table(args[0]):
            return None
        q = engine.read(st, args[0].a[0])
        k = I.deref_val(st, args[1])
        old = mk("mapget", q, k)
        engine.write(st, args[0].a[0], mk("mut", "remove", q, (k,), site))
        s2 = st.copy()
        out = []
        if absint.set_var(st, old, "Some"):
            put(st, "more", K(1) if get(st, "out") is not Z else get(st, "more"))
            put(st, "out", fget(pay(old, "Some"), E["packet"]))
            out.append((st, some(pay(old, "Some"))))
        if absint.set_var(s2, old, "None"):
            out.append((s2, NONE))
        return out
    st0_, base_ = [None], [None]

    def prep(I, st, a):
        for n in ("in", "out", "more"):
            put(st, n, Z)
        st0_[0] = st.copy()
        base_[0] = a[0].a[0] if a and a[0].k == "ref" else None
    hooks = [(re.compile(r"HashMap::<K, V.*>::insert$"), insert), (re.compile(r"HashMap::<K, V.*>::remove$"), remove)]
    try:
        with engine.Flow() as fl:
            I, cl, a, st0, outs = engine.run(p, f, hooks=hooks, prep=prep, part=lambda I, st: (get(st, "in").id, get(st, "out").id) + engine.by_input(I, st))
    except absint.Limit as x:
        ob("analysable", False, str(x))
        ob.close()
        return
    if base_[0] is None:
        # a constructor: judged where values are built
        return
    for s, r in outs:
        ob.paths += 1
        F = lambda st, x: self_field(st, a, R[x])
        i, o = get(s, "in"), get(s, "out")
        q0, q1 = F(st0, "quota"), F(s, "quota")
        t0, t1 = F(st0, "entries"), F(s, "entries")
        ob("at most one packet enters and leaves per call", get(s, "more") is Z, "more than one")
        if t1.k == "vnew" and i is Z and o is Z:
            ob("an empty table counts nothing", same(s, q1, K(0)), show(q1)[:80])
            continue
        core, ok = t1, True
        while core.k == "mut" and core.a[0] in ("insert", "remove"):
            core = core.a[1]
        lv = fl.leaves(core)
        ok = all(x is t0 or x.k == "mut" and x.a[0] in ("insert", "remove") for x in lv)
        ob("the table changes only by single insertions and removals", ok or elems_only(core, t0), show(t1)[:100])
        ui = False if i is Z else uses(s, i)
        uo = False if o is Z else uses(s, o)
        ob("the counter follows what enters and leaves the table", ui is not None and uo is not None and same(s, q1, ladd(q0, K(int(ui or 0) - int(uo or 0)))),
           f"counter {show(q1)[:60]} after {'nothing' if i is Z else 'a packet that ' + {True: 'counts', False: 'does not count', None: 'may or may not count'}[ui]} entered and {'nothing' if o is Z else 'one that ' + {True: 'counts', False: 'does not count', None: 'may or may not count'}[uo]} left")
        l0, l1 = F(st0, "recvmax"), F(s, "recvmax")
        if not same(s, l0, l1):
            us = [a[n] for n in range(1, f.nargs) if f.locals[n + 1] == "u16"]
            ob("the limit is set to the value given, never to zero", len(us) == 1 and same(s, l1, us[0]) and not possible(s, ("eq", us[0], 0)), show(l1)[:80])
        elif "recvmax" in [x for x in R if R[x] == R["recvmax"]] and [1 for g, k, ln, rest in effects.users(p, Q, R["recvmax"], ("write",)) if g is f]:
            us = [a[n] for n in range(1, f.nargs) if f.locals[n + 1] == "u16"]
            ob("a limit that is given is taken over", len(us) == 1 and not possible(s, ("if", ge0(ladd(us[0], K(-1))), True)), "ignored")
    ob.close("the counter follows what enters and leaves the table") if not all(F(s, "entries").k == "vnew" for s, r in outs) else ob.close()


def elems_only(t, t0):
    """the table with some entries written in place"""
    return t is t0 or t.k in ("upd", "w") and elems_only(t.a[0], t0) or any(x is t0 for x in subterms(t)) and not any(x.k == "mut" and x.a[0] not in ("insert", "remove") for x in subterms(t))


def start(c, p, R, Q):
    fs = engine.constructor(p, Q)
    if not c.anchor("constructor of the table", fs if len(fs) == 1 else []):
        return
    f = fs[0]
    ob = engine.Agg(c, "construction", engine.where(f))
    I, cl, a, st0, outs = engine.run(p, f)
    us = [a[n] for n in range(f.nargs) if f.locals[n + 1] == "u16"]
    for s, r in outs:
        ob.paths += 1
        ob("starts empty", fget(r, R["entries"]).k == "vnew" or fget(r, R["entries"]).k == "adt" or "new" in show(fget(r, R["entries"])), show(fget(r, R["entries"]))[:60])
        ob("counts nothing", same(s, fget(r, R["quota"]), K(0)), show(fget(r, R["quota"]))[:60])
        m = fget(r, R["recvmax"])
        if possible(s, ("eq", us[0], 0)):
            ob("no limit means 65535", not possible(s, ("eq", us[0], 0), ("ne", m, 65535)), show(m)[:60])
        if possible(s, ("if", ge0(ladd(us[0], K(-1))), True)):
            ob("starts with the given limit", same(s, m, us[0]), show(m)[:60])
    ob.close("starts empty", "counts nothing", "no limit means 65535", "starts with the given limit")


def announced(c, p, R, Q):
    """a limit in a CONNACK reaches the table"""
    h = engine.handler(p)
    up = [f for f, k, ln, rest in effects.users(p, Q, R["recvmax"], ("write",)) if f.id.startswith(Q + "::") and f.nargs > 1]
    up = list({f.id: f for f in up}.values())
    if not (c.anchor("packet handler of the engine", h if len(h) == 1 else []) and c.anchor("method that sets the limit", up if len(up) == 1 else [])):
        return
    h, up = h[0], up[0]
    cs = [f.id for f, ln in effects.callers(p, up.id) if "::tests::" not in f.id and not f.id.startswith(Q)]
    c.ob("only the CONNACK handler sets the limit", bool(cs) and all(x == h.id for x in cs), ", ".join(sorted(set(cs))), engine.where(up))
    i = [k for k in range(h.nargs) if h.locals[k + 1] == engine.PKT][0]
    for v in [x["n"] for x in p.adts[engine.PKT]["vs"]]:
        pk = engine.packet(p, v)
        body = pk.a[3][0]
        ob = engine.Agg(c, v, engine.where(h))
        ups = []
        props = pay(fget(body, "properties"), "Some") if v == "ConnAck5" else None

        LIM = absint.ranged(mk("in", "limit"), 1, 65535)

        def done(st):
            ob("a receive maximum in CONNACK becomes the limit", st.auto != "due", "it is not given to the table")

        def nxt(I, st, fr, name, args, t, site):
            it = I.deref_val(st, args[0])
            if props is not None and any(x is props for x in fl.terms(it)):
                done(st)
                ref = fr.fn.locals[t["d"][0]].startswith("std::option::Option<&")
                I.havoc_arg(st, args[0], site)
                out = []
                for kind, x in (("due", absint.adt(PROP, "ReceiveMaximum", ("0",), (LIM,))), ("other", mk("call", name, (it,), site))):
                    n = st.copy()
                    n.auto = kind if st.auto != "set" or kind == "due" else "set"
                    at = (("G", "itemval", kind),)
                    if ref:
                        engine.write(n, at, x)
                    out.append((n, some(mk("ref", at, 0) if ref else x)))
                end = st
                end.auto = "set" if st.auto == "set" else "end"
                return out + [(end, NONE)]

        def setl(I, st, fr, name, args, t, site):
            ob("the limit given is the one in the property", st.auto != "due" or same(st, args[1], LIM), show(args[1])[:80])
            ups.append((st.copy(), args[1]))
            st.auto = "set"
            return [(st, UNIT)]

        with engine.Flow() as fl:
            I, cl, a, st0, outs = engine.run(p, h, {i: pk}, hooks=[engine.ENC, (re.compile("^" + re.escape(up.id) + "$"), setl), (NEXT, nxt)])
        if v != "ConnAck5":
            ob("only CONNACK sets the limit", not ups, "the limit is set")
            ob.paths += len(outs)
            ob.close()
            continue
        src = fget(body, "properties")
        for s, x in ups:
            ob("the limit comes from the CONNACK's properties", any(y is src or y is LIM for y in fl.terms(x)), show(x)[:80])
        for s, r in outs:
            ob.paths += 1
            done(s)
            if possible(s, ("eq", fget(body, "reason_code"), 0), ("var", src, "Some")):
                if s.auto == "other":
                    ob("the properties are searched until the limit is found", False, "the search ends before all properties were seen")
                elif s.auto is None:
                    # not a loop: the result of a search expression
                    q = [t for t in list(s.var) + list(s.eqs) if t is not src and any(y is src for y in fl.terms(t)) and t.k in ("call", "pure")]
                    ob("the properties are searched", bool(q), "a successful CONNACK is handled without looking at its properties")
        ob.close("the limit given is the one in the property" if any(s.auto for s, r in outs) else "the limit comes from the CONNACK's properties")


def lost(c, p, R):
    """a session the server did not keep: what was unacknowledged in it must not count for ever"""
    f, res = engine.handled(p, ("ConnAck5", "ConnAck3"))
    for v, (I, cl, a, st0, outs, pk) in sorted(res.items()):
        ob = engine.Agg(c, v, engine.where(f))
        body = pk.a[3][0]
        code = [fget(body, n) for n in ("reason_code", "return_code") if n in engine.fields(p, [g for w in p.adts[engine.PKT]["vs"] if w["n"] == v for g in w["fs"]][0][1])][0]
        for s, r in outs:
            ob.paths += 1
            e0, e1 = self_field(st0, a, R["inflight"], R["entries"]), self_field(s, a, R["inflight"], R["entries"])
            if possible(s, ("eq", code, 0), ("eq", fget(body, "session_present"), 0)) and (e1 is e0):
                # nothing is known to be old when no CONNECT was sent through the engine
                unknown = [t for t, k in s.var.items() if k == "None" and t.k == "ld"]
                ob("packets of a session the server did not keep stop counting", bool(unknown), "the entries stay in the table, forgotten by the server and never acknowledged")
            elif e1 is not e0:
                ob("packets of a session the server kept stay", not possible(s, ("eq", fget(body, "session_present"), 1)) and not possible(s, ("ne", code, 0)), "dropped")
        ob.close("packets of a session the server kept stay")
