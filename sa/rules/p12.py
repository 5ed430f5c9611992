"""The server's answer to CONNECT decides the connection state and what is resent."""
import engine, effects, absint
from engine import possible, self_field, fget, pay, same
from terms import *
import re

RULE = ("Abstract interpretation of the packet handler on every packet variant; on every exit the connection state, the events and the packets queued for resending are compared with what the packet says. "
        "Every iteration of the resend loop is followed; the resent sequence is traced back to the table of unacknowledged packets, and the field it is sorted by is shown to number the entries as they are put in. Every other function that writes the connection state is analysed for what it may set.")
THOROUGH_CONFIGS = ("default",)
NEXT = re.compile(r"Iterator>?::next$")


def run(c):
    p = c.prog()
    R = engine.roles(p)
    if not engine.need(c, R, "options", "connected", "out", "inflight", "entries", "attempts", "reconnect_at", "prio"):
        return
    h = engine.handler(p)
    if not c.anchor("packet handler of the engine", h if len(h) == 1 else []):
        return
    h = h[0]
    built = engine.assume_built(p)
    i = [k for k in range(h.nargs) if h.locals[k + 1] == engine.PKT][0]
    vs = [v["n"] for v in p.adts[engine.PKT]["vs"]]
    ob = engine.Agg(c, "received packets", engine.where(h))
    for v in vs:
        if v.startswith("ConnAck"):
            connack(c, p, R, h, i, v, built)
            continue
        I, cl, a, st0, outs = engine.run(p, h, {i: engine.packet(p, v)}, hooks=[engine.ENC], prep=built)
        for s, r in outs:
            ob.paths += 1
            x, y = (self_field(t, a, R["connected"]) for t in (s, st0))
            if v.startswith("Disconnect5"):
                ob("a disconnect from the server ends the connection", not possible(s, ("if", x, True)), show(x)[:60])
            elif v.startswith("Disconnect"):
                ob("other packets do not connect", not possible(s, ("eq", y, 0), ("if", x, True)), f"{v}: {show(x)[:60]}")
            else:
                ob("other packets leave the connection state alone", x is y or same(s, x, y), f"{v}: {show(x)[:60]}")
            ev, rs = engine.result_lists(p, r)
            names = [e.a[1] for e in (ev[1] if ev else ()) if e.k == "adt"]
            ob("only CONNACK reports a connection", "Connected" not in names, v)
    ob.close("a disconnect from the server ends the connection")
    others(c, p, R, h, built)
    stamp(c, p, R)


def connack(c, p, R, h, i, v, built):
    ob = engine.Agg(c, v, engine.where(h))
    E = None
    bad = []

    def tell(st, val, site):
        engine.ghost(st, "n", 1)
        engine.ghost(st, "it", 1)
        resent.append((st, val, site))

    sp = None

    def nxt(I, st, fr, name, args, t, site):
        if not possible(st, ("eq", sp, 1)):
            return
        it = I.deref_val(st, args[0])
        if any(x.k == "ld" and x.a[1][-1:] == ("f:" + R["entries"],) for x in fl.terms(it)):
            if engine.ghost(st, "it") is not K(1):
                bad.append(site)
            engine.ghost(st, "it", 0)
            engine.ghost(st, "loop", 1)

    def drop(I, st, fr, name, args, t, site):
        if args and possible(st, ("eq", sp, 1)) and any(x.k == "ld" and x.a[1][-1:] == ("f:" + R["entries"],) for x in fl.terms(I.deref_val(st, args[0]))):
            lost.append(name.split("::")[-1])

    def arrange(I, st, fr, name, args, t, site):
        """what the sequence is sorted by"""
        if len(args) < 2:
            sorts.append("its elements")
            return
        s2 = st.copy()
        xs = [mk("in", "entry", n) for n in (1, 2)][:2 if name.endswith("_by") else 1]
        for n, x in enumerate(xs):
            absint.write(s2, (("G", "entry", n),), x)
            absint.write(s2, (("G", "entry ref", n),), mk("ref", (("G", "entry", n),), 0))
        k = p.fns.get(args[1].a[0]) if args[1].k == "clos" else None
        deep = k is not None and k.locals[2].count("&") > 1
        vals = [mk("ref", ((("G", "entry ref", n) if deep else ("G", "entry", n)),), 0) for n in range(len(xs))]
        out = I.invoke(fr, s2, site, args[1], vals, t, 0)
        for s3, r in out:
            sorts.append(key_of(s3, r, xs, names))

    def enc(I, st, fr, name, args, t, site):
        out = engine.ENC[1](I, st, fr, name, args, t, site)
        for s, r in out:
            if r.k == "adt" and r.a[1] == "Err":
                engine.ghost(s, "it", 1)
        return out

    def prep(I, st, a):
        built(I, st, a)
        engine.ghost(st, "n", 0)
        engine.ghost(st, "it", 1)
        engine.ghost(st, "loop", 0)
    resent, lost, sorts = [], [], []
    names = list(engine.fields(p, engine.entry_fields(p, R)[0]))
    g = lambda st, n: engine.ghost(st, n)
    with engine.Flow() as fl:
        pk = engine.packet(p, v)
        sp = fget(pk.a[3][0], "session_present")
        I, cl, a, st0, outs = engine.run(p, h, {i: pk}, hooks=[(engine.ENC[0], enc), (NEXT, nxt), (re.compile("::(" + "|".join(sorted(LOSSY)) + ")$"), drop), (re.compile(r"slice::<impl \[T\]>::sort(_unstable)?(_by(_cached)?(_key)?)?$"), arrange), engine.pushes(p, R["out"], tell)], prep=prep,
                                         part=lambda I, st: (g(st, "n").id, g(st, "it").id, g(st, "loop").id) + engine.by_input(I, st))
    body = pk.a[3][0]
    code = [fget(body, n) for n in ("reason_code", "return_code") if n in engine.fields(p, [f for w in p.adts[engine.PKT]["vs"] if w["n"] == v for f in w["fs"]][0][1])]
    if not c.anchor(f"result code of {v}", code):
        return
    code = code[0]
    opt = lambda st, x: self_field(st, a, R[x])
    src = self_field(st0, a, R["inflight"], R["entries"])
    for s, r in outs:
        ob.paths += 1
        up = opt(s, "connected")
        ob("accepting makes it connected", not possible(s, ("eq", code, 0), ("if", up, False)), show(up)[:80])
        ob("refusing leaves it unconnected", not possible(s, ("ne", code, 0), ("if", up, True)), show(up)[:80])
        ev, rs = engine.result_lists(p, r)
        evs = ev[1] if ev and ev[0].k == "vnew" else None
        if evs is None or len(evs) != 1 or evs[0].k != "adt" or evs[0].a[1] != "Connected" or evs[0].a[3][0].k != "adt":
            ob("the outcome is reported once", False, f"{[show(x)[:60] for x in evs or ()]}")
        else:
            m = evs[0].a[3][0]
            ob("the outcome is reported once", True)
            ob("the server's code is reported", same(s, fget(m, "reason_code"), code), show(m)[:120])
            ob("the session flag is reported", same(s, fget(m, "session_present"), sp), show(m)[:120])
            if v.endswith("5"):
                x, y = fget(m, "properties"), fget(body, "properties")
                ob("the server's properties are reported", same(s, x, y), show(x)[:120])
        ob("nothing is answered", rs is not None and rs[0].k == "vnew" and not rs[1], show(r)[:100])
        n = g(s, "n")
        if n is not K(0):
            ob("nothing is resent unless the server kept the session", not possible(s, ("eq", sp, 0)), "resent without the session")
            ob("nothing is resent when the server refused", not possible(s, ("ne", code, 0)), "resent after a refusal")
        if n is K(0) and g(s, "loop") is K(0) and opt(s, "out") is opt(st0, "out"):
            ob("a kept session resends what is unacknowledged", not possible(s, ("eq", code, 0), ("eq", sp, 1)), "nothing is resent")
        if possible(s, ("ne", code, 0)) or possible(s, ("eq", sp, 1)):
            ob("the unacknowledged packets stay tracked", self_field(s, a, R["inflight"], R["entries"]) is src, show(self_field(s, a, R["inflight"], R["entries"]))[:80])
        ob("requests waiting to be sent are kept", opt(s, "prio") is opt(st0, "prio"), "")
        if not possible(s, ("ne", code, 0)):
            at = opt(s, "attempts")
            ob("a successful connection restarts the back-off", same(s, at, K(0)) and not possible(s, ("var", opt(s, "reconnect_at"), "Some")), show(at)[:60])
        elif not possible(s, ("eq", code, 0)):
            ob("a refusal does not restart the back-off", same(s, opt(s, "attempts"), opt(st0, "attempts")), show(opt(s, "attempts"))[:60])
        if v.endswith("3"):
            ob("the receive maximum is kept", self_field(s, a, R["inflight"], R["recvmax"]) is self_field(st0, a, R["inflight"], R["recvmax"]), "")
    c.sorted_by = getattr(c, "sorted_by", set()) | set(sorts)
    ob("every unacknowledged packet is resent", not bad, f"an iteration of the resend loop sends nothing ({bad[:1]})")
    for st, val, site in resent:
        x = engine.sent_packet(val)
        base = x
        while base.k == "upd":
            base = base.a[0]
        ts = fl.terms(base)
        ob("what is resent comes from the unacknowledged packets", any(t is src for t in ts), show(val)[:160])
        ops = chain(fl, base, src)
        lossy = sorted(set(ops + lost))
        ob("the resent packets are all the unacknowledged ones", not lossy, f"the sequence goes through {lossy}")
        mixed = sorted(set(chain(fl, base, src, ORDER)))
        ob("the unacknowledged packets are resent in the order they were first sent", bool(sorts) and len(set(sorts)) == 1 and not mixed, f"sorted by {sorted(set(sorts)) or 'nothing'}, {mixed}")
        for w in ("Publish3", "Publish5"):
            if possible(st, ("var", base, w)):
                d = absint.project(pay(x, w), "f:dup")
                ob("a resent PUBLISH is marked as duplicate", same(st, d, K(1)), show(d)[:80])
        if x.k == "upd" and x is not base:
            y, paths = x, []
            while y.k == "upd":
                paths.append(y.a[1][-1])
                y = y.a[0]
            ob("nothing else of a resent packet changes", set(paths) <= {"f:dup"}, paths)
    ob.close("the outcome is reported once", "accepting makes it connected", "refusing leaves it unconnected", "a kept session resends what is unacknowledged", "nothing is resent unless the server kept the session", "what is resent comes from the unacknowledged packets")


LOSSY = {"skip", "take", "filter", "skip_while", "take_while", "step_by", "truncate", "pop", "retain", "dedup", "drain", "remove", "split_off", "swap_remove", "map_while", "last", "first", "nth"}


def key_of(st, r, xs, names):
    """the field the entries are put in order by"""
    if len(xs) == 1:
        f = [n for n in names if fget(xs[0], n) is unref(st, r)]
    else:
        vs = [unref(st, v) for v in (r.a[1] if r.k in ("pure", "call") and isinstance(r.a[1], tuple) else ())]
        f = [n for n in names if str(r.a[0]).endswith("::cmp") and vs == [fget(x, n) for x in xs]]
    return f[0] if len(f) == 1 else show(r)[:60]


def unref(st, v):
    for _ in range(4):
        if v.k == "ref":
            v = absint.read(st, v.a[0])
        elif v.k in ("deref", "copyof"):
            v = v.a[0]
    return v


def stamp(c, p, R):
    """the field the resent packets are ordered by says in what order they were first sent"""
    ety, E = engine.entry_fields(p, R)
    q = engine.fields(p, engine.ENG)[R["inflight"]]
    fs = engine.fields(p, ety)
    keys = sorted({k for k in c.sorted_by if k in fs})
    ob = engine.Agg(c, "order of resending", "src/mqtt_client/inflight.rs")
    for f in keys:
        ob("what decides the order is a number", fs[f] in ("u64", "u128"), f"{f}: {fs[f]}")
        if fs[f] not in ("u64", "u128"):
            continue
        late = [g.id for g, k, ln, rest in effects.users(p, ety, f, ("write", "mut"))]
        ob("it is not changed afterwards", not late, ", ".join(late))
        made, counters = [], set()
        for g in effects.builders(p, ety):
            g = g[0] if isinstance(g, tuple) else g
            if g.nargs < 1 or q not in g.locals[1]:
                if "Clone" not in g.id and "clone" not in g.id:
                    ob("only the table numbers its entries", False, g.id)
                continue
            puts = []

            def put(st, key, val, site):
                puts.append((st.copy(), val))
            I, cl, a, st0, outs = engine.run(p, g, hooks=[engine.inserts(p, R, put)])
            me0 = absint.read(st0, a[0].a[0])
            nums = [n for n, t in engine.fields(p, q).items() if t == fs[f]]
            for st, val in puts:
                hit = [n for n in nums if fget(val, f) is fget(me0, n)]
                ob("a new entry is numbered by the counter", len(hit) == 1, show(fget(val, f))[:80])
                counters |= set(hit)
            ob("an entry is put into the table", bool(puts), g.id)
            for s, r in outs:
                ob.paths += 1
                me = absint.read(s, a[0].a[0])
                for n in counters:
                    ob("numbers are not used twice", not (r.k == "adt" and r.a[1] == "Ok") or same(s, fget(me, n), ladd(fget(me0, n), K(1))), show(fget(me, n))[:80])
            made.append(g)
        for n in counters:
            own = {x[0] for x in effects.users(p, q, n, ("write", "mut"))}
            ob("the counter only counts", own <= set(made), ", ".join(sorted(x.id for x in own - set(made))))
    ob("they are put in order by a field of the entry", bool(keys) and c.sorted_by == set(keys), ", ".join(sorted(c.sorted_by)))
    ob.close("what decides the order is a number", "it is not changed afterwards", "a new entry is numbered by the counter", "numbers are not used twice", "the counter only counts")


ORDER = {"rev", "reverse", "swap", "rotate_left", "rotate_right", "shuffle", "sort", "sort_unstable"}


def chain(fl, base, src, of=None):
    """operations of interest the sequence goes through"""
    out = []
    for t in fl.terms(base):
        if t is src:
            continue
        n = None
        if t.k in ("pure", "call", "mut", "iter", "adapt"):
            n = str(t.a[0]).split("::")[-1]
        elif t.k in (of or LOSSY):
            n = t.k
        if n in (of or LOSSY) and any(x is src for x in fl.terms(t)):
            out.append(n)
    return out


def others(c, p, R, h, built):
    own = {f for f, k, ln, rest in effects.users(p, engine.ENG, R["connected"], ("write", "mut"))} - {h}
    c.anchor("functions writing the connection state", own)
    ob = engine.Agg(c, "other functions", engine.where(h))
    for g in sorted(own, key=lambda f: f.id):
        if engine.constructor(p, engine.ENG) == [g]:
            continue
        if "{" in g.id:
            ob("the connection state is written by methods only", False, g.id)
            continue
        try:
            I, cl, a, st0, outs = engine.run(p, g, hooks=[engine.ENC, engine.NOPARSE, engine.stub(h)], prep=built)
        except absint.Limit as e:
            ob("analysable", False, f"{g.id}: {e}")
            continue
        for s, r in outs:
            ob.paths += 1
            x, y = (self_field(t, a, R["connected"]) for t in (s, st0))
            ob("only the handler of received packets connects", not possible(s, ("eq", y, 0), ("if", x, True)), f"{g.id}: {show(x)[:60]}")
    vals = engine.built(p, engine.ENG, {})
    ob("a new engine is not connected", vals and all(fget(v, R["connected"]) is K(0) for v in vals), [show(fget(v, R["connected"])) for v in vals])
    ob.close("only the handler of received packets connects")
