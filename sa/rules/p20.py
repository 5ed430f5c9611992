"""A new transport starts clean and keeps the session."""
import engine
from engine import possible, self_field, fget, same
from terms import *

RULE = ("Abstract interpretation of the reset for a new transport, of the loss of a connection and of connecting, from arbitrary engine states; every exit is compared, field by field, with what belongs to the connection and what belongs to the session.")
THOROUGH_CONFIGS = ("default",)


def run(c):
    p = c.prog()
    R = engine.roles(p)
    if not engine.need(c, R, "options", "connected", "reconnect_at", "attempts", "ping", "out", "restream", "parser", "inflight", "prio", "sent", "received"):
        return
    fs = engine.fields(p, engine.ENG)
    built = engine.assume_built(p)
    f = engine.method(p, "reset_for_new_transport")
    if not c.anchor("reset for a new transport", [f] if f else []):
        return
    I, cl, a, st0, outs = engine.run(p, f, prep=built)
    ob = engine.Agg(c, "new transport", engine.where(f))
    kept = [n for n in fs if fs[n] != "std::option::Option<std::time::Instant>" and n not in [R[x] for x in ("connected", "reconnect_at", "ping", "out", "restream", "parser", "sent", "received")]]
    pk = fs[R["parser"]]
    for s, r in outs:
        ob.paths += 1
        v = lambda x: self_field(s, a, R[x])
        ob("not connected", not possible(s, ("if", v("connected"), True)), show(v("connected"))[:60])
        ob("no ping is outstanding", not possible(s, ("var", v("ping"), "Some")), show(v("ping"))[:60])
        ob("no reconnect is pending", not possible(s, ("var", v("reconnect_at"), "Some")), show(v("reconnect_at"))[:60])
        ob("bytes queued for the old connection are dropped", v("out").k == "vnew", show(v("out"))[:80])
        ob("retransmissions queued for old channels are dropped", v("restream").k == "vnew", show(v("restream"))[:80])
        for x in ("sent", "received"):
            ob(f"the {x} clock restarts", v(x) is not self_field(st0, a, R[x]) and any(t.k == "call" and t.a[0].endswith("Instant::now") for t in subterms(v(x))), show(v(x))[:60])
        fresh(p, ob, s, v("parser"), pk, self_field(st0, a, R["options"], "mqtt_version"))
        for n in kept:
            ob(f"'{n}' survives", self_field(s, a, n) is self_field(st0, a, n) or same(s, self_field(s, a, n), self_field(st0, a, n)), show(self_field(s, a, n))[:80])
    ob.close("not connected", f"'{R['inflight']}' survives")

    g = engine.method(p, "handle_connection_lost")
    if c.anchor("loss of a connection", [g] if g else []):
        I, cl, a, st0, outs = engine.run(p, g, prep=built)
        ob = engine.Agg(c, "lost connection", engine.where(g))
        for s, r in outs:
            ob.paths += 1
            ob("not connected", not possible(s, ("if", self_field(s, a, R["connected"]), True)), "still connected")
            ob("no ping is outstanding", not possible(s, ("var", self_field(s, a, R["ping"]), "Some")), show(self_field(s, a, R["ping"]))[:60])
            for x in ("inflight", "prio", "attempts"):
                ob(f"'{R[x]}' survives", self_field(s, a, R[x]) is self_field(st0, a, R[x]) or same(s, self_field(s, a, R[x]), self_field(st0, a, R[x])), show(self_field(s, a, R[x]))[:80])
        ob.close("not connected")

    k = engine.method(p, "connect")
    if c.anchor("start of a connection", [k] if k else []):
        seen, first, ARGS = [], [], []

        def tell(st, v, site):
            seen.append((st.copy(), v))
            first.append((st.copy(), self_field(st, ARGS, R["out"])))
            n = engine.ghost(st, "n")
            engine.ghost(st, "n", n.a[0] + 1 if n.k == "k" else 9)

        def prep(I, st, a):
            built(I, st, a)
            ARGS.extend(a)
            engine.ghost(st, "n", 0)
        I, cl, a, st0, outs = engine.run(p, k, hooks=[engine.ENC, engine.pushes(p, R["out"], tell)], prep=prep, part=lambda I, st: (engine.ghost(st, "n").id,) + engine.by_input(I, st))
        ob = engine.Agg(c, "connecting", engine.where(k))
        conn = self_field(st0, a, R["connected"])
        o = lambda n: self_field(st0, a, R["options"], n)
        room = ("if", ge0(ladd(lsub(o("max_outgoing_packet_count"), _len(self_field(st0, a, R["out"]))), K(-1))), True)
        for s, r in outs:
            ob.paths += 1
            n = engine.ghost(s, "n")
            enc = [("var", t, "Ok") for t in s.var if t.k == "enc"]
            if n is K(0):
                ob("a CONNECT is sent", not possible(s, ("eq", conn, 0), room, *enc), "no CONNECT although not connected")
            else:
                ob("one CONNECT is sent, and only when not connected", n is K(1) and not possible(s, ("eq", conn, 1)), show(n)[:40])
            ob("connecting alone does not make it connected", not possible(s, ("eq", conn, 0), ("if", self_field(s, a, R["connected"]), True)), "")
            for x in ("inflight", "prio", "attempts"):
                ob(f"'{R[x]}' survives", self_field(s, a, R[x]) is self_field(st0, a, R[x]) or same(s, self_field(s, a, R[x]), self_field(st0, a, R[x])), show(self_field(s, a, R[x]))[:80])
            if n is not K(0):
                fresh(p, ob, s, self_field(s, a, R["parser"]), pk, self_field(st0, a, R["options"], "mqtt_version"))
                ob("retransmissions queued for old channels are dropped", self_field(s, a, R["restream"]).k == "vnew", show(self_field(s, a, R["restream"]))[:80])
        for st, out in first:
            ob("nothing queued earlier precedes the CONNECT", out.k == "vnew", show(out)[:80])
        for st, v in seen:
            x = engine.sent_packet(v)
            good = x.k == "adt" and x.a[1].startswith("Connect")
            ob("what is sent is a CONNECT of the configured version", good and not (possible(st, ("eq", o("mqtt_version"), 5)) and x.a[1].endswith("3")) and not (possible(st, ("ne", o("mqtt_version"), 5)) and x.a[1].endswith("5")), show(v)[:80])
            if good:
                packet(p, ob, st, x, o)
        ob.close("one CONNECT is sent, and only when not connected", "a CONNECT is sent", "nothing queued earlier precedes the CONNECT", "no partial packet of the old connection remains", *[f"Connect{v}: the configured {x} is sent" for v in "35" for x in ("client_id", "keep_alive", "clean_start", "username", "password", "will")], *[f"Connect5: the configured {m} is sent" for m in OPTIONAL.values()])


OPTIONAL = {"SessionExpiryInterval": "session_expiry_interval", "MaximumPacketSize": "maximum_packet_size", "RequestResponseInformation": "request_response_information", "RequestProblemInformation": "request_problem_information"}


def fresh(p, ob, s, pa, pk, version):
    """a parser that has seen nothing yet"""
    if pa.k == "adt":
        bufs = [x for n, t, *_ in p.adts[pk]["vs"][0]["fs"] for x in [fget(pa, n)] if t.endswith("BytesMut")]
        ob("no partial packet of the old connection remains", bufs and all(b.k == "vnew" for b in bufs), show(pa)[:120])
        vs = [fget(pa, n) for n, t, *_ in p.adts[pk]["vs"][0]["fs"] if t == "u8"]
        ob("packets are parsed for the configured version", vs and all(same(s, x, version) for x in vs), show(pa)[:120])
    else:
        ob("no partial packet of the old connection remains", False, show(pa)[:120])


def packet(p, ob, st, x, o):
    """the CONNECT against the options"""
    b = x.a[3][0]
    have = b.a[2] if b.k == "adt" else ()
    for want, names in (("client_id", ("client_id",)), ("keep_alive", ("keep_alive",)), ("clean_start", ("clean_start", "clean_session")), ("username", ("username",)), ("password", ("password",))):
        y = [fget(b, m) for m in names if m in have]
        ob(f"{x.a[1]}: the configured {want} is sent", y and (y[0] is o(want) or same(st, y[0], o(want))), show(y[0])[:100] if y else show(b)[:100])
    w, ow = fget(b, "will"), o("will")
    if x.a[1].endswith("5"):
        ob(f"{x.a[1]}: the configured will is sent", w is ow or same(st, w, ow), show(w)[:100])
        base, el = engine.items(fget(b, "properties"))
        for n, m in OPTIONAL.items():
            opt = o(m)
            have = [e for e in el if e.k == "adt" and e.a[1] == n]
            good = base.k == "vnew" and len(have) <= 1
            if possible(st, ("var", opt, "Some")):
                good = good and have and same(st, have[0].a[3][0], engine.pay(opt, "Some"))
            if possible(st, ("var", opt, "None")):
                good = good and not have
            ob(f"{x.a[1]}: the configured {m} is sent", good, show(fget(b, "properties"))[:200])
    else:
        if possible(st, ("var", ow, "None")):
            ob(f"{x.a[1]}: no will is sent unless configured", not possible(st, ("var", ow, "None"), ("var", w, "Some")), show(w)[:100])
        if possible(st, ("var", ow, "Some")):
            v = w.a[3][0] if w.k == "adt" and w.a[1] == "Some" else engine.pay(w, "Some")
            src = engine.pay(ow, "Some")
            good = not possible(st, ("var", ow, "Some"), ("var", w, "None"))
            for a, bb in (("retain", "will_retain"), ("qos", "will_qos"), ("topic", "will_topic"), ("message", "will_message")):
                good = good and same(st, fget(v, a), fget(src, bb))
            ob(f"{x.a[1]}: the configured will is sent", good, show(w)[:200])


def _len(t):
    import absint
    return absint.len_of(t)
