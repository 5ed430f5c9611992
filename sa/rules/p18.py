"""Keep-alive: pings when idle, and a dead connection is detected."""
import engine
from engine import possible, self_field, fget, pay, same
from terms import *

RULE = ("Abstract interpretation of the engine's tick from an arbitrary engine state and time, with durations as integers; every exit is compared with the keep-alive table (idle time, interval, automatic pings, outstanding ping). "
        "Every function that writes the two clocks is analysed for when it may do so.")
THOROUGH_CONFIGS = ("default",)
NS = 10 ** 9


def timers(p, R, st0, a):
    o = lambda n: self_field(st0, a, R["options"], n)
    ka = o("keep_alive")
    mult = o("ping_timeout_multiplier")
    from absint import ranged
    prod = mk("mul", *sorted((ka, mult), key=lambda x: x.id))
    return ka, mult, prod, o("auto_keepalive")


def run(c):
    p = c.prog()
    R = engine.roles(p)
    if not engine.need(c, R, "options", "connected", "ping", "sent", "out", "events", "reconnect_at"):
        return
    f = engine.method(p, "handle_tick")
    if not c.anchor("tick of the engine", [f] if f else []):
        return
    count = lambda st, v, site: engine.ghost(st, "pings", (engine.ghost(st, "pings").a[0] if engine.ghost(st, "pings").k == "k" else 9) + 1) \
        if engine.sent_packet(v).k == "adt" and engine.sent_packet(v).a[1].startswith("PingReq") else None
    built = engine.assume_built(p)

    def prep(I, st, a):
        built(I, st, a)
        engine.ghost(st, "pings", 0)
    I, cl, a, st0, outs = engine.run(p, f, hooks=[engine.ENC, engine.pushes(p, R["out"], count)], prep=prep)
    ob = engine.Agg(c, "tick", engine.where(f))
    now = a[1]
    fld = lambda s, n: self_field(s, a, R[n])
    ka, mult, prod, auto = timers(p, R, st0, a)
    conn, ping, sent = fld(st0, "connected"), fld(st0, "ping"), fld(st0, "sent")
    px = pay(ping, "Some")
    late = [("eq", conn, 1), ("var", ping, "Some"), ("if", ge0(ladd(ka, K(-1))), True), ("if", ge0(lsub(now, px)), True), ("if", ge0(lsub(lsub(now, px), lmul(prod, NS))), True)]
    n_out = lin_len(fld(st0, "out"))
    room = ("if", ge0(ladd(lsub(self_field(st0, a, R["options"], "max_outgoing_packet_count"), n_out), K(-1))), True)
    idle = [("eq", conn, 1), ("eq", auto, 1), ("if", ge0(ladd(ka, K(-1))), True), ("var", ping, "None"), ("if", ge0(lsub(now, sent)), True), ("if", ge0(lsub(lsub(now, sent), lmul(ka, NS))), True)]
    on = ("eq", conn, 1)
    for s, r in outs:
        ob.paths += 1
        base, evs = engine.items(r)
        evs = [x.a[1] if x.k == "adt" else "?" for x in evs]
        pings = engine.ghost(s, "pings")
        np = pings.a[0] if pings.k == "k" else None
        up = fld(s, "connected")
        d = f"events {evs}, pings {np}, connected {show(up)[:40]}"
        ob("the number of pings is known", np is not None, d)
        lost = not possible(s, ("if", up, True))
        if not possible(s, on):
            ob("nothing is sent while disconnected", np == 0, d)
            continue
        if lost and not possible(s, ("eq", conn, 0)):
            for name, cond in (("no ping is outstanding", ("var", ping, "None")), ("keep-alive is off", ("eq", ka, 0))):
                ob(f"the connection is not declared dead when {name}", not possible(s, on, cond), d)
            early = ("if", ge0(ladd(lsub(lmul(prod, NS), lsub(now, px)), K(-1))), True)
            ob("the connection is not declared dead before the ping is overdue", not possible(s, on, ("var", ping, "Some"), ("if", ge0(lsub(now, px)), True), early), d)
            ob("a dead connection asks for a reconnect once", evs.count("ReconnectNeeded") == 1, d)
            ob("a dead connection leaves no ping outstanding", not possible(s, ("var", fld(s, "ping"), "Some")), d)
            at = fld(s, "reconnect_at")
            ob("a dead connection schedules a reconnect unless attempts are exhausted", not possible(s, ("var", at, "None")) and evs.count("ReconnectScheduled") == 1 or not possible(s, ("var", at, "Some")) and "ReconnectScheduled" not in evs, d)
            ob("no ping is sent on a dead connection", np == 0, d)
            continue
        ob("an overdue ping is noticed", not possible(s, *late), d)
        ob("a live connection stays up", not possible(s, on, ("if", up, False)), d)
        ob("a live connection does not ask for a reconnect", "ReconnectNeeded" not in evs, d)
        if np:
            ob("a single ping is sent", np == 1, d)
            ob("no automatic ping when the option is off", not possible(s, ("eq", auto, 0)), d)
            ob("no ping without a keep-alive interval", not possible(s, ("eq", ka, 0)), d)
            ob("no ping while one is outstanding", not possible(s, ("var", ping, "Some")), d)
            ob("no ping before the line has been idle for the interval", not possible(s, ("if", ge0(lsub(now, sent)), True), ("if", ge0(ladd(lsub(lmul(ka, NS), lsub(now, sent)), K(-1))), True)), d)
            pn = fld(s, "ping")
            ob("the ping is remembered with its time", not possible(s, ("var", pn, "None")) and same(s, pay(pn, "Some") if pn.k != "adt" else pn.a[3][0], now), show(pn)[:80])
        else:
            enc = [("var", t, "Ok") for t in s.var if t.k == "enc" and t.a[0].k == "adt" and t.a[0].a[1].startswith("PingReq")]
            ob("an idle line is pinged", not possible(s, *idle, room, *enc), d)
            ob("only pings change what is outstanding", fld(s, "ping") is ping or same(s, fld(s, "ping"), ping), show(fld(s, "ping"))[:80])
    ob.close("the connection is not declared dead when no ping is outstanding", "a single ping is sent", "an idle line is pinged", "a dead connection asks for a reconnect once")

    # answers and the idle clock
    h, res = engine.handled(p)
    if not c.anchor("packet handler of the engine", [h] if h else []):
        return
    ob = engine.Agg(c, "received packets", engine.where(h))
    for v, (I, cl, a, st0, outs, pk) in sorted(res.items()):
        for s, r in outs:
            ob.paths += 1
            x, y = self_field(s, a, R["ping"]), self_field(st0, a, R["ping"])
            if v.startswith("PingResp"):
                ob("a ping response clears the outstanding ping", not possible(s, ("var", x, "Some")), f"{v}: {show(x)[:80]}")
                ev, rs = engine.result_lists(p, r)
                ob("a ping response is reported once", ev is not None and [e.a[1] for e in ev[1] if e.k == "adt"] == ["PingResponse"], f"{v}: {show(r)[:120]}")
            else:
                ob("other packets leave the outstanding ping alone", x is y or same(s, x, y), f"{v}: {show(x)[:80]}")
            ob("received packets do not restart the idle clock", self_field(s, a, R["sent"]) is self_field(st0, a, R["sent"]), v)
    ob.close()

    import effects
    own = {f for n in ("sent", "ping") for f, k, ln, rest in effects.users(p, engine.ENG, R[n], ("write", "mut"))}
    c.anchor("functions writing the two clocks", own)
    for g in sorted(own, key=lambda f: f.id):
        if g in (f, h) or g.id.split("::")[-1].startswith("{"):
            continue
        sub = engine.Agg(c, g.id.rsplit("::", 1)[-1], engine.where(g))

        def bump(st, v, site):
            engine.ghost(st, "n", 1)
            count(st, v, site)

        def prep(I, st, a):
            built(I, st, a)
            engine.ghost(st, "n", 0)
            engine.ghost(st, "pings", 0)
        from absint import Limit
        try:
            I, cl, a, st0, outs = engine.run(p, g, hooks=[engine.ENC, engine.NOPARSE, engine.stub(h), engine.pushes(p, R["out"], bump), engine.pushes(p, R["restream"], bump)], prep=prep, part=lambda I, st: (engine.ghost(st, "n").id,) + engine.by_input(I, st))
        except Limit as e:
            c.ob(f"{g.id} analysable", False, str(e), engine.where(g))
            continue
        for s, r in outs:
            sub.paths += 1
            moved = self_field(s, a, R["sent"]) is not self_field(st0, a, R["sent"])
            n = engine.ghost(s, "n")
            fresh = not possible(s, ("if", self_field(s, a, R["connected"]), True)) and possible(st0, ("if", self_field(st0, a, R["connected"]), True))
            bytes_out = any(x.k in ("encoded",) or x.k == "enc" for x in subterms(r)) or n.k == "k" and n.a[0] == 1 or n.k != "k"
            made = [x for x in subterms(r) if x.k == "phi"] or bytes_out
            x, y = self_field(s, a, R["ping"]), self_field(st0, a, R["ping"])
            pings = engine.ghost(s, "pings")
            if not (x is y or same(s, x, y)):
                sub("what is outstanding changes only by a ping or with the connection", fresh or pings is K(1) and not possible(s, ("var", x, "None")), show(x)[:100])
            if moved:
                sub("the idle clock restarts only when something is sent or the transport is replaced", bool(made) or fresh, f"{show(r)[:100]}")
            if n.k == "k" and n.a[0] == 1:
                sub("sending restarts the idle clock", moved, "sent without restarting the clock")
        sub.close()


def lin_len(t):
    import absint
    return absint.len_of(t)
