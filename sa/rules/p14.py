"""What is sent and needs an acknowledgement is tracked, and nothing else is."""
import engine, effects, absint, re
from engine import possible, self_field, fget, pay, same
from terms import *

RULE = ("Abstract interpretation of every engine method that sends requests, from arbitrary states; every append to the outgoing packets, every insertion into the table of unacknowledged packets and every removal from the queue of waiting packets is followed "
        "along each path, and the exits are compared: tracked exactly when sent, under the identifier carried by the packet, and neither after an error.")
THOROUGH_CONFIGS = ("default",)
TRACKED = ("Publish", "Subscribe", "Unsubscribe", "PubRel")


def pid_of(p, pk, v):
    return fget(pay(pk, v), engine.pid_field(p, v))


def run(c):
    p = c.prog()
    R = engine.roles(p)
    if not engine.need(c, R, "options", "connected", "out", "inflight", "entries", "prio", "events", "quota", "recvmax"):
        return
    ety, E = engine.entry_fields(p, R)
    if not c.anchor("fields of an unacknowledged entry", [x for x in ("id", "packet", "qos", "channel") if x in E], 4):
        return
    queue(c, p, R, E)
    publish(c, p, R)
    for n, kind, enc in (("subscribe", "Subscribe", False), ("unsubscribe", "Unsubscribe", False), ("subscribe_encoded", "Subscribe", True), ("unsubscribe_encoded", "Unsubscribe", True), ("publish_encoded", "Publish", True)):
        request(c, p, R, E, n, kind, enc)


def is_entry(s, p, R, E, key, ent, pk, pid, chan=None):
    """the entry is for the packet, under the packet's own identifier"""
    f = lambda n: fget(ent, E[n])
    return same(s, key, pid) and same(s, f("id"), pid) and same(s, f("packet"), pk) and (chan is None or same(s, f("channel"), chan))


def queue(c, p, R, E):
    f = engine.mover(p)
    callers = [f] if f else []
    if not c.anchor("function moving waiting packets to the outgoing packets", callers):
        return
    ob = engine.Agg(c, "waiting packets", engine.where(f))
    g = engine.ghost
    ev = {"push": 0, "ins": 0, "take": 0}

    def put(st, name, t):
        engine.write(st, (("G", name),), t)
    get = lambda st, name: engine.read(st, (("G", name),))
    Z = K(0)

    def on_take(st, item, site):
        ev["take"] += 1
        ob("a packet leaves the queue only after the previous one was sent or reported", get(st, "taken") is Z, show(get(st, "taken"))[:100])
        put(st, "taken", item)

    def on_ins(st, key, ent, site):
        ev["ins"] += 1
        ob("one entry per sent packet", get(st, "ins") is Z, "tracked twice")
        engine.write(st, (("G", "ins"),), mk("tup", (key, ent)))
        x = get(st, "taken")
        ob("only packets taken from the queue are tracked", x is not Z and same(st, fget(ent, E["packet"]), x), show(ent)[:120])

    def tell(st, v, site):
        ev["push"] += 1
        x, pk, ins = get(st, "taken"), engine.sent_packet(v), get(st, "ins")
        ob("what is sent is the packet taken from the queue", v.k == "encoded" and (same(st, x, pk) if x is not Z else False), f"{show(pk)[:80]} after taking {show(x)[:80]}")
        for w in ("Publish3", "Publish5"):
            q = fget(pay(pk, w), "qos")
            cond = [("var", pk, w), ("if", ge0(ladd(q, K(-1))), True)]
            if possible(st, *cond):
                if ins.k == "tup":
                    key, ent = ins.a[0]
                    s = st.copy()
                    absint.set_var(s, pk, w)
                    pid = pay(pid_of(p, pk, w), "Some")
                    ob(f"a {w} that needs an acknowledgement is tracked under its identifier when sent", is_entry(s, p, R, E, key, ent, pk, pid, NONE), show(ent)[:200])
                    ob(f"a tracked {w} keeps its QoS", same(s, fget(ent, E["qos"]), q), show(fget(ent, E["qos"]))[:80])
                else:
                    ob(f"a {w} that needs an acknowledgement is tracked under its identifier when sent", False, "sent without an entry")
            if ins is not Z:
                ob(f"a {w} sent with QoS 0 is not tracked", not possible(st, ("var", pk, w), ("eq", q, 0)), "tracked")
        put(st, "taken", Z)
        put(st, "ins", Z)

    def reported(st, v, site):
        ob("a waiting packet that cannot be sent is reported as an error", v.k == "adt" and v.a[1] == "Error" and get(st, "ins") is Z, show(v)[:100])
        put(st, "taken", Z)
    built = engine.assume_built(p)

    def prep(I, st, a):
        built(I, st, a)
        put(st, "taken", Z)
        put(st, "ins", Z)
    I, cl, a, st0, outs = engine.run(p, f, hooks=[engine.ENC, engine.inserts(p, R, on_ins), engine.pushes(p, R["out"], tell), engine.pushes(p, R["events"], reported)] + engine.pq_hooks(p, on_take), prep=prep,
                                     part=lambda I, st: (get(st, "taken") is Z, get(st, "ins") is Z) + engine.by_input(I, st))
    c.anchor("points where waiting packets are sent", ev["push"])
    c.anchor("points where a sent packet is tracked", ev["ins"])
    conn = self_field(st0, a, R["connected"])
    for s, r in outs:
        ob.paths += 1
        ob("a packet taken from the queue is sent or reported", get(s, "taken") is Z, show(get(s, "taken"))[:100])
        ob("a tracked packet has been sent", get(s, "ins") is Z, show(get(s, "ins"))[:100])
        if not possible(s, ("eq", conn, 1)):
            same_ = all(self_field(s, a, R[x]) is self_field(st0, a, R[x]) for x in ("out", "prio", "inflight"))
            ob("nothing waiting is sent before the server accepted the connection", same_, "")
        elif self_field(s, a, R["out"]) is not self_field(st0, a, R["out"]):
            ob("nothing waiting is sent before the server accepted the connection", not possible(s, ("eq", conn, 0)), "")
    ob.close("a Publish3 that needs an acknowledgement is tracked under its identifier when sent", "a Publish5 that needs an acknowledgement is tracked under its identifier when sent", "what is sent is the packet taken from the queue", "nothing waiting is sent before the server accepted the connection")
    c.mover = f


def contents(s, p, pk, kind, cmd):
    """[(what, as asked)] of a request packet against the command"""
    v = pk.a[1]
    b = pk.a[3][0]
    out = []
    if kind == "Publish":
        pairs = [("topic_name", "topic_name"), ("payload", "payload"), ("qos", "qos"), ("retain", "retain"), ("dup", "dup")] + ([("properties", "properties")] if v.endswith("5") else [])
    elif kind == "Subscribe":
        pairs = [("subscriptions", "subscriptions"), ("properties", "properties")] if v.endswith("5") else []
    else:
        pairs = [("topic_filters", "topics")] + ([("properties", "properties")] if v.endswith("5") else [])
    for x, y in pairs:
        z = fget(cmd, y)
        out.append((y, same(s, fget(b, x), z) or fget(b, x) is z))
    return out


def publish(c, p, R):
    f = engine.method(p, "publish")
    if not c.anchor("publish", [f] if f else []):
        return
    ob = engine.Agg(c, "publish", engine.where(f))

    def on_put(st, prio, item, site):
        engine.write(st, (("G", "put"),), mk("tup", (prio, item)) if engine.ghost(st, "put") is K(0) else K(2))

    def on_evict(st, x, site):
        ob("the queue tells which message it gives up", x is not None, "it may give one up without saying so")
        engine.ghost(st, "lost", 1)

    def reported(st, v, site):
        if v.k == "adt" and v.a[1] == "Error":
            engine.ghost(st, "lost", 0)
    built = engine.assume_built(p)

    def prep(I, st, a):
        built(I, st, a)
        engine.ghost(st, "put", 0)
        engine.ghost(st, "lost", 0)
    hooks = [engine.ENC, engine.pushes(p, R["events"], reported)] + engine.pq_hooks(p, None, on_put, on_evict) + ([engine.stub(c.mover)] if getattr(c, "mover", None) else [])
    I, cl, a, st0, outs = engine.run(p, f, hooks=hooks, prep=prep, part=lambda I, st: (engine.ghost(st, "put").id, engine.ghost(st, "lost").id) + engine.by_input(I, st))
    cmd = a[1]
    for s, r in outs:
        ob.paths += 1
        ob("a message the full queue gives up is reported as an error", engine.ghost(s, "lost") is K(0) or r.k == "adt" and r.a[1] == "Err", "dropped silently")
        put = engine.ghost(s, "put")
        if r.k != "adt":
            ob("outcome recognised", False, show(r)[:100])
            continue
        if r.a[1] == "Err":
            ob("a refused publish queues nothing", put is K(0), show(put)[:100])
            continue
        if put.k != "tup":
            ob("an accepted publish is queued once", False, show(put)[:60])
            continue
        ob("an accepted publish is queued once", True)
        prio, pk = put.a[0]
        ob("it is queued with its priority", same(s, prio, fget(cmd, "priority")), show(prio)[:80])
        request_packet(s, p, R, ob, pk, "Publish", cmd, r.a[3][0], st0, a)
    ob.close("the queue tells which message it gives up", "an accepted publish is queued once", "the packet carries the returned identifier", "the payload is sent as asked")


def request_packet(s, p, R, ob, pk, kind, cmd, res, st0, a):
    ver = self_field(st0, a, R["options"], "mqtt_version")
    if pk.k != "adt" or not pk.a[1].startswith(kind):
        ob(f"the packet is a {kind}", False, show(pk)[:100])
        return None
    v = pk.a[1]
    ob("the packet is of the configured version", not possible(s, ("ne", ver, 5)) if v.endswith("5") else not possible(s, ("eq", ver, 5)), v)
    pid = pid_of(p, pk, v)
    if kind == "Publish":
        q = fget(cmd, "qos")
        if possible(s, ("if", ge0(ladd(q, K(-1))), True)):
            got = pay(res, "Some") if res.k != "adt" else res.a[3][0] if res.a[1] == "Some" else None
            x = pay(pid, "Some") if pid.k != "adt" else pid.a[3][0] if pid.a[1] == "Some" else None
            ob("the packet carries the returned identifier", got is not None and x is not None and same(s, got, x), f"{show(res)[:80]} / {show(pid)[:80]}")
        if possible(s, ("eq", q, 0)):
            ob("QoS 0 returns no identifier", not possible(s, ("eq", q, 0), ("var", res, "Some")), show(res)[:80])
        own = fget(cmd, "packet_id")
        if possible(s, ("var", own, "Some"), ("if", ge0(ladd(q, K(-1))), True)):
            ob("an identifier chosen by the caller is used", not possible(s, ("var", own, "Some"), ("var", pid, "None")) and same(s, pay(pid, "Some") if pid.k != "adt" else pid.a[3][0], pay(own, "Some")), show(pid)[:80])
    else:
        ob("the packet carries the returned identifier", same(s, pid, res), f"{show(res)[:80]} / {show(pid)[:80]}")
        own = fget(cmd, "packet_id")
        if possible(s, ("var", own, "Some")):
            ob("an identifier chosen by the caller is used", same(s, pid, pay(own, "Some")), show(pid)[:80])
    for what, good in contents(s, p, pk, kind, cmd):
        ob(f"the {what} is sent as asked", good, show(pk)[:200])
    return pid


def request(c, p, R, E, name, kind, encoded):
    f = engine.method(p, name)
    if not c.anchor(name, [f] if f else []):
        return
    ob = engine.Agg(c, name, engine.where(f))
    Z = K(0)
    get = lambda st, n: engine.read(st, (("G", n),))

    def tell(st, v, site):
        engine.write(st, (("G", "sent"),), v if get(st, "sent") is Z else K(2))

    def on_ins(st, key, ent, site):
        engine.write(st, (("G", "ins"),), mk("tup", (key, ent)) if get(st, "ins") is Z else K(2))
    built = engine.assume_built(p)

    def prep(I, st, a):
        built(I, st, a)
        engine.ghost(st, "sent", 0)
        engine.ghost(st, "ins", 0)
    hooks = [engine.ENC, engine.inserts(p, R, on_ins), engine.pushes(p, R["out"], tell)] + engine.pq_hooks(p) + ([engine.stub(c.mover)] if getattr(c, "mover", None) else [])
    I, cl, a, st0, outs = engine.run(p, f, hooks=hooks, prep=prep, part=lambda I, st: (get(st, "sent").id, get(st, "ins").id) + engine.by_input(I, st))
    cmd = a[1]
    for s, r in outs:
        ob.paths += 1
        sent, ins = get(s, "sent"), get(s, "ins")
        d = f"sent {show(sent)[:60]}, tracked {show(ins)[:60]}"
        if r.k != "adt":
            ob("outcome recognised", False, show(r)[:100])
            continue
        if r.a[1] == "Err":
            ob("a refused request is not tracked", ins is Z and self_field(s, a, R["inflight"], R["entries"]) is self_field(st0, a, R["inflight"], R["entries"]), d)
            ob("a refused request is not sent", sent is Z, d)
            ob("a refused request takes no slot", same(s, self_field(s, a, R["inflight"], R["quota"]), self_field(st0, a, R["inflight"], R["quota"])), d)
            continue
        res = r.a[3][0]
        if encoded:
            res, sent = fget(res, "0"), fget(res, "1")
            ob("the bytes are only returned", get(s, "sent") is Z, d)
        if sent.k != "encoded":
            ob("an accepted request is sent once", False, d)
            continue
        ob("an accepted request is sent once", True)
        pk = sent.a[0]
        pid = request_packet(s, p, R, ob, pk, kind, cmd, res, st0, a)
        if pid is None:
            continue
        if kind == "Publish":
            q = fget(cmd, "qos")
            pos = ("if", ge0(ladd(q, K(-1))), True)
            if ins is not Z:
                ob("a QoS 0 message is not tracked", not possible(s, ("eq", q, 0)), d)
            if not possible(s, pos):
                continue
            pid = pid.a[3][0] if pid.k == "adt" and pid.a[1] == "Some" else pay(pid, "Some")
        chan = a[2] if encoded and len(a) > 2 else NONE
        good = ins.k == "tup" and is_entry(s, p, R, E, ins.a[0][0], ins.a[0][1], pk, pid, chan)
        ob("an accepted request is tracked under its identifier and channel", good, d)
        if kind == "Publish" and ins.k == "tup":
            ob("the tracked message keeps its QoS", same(s, fget(ins.a[0][1], E["qos"]), q), d)
    ob.close("a refused request is not tracked", "an accepted request is tracked under its identifier and channel", "the packet carries the returned identifier")
