"""Reconnection: exponential backoff, giving up, and one request per deadline."""
import engine
from engine import possible, self_field, fget, pay, same
from terms import *

RULE = ("Abstract interpretation of scheduling, of the tick while disconnected and of the accepting CONNACK from arbitrary engine states, with durations as integers and the fields never written after construction replaced by what the constructor "
        "computes from the options; every exit is compared with the backoff formula and the attempt limit. Every other function that writes the reconnect state is analysed as well.")
THOROUGH_CONFIGS = ("default",)
MS = 10 ** 6


def run(c):
    p = c.prog()
    R = engine.roles(p)
    if not engine.need(c, R, "options", "connected", "reconnect_at", "attempts", "events"):
        return
    built = engine.assume_built(p)
    f = engine.method(p, "schedule_reconnect")
    g = engine.method(p, "handle_tick")
    if not (c.anchor("scheduling of a reconnect", [f] if f else []) & c.anchor("tick of the engine", [g] if g else [])):
        return
    I, cl, a, st0, outs = engine.run(p, f, prep=built)
    ob = engine.Agg(c, "scheduling", engine.where(f))
    o = lambda n: self_field(st0, a, R["options"], n)
    base, cap, limit = o("reconnect_base_delay_ms"), o("reconnect_max_delay_ms"), o("max_reconnect_attempts")
    n0 = self_field(st0, a, R["attempts"])
    now = a[1]
    grown = mk("mul", *sorted((base, mk("pow2", n0)), key=lambda x: x.id))
    for s, r in outs:
        ob.paths += 1
        b, ev = engine.items(self_field(s, a, R["events"]))
        at, n = self_field(s, a, R["reconnect_at"]), self_field(s, a, R["attempts"])
        d = f"next {show(at)[:120]}, events {[show(x)[:120] for x in ev]}"
        gave_up = not possible(s, ("var", at, "Some"))
        if gave_up:
            ob("giving up happens only at the attempt limit", not possible(s, ("eq", limit, 0)) and not possible(s, ("if", ge0(ladd(lsub(limit, n0), K(-1))), True)), d)
            ob("giving up announces no attempt", not ev, d)
            ob("giving up keeps the attempt count", same(s, n, n0), show(n)[:60])
            continue
        ob("no attempt is scheduled beyond the limit", not possible(s, ("if", ge0(ladd(limit, K(-1))), True), ("if", ge0(lsub(n0, limit)), True)), d)
        ob("the attempt is counted", same(s, n, ladd(n0, K(1))) or not possible(s, ("if", ge0(lsub(K(2 ** 32 - 2), n0)), True)), show(n)[:60])
        t = at.a[3][0] if at.k == "adt" else pay(at, "Some")
        delay = lsub(t, now)
        good = len(ev) == 1 and ev[0].k == "adt" and ev[0].a[1] == "ReconnectScheduled"
        ob("the attempt is announced once", good, d)
        if good:
            ob("the announced attempt number is the count", same(s, fget(ev[0], "attempt"), n), d)
            ob("the announced delay is the one used", same(s, fget(ev[0], "delay"), delay), d)
        lim = lmul(cap, MS)
        ob("the delay never exceeds the maximum", not possible(s, ("if", ge0(ladd(lsub(delay, lim), K(-1))), True)), d)
        for k in range(0, 11):
            # attempt count known: the factor is a number
            want = lmul(base, MS << k)
            cond = [("eq", n0, k)]
            x = s.copy()
            import absint
            if not absint.assume(x, eq0(ladd(n0, K(-k))), True) or engine.refuted(x):
                continue
            dk = _at(delay, n0, k, base)
            for z in (x,):
                z2 = _state_at(z, n0, k, base)
                if z2 is None or engine.refuted(z2):
                    continue
                hi = possible(z2, ("if", ge0(ladd(lsub(dk, want), K(-1))), True))
                lo = possible(z2, ("if", ge0(ladd(lsub(want, dk), K(-1))), True), ("if", ge0(ladd(lsub(lim, dk), K(-1))), True))
                ob(f"attempt {k}: the delay is the base delay times {1 << k}, or the maximum if that is less", not hi and not lo, d)
        big = [("if", ge0(ladd(n0, K(-11))), True)]
        ob("the delay keeps its largest factor afterwards", not possible(s, *big, ("if", ge0(ladd(lsub(lmul(base, MS << 10), delay), K(-1))), True), ("if", ge0(ladd(lsub(lim, delay), K(-1))), True)), d)
    ob.close("giving up happens only at the attempt limit", "the attempt is announced once", *[f"attempt {k}: the delay is the base delay times {1 << k}, or the maximum if that is less" for k in range(11)])

    # the tick while disconnected
    I, cl, a, st0, outs = engine.run(p, g, hooks=[engine.ENC], prep=built)
    ob = engine.Agg(c, "tick while disconnected", engine.where(g))
    conn, at0, now = self_field(st0, a, R["connected"]), self_field(st0, a, R["reconnect_at"]), a[1]
    t0 = pay(at0, "Some")
    for s, r in outs:
        if not possible(s, ("eq", conn, 0)):
            continue
        ob.paths += 1
        b, ev = engine.items(r)
        names = [x.a[1] if x.k == "adt" else "?" for x in ev]
        at = self_field(s, a, R["reconnect_at"])
        d = f"events {names}, next {show(at)[:80]}"
        off = ("eq", conn, 0)
        if "ReconnectNeeded" in names:
            ob("a reconnect is requested only when one is due", not possible(s, off, ("var", at0, "None")) and not possible(s, off, ("var", at0, "Some"), ("if", ge0(ladd(lsub(t0, now), K(-1))), True)), d)
            ob("a due reconnect is requested once", names.count("ReconnectNeeded") == 1 and not possible(s, ("var", at, "Some")), d)
        else:
            ob("a due reconnect is requested", not possible(s, off, ("var", at0, "Some"), ("if", ge0(lsub(now, t0)), True)), d)
            ob("a reconnect that is not due yet stays scheduled", at is at0 or same(s, at, at0), d)
        ob("nothing else is reported", set(names) <= {"ReconnectNeeded"}, d)
        ob("the attempt count is kept", same(s, self_field(s, a, R["attempts"]), self_field(st0, a, R["attempts"])), d)
        ob("the connection is not reported up by the passage of time", not possible(s, off, ("if", self_field(s, a, R["connected"]), True)), d)
    ob.close("a reconnect is requested only when one is due", "a due reconnect is requested once", "a due reconnect is requested", "a reconnect that is not due yet stays scheduled")

    # other writers
    import effects
    h = engine.handler(p)
    h = h[0] if len(h) == 1 else None
    own = {u[0] for n in ("reconnect_at", "attempts") for u in effects.users(p, engine.ENG, R[n], ("write", "mut"))}
    c.anchor("functions writing the reconnect state", own)
    f2, res = engine.handled(p)
    ob = engine.Agg(c, "received packets", engine.where(f2) if f2 else "")
    for v, (I, cl, a, st0, outs, pk) in sorted(res.items()):
        code = None
        if v.startswith("ConnAck"):
            code = fget(pk.a[3][0], "reason_code" if v[-1] == "5" else "return_code")
        for s, r in outs:
            ob.paths += 1
            at, n = self_field(s, a, R["reconnect_at"]), self_field(s, a, R["attempts"])
            same_at = at is self_field(st0, a, R["reconnect_at"]) or same(s, at, self_field(st0, a, R["reconnect_at"]))
            same_n = same(s, n, self_field(st0, a, R["attempts"]))
            if code is not None and possible(s, ("eq", code, 0)):
                ob("an accepting CONNACK resets the backoff", not possible(s, ("eq", code, 0), ("var", at, "Some")) and not possible(s, ("eq", code, 0), ("ne", n, 0)), f"{v}: {show(at)[:60]}, attempts {show(n)[:60]}")
            if code is None or not possible(s, ("eq", code, 0)):
                ob("other packets keep the backoff", same_at and same_n, f"{v}: {show(at)[:60]}, attempts {show(n)[:60]}")
    ob.close("an accepting CONNACK resets the backoff")
    public = 0
    for w in sorted(own, key=lambda x: x.id):
        if w in (f, g, h) or w.id in _reach(p, h, 2):
            continue
        sub = engine.Agg(c, w.id.rsplit("::", 1)[-1], engine.where(w))
        I, cl, a, st0, outs = engine.run(p, w, hooks=[engine.ENC, engine.NOPARSE] + ([engine.stub(h)] if h else []), prep=built)
        for s, r in outs:
            sub.paths += 1
            at, n = self_field(s, a, R["reconnect_at"]), self_field(s, a, R["attempts"])
            sub("elsewhere the attempt count is kept or the whole backoff is reset", same(s, n, self_field(st0, a, R["attempts"])) or not possible(s, ("ne", n, 0)) and not possible(s, ("var", at, "Some")), f"attempts {show(n)[:60]}")
            sub("elsewhere a deadline is only cancelled", at is self_field(st0, a, R["reconnect_at"]) or same(s, at, self_field(st0, a, R["reconnect_at"])) or not possible(s, ("var", at, "Some")), show(at)[:80])
        sub.close()


def _reach(p, f, depth):
    """ids of functions the handler calls: judged as part of it"""
    out, todo = set(), [f] if f else []
    for _ in range(depth):
        nxt = []
        for x in todo:
            for i, t in x.calls():
                q = p.fns.get(t["f"]["f"])
                if q is not None and q.id not in out and q.d.get("vis") != "pub":
                    out.add(q.id)
                    nxt.append(q)
        todo = nxt
    return out


def _pow(x, n0):
    return x.k == "pow2" and x.a[0] is n0


def _at(e, n0, k, base):
    """the expression with the attempt count fixed to k"""
    c, d = lin(e)
    r = K(c)
    for t, v in d.items():
        if t is n0:
            t = K(k)
        elif t.k == "pow2" and t.a[0] is n0:
            t = K(1 << k)
        elif t.k == "mul" and any(_pow(x, n0) for x in t.a):
            y = [x for x in t.a if not _pow(x, n0)]
            t = lmul(y[0], 1 << k) if y else t
        r = ladd(r, lmul(t, v))
    return r


def _state_at(s, n0, k, base):
    import absint
    z = s.copy()
    cons = list(z.cons)
    z.cons = type(z.cons)() if not isinstance(z.cons, dict) else {}
    for x in cons:
        y = _at(x, n0, k, base)
        if y.k == "k":
            if y.a[0] < 0:
                return None
        else:
            z.cons[y] = None
    return z
