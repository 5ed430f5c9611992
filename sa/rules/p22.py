"""The announced wake-up time is never too late."""
import engine
from engine import possible, self_field, pay, same
from terms import *

RULE = ("Abstract interpretation of the wake-up computation from an arbitrary engine state, with times as integers; on every exit the returned time is compared with each timer the state has enabled: it is at most each of them, equals one of them, and is absent only when none is enabled.")
THOROUGH_CONFIGS = ("default",)
NS = 10 ** 9


def run(c):
    p = c.prog()
    R = engine.roles(p)
    if not engine.need(c, R, "options", "connected", "ping", "sent", "reconnect_at", "inflight", "deadlines", "retry"):
        return
    f = engine.method(p, "next_tick_at")
    if not c.anchor("wake-up time of the engine", [f] if f else []):
        return
    built = engine.assume_built(p)
    I, cl, a, st0, outs = engine.run(p, f, prep=built)
    ob = engine.Agg(c, "wake-up", engine.where(f))
    o = lambda n: self_field(st0, a, R["options"], n)
    ka, mult, auto, ver, retry = o("keep_alive"), o("ping_timeout_multiplier"), o("auto_keepalive"), o("mqtt_version"), o("retransmission_timeout_ms")
    prod = mk("mul", *sorted((ka, mult), key=lambda x: x.id))
    conn, ping, sent, rec = (self_field(st0, a, R[x]) for x in ("connected", "ping", "sent", "reconnect_at"))
    dq = self_field(st0, a, R["inflight"], R["deadlines"])
    for s, r in outs:
        ob.paths += 1
        front = [t for t in s.var if t.k in ("pure", "call") and dq in [x for y in t.a if isinstance(y, tuple) for x in y]]
        some = ("if", ge0(ladd(ka, K(-1))), True)
        timers = [("reconnect", [("eq", conn, 0), ("var", rec, "Some")], pay(rec, "Some")),
                  ("ping timeout", [("eq", conn, 1), some, ("var", ping, "Some")], ladd(pay(ping, "Some"), lmul(prod, NS))),
                  ("keep-alive", [("eq", conn, 1), some, ("eq", auto, 1), ("var", ping, "None")], ladd(sent, lmul(ka, NS)))]
        if front:
            import absint
            due = ladd(absint.project(absint.deref_term(pay(front[0], "Some")), "f:1"), lmul(retry, 10 ** 6))
            timers.append(("retransmission", [("eq", conn, 1), ("ne", ver, 5), ("var", front[0], "Some")], due))
        else:
            ob("the retransmission deadline is considered", not possible(s, ("eq", conn, 1), ("ne", ver, 5)), "the deadlines are not looked at")
        ref = [pay(rec, "Some")]
        for name, cond, t in timers:
            if not possible(s, *cond):
                continue
            if possible(s, *cond, ("var", r, "None")):
                ob(f"a wake-up is announced for the {name} timer", False, f"none announced, {show(t)[:80]}")
                continue
            v = r.a[3][0] if r.k == "adt" else pay(r, "Some")
            ob(f"a wake-up is announced for the {name} timer", True)
            ob(f"the wake-up is not later than the {name} timer", not possible(s, *cond, ("if", ge0(ladd(lsub(v, t), K(-1))), True)), f"{show(v)[:100]} against {show(t)[:80]}")
        if possible(s, ("var", r, "Some")):
            v = r.a[3][0] if r.k == "adt" else pay(r, "Some")
            ob("the wake-up is the time of an enabled timer", any(same(s, v, t) and _implied(s, [("var", r, "Some")], cond) for name, cond, t in timers), show(v)[:120])
    ob.close(*[f"the wake-up is not later than the {x} timer" for x in ("reconnect", "ping timeout", "keep-alive", "retransmission")])


def _flip(x):
    k, t, v = x
    return {"eq": lambda: ("ne", t, v), "ne": lambda: ("eq", t, v), "var": lambda: ("not", t, v), "if": lambda: ("if", t, not v)}[k]()


def _implied(s, given, cond):
    return all(not possible(s, *given, _flip(x)) for x in cond)
