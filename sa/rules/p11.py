"""Acknowledgements complete exactly the request they name."""
import engine
from engine import possible, same, fget, pay
from terms import *

RULE = ("Abstract interpretation of the engine's packet handler on every acknowledgement variant with arbitrary contents and engine state; on every exit the change to the table of unacknowledged packets, the events and the responses "
        "are compared with what the acknowledgement must do to the entry registered under its identifier.")
THOROUGH_CONFIGS = ("default",)


def table(p):
    """path of the id -> unacknowledged packet map inside the engine"""
    for n, t in engine.fields(p, engine.ENG).items():
        if t in p.adts and not p.adts[t]["enum"]:
            for m, u, *_ in p.adts[t]["vs"][0]["fs"]:
                if u.startswith("std::collections::HashMap<u16, "):
                    return n, m
    return None


def history(t):
    """operations applied to a map since the start, newest first"""
    out = []
    while t.k == "mut":
        out.append((t.a[0], t.a[2], t))
        t = t.a[1]
    return t, out


def removal(s, m0, pid):
    """the term for what removing pid from the initial map returns"""
    for t in list(s.var) + list(s.eqs):
        x = t
        if x.k == "call" and x.a[0].endswith("::remove") and x.a[1] and x.a[1][0] is m0 and len(x.a[1]) > 1 and (x.a[1][1] is pid or same(s, x.a[1][1], pid)):
            return x
    return None


def run(c):
    p = c.prog()
    f, res = engine.handled(p)
    tab = table(p)
    if not (c.anchor("packet handler of the engine", [f] if f else []) & c.anchor("table of unacknowledged packets", [tab] if tab else [])):
        return
    w = f"{f.file}:{f.line}"
    n = 0
    for v, (I, cl, a, st0, outs, pk) in sorted(res.items()):
        kind, ver = v[:-1], v[-1]
        body = pk.a[3][0]
        got = {}

        def ob(k, good, what=""):
            got[k] = (got.get(k, (True, ""))[0] and good, got.get(k, (True, ""))[1] or ("" if good else what))
        m0 = engine.self_field(st0, a, *tab)
        acks = kind in ("PubAck", "PubRec", "PubComp", "SubAck", "UnsubAck")
        for s, r in outs:
            n += 1
            ev, rs = engine.result_lists(p, r)
            if ev is None or rs is None or ev[0].k != "vnew" or rs[0].k != "vnew":
                ob("outcome recognised", False, show(r)[:160])
                continue
            evs, rsp = ev[1], rs[1]
            cur = engine.self_field(s, a, *tab)
            base, ops = history(cur)
            desc = f"table {show(cur)[:120]}, events {[x.a[1] if x.k == 'adt' else x.k for x in evs]}"
            if kind == "ConnAck" and not possible(s, ("eq", fget(body, "session_present"), 1)):
                # the session of the tracked packets is lost; what that does to them is P15's subject
                ob("other packets complete nothing", not [x for x in evs if x.k == "adt" and x.a[1] in ("Published", "Subscribed", "Unsubscribed")], desc)
                continue
            if base is not m0:
                ob("the table is followed", False, desc)
                continue
            done = [x for x in evs if x.k == "adt" and x.a[1] in ("Published", "Subscribed", "Unsubscribed")]
            if not acks:
                ob("other packets leave tracked requests alone", not ops, desc)
                ob("other packets complete nothing", not done, desc)
                continue
            pid = fget(body, engine.pid_field(p, v))
            ob("only the entry with the packet's id is touched", all(k and (k[0] is pid or same(s, k[0], pid) or kind == "PubRec" and op == "insert" and _entry_id(k[0])) for op, k, _ in ops), desc)
            if kind in ("SubAck", "UnsubAck"):
                ob("the request stops being tracked", any(op == "remove" for op, *_ in ops) and not any(op == "insert" for op, *_ in ops), desc)
                want = "Subscribed" if kind == "SubAck" else "Unsubscribed"
                good = len(done) == 1 and done[0].a[1] == want
                ob("the result is reported once", good, desc)
                if good:
                    x = done[0].a[3][0]
                    ob("the result carries the packet's id", same(s, fget(x, "packet_id"), pid), show(x)[:160])
                    src = [q for q in ("reason_codes", "return_codes") if q in [g[0] for g in p.adts[_ty(p, v)]["vs"][0]["fs"]]]
                    if src:
                        ob("the result carries the server's codes", same(s, fget(x, "reason_codes"), fget(body, src[0])), show(x)[:160])
                ob("nothing is sent in reply", not rsp, desc)
                continue
            R = removal(s, m0, pid)
            if R is None:
                ob("the entry with the packet's id is looked up", False, desc)
                continue
            ent = pay(R, "Some")
            if possible(s, ("var", R, "None")):
                ob("an unknown id completes nothing", not done and not rsp and not any(op == "insert" for op, *_ in ops), desc)
            if not possible(s, ("var", R, "Some")):
                continue
            refused = None
            if kind == "PubRec" and ver == "5":
                rc = fget(body, "reason_code")
                refused = possible(s, ("if", ge0(ladd(rc, K(-128))), True))
                accepted = possible(s, ("if", ge0(ladd(rc, K(-128))), False))
                if refused and accepted:
                    ob("a refusal and an acceptance are told apart", False, desc)
                    continue
            if kind == "PubRec" and not refused:
                ob("an accepted QoS 2 message is not yet complete", not done, desc)
                good = len(rsp) == 1 and rsp[0].k == "adt" and rsp[0].a[1] == "PubRel" + ver and same(s, fget(rsp[0].a[3][0], engine.pid_field(p, "PubRel" + ver)), pid)
                ob("the release is sent with the same id", good and (ver == "3" or same(s, fget(rsp[0].a[3][0], "reason_code"), K(0))), f"responses {[show(x)[:100] for x in rsp]}")
                ins = [t for op, k, t in ops if op == "insert"]
                kept = len(ins) == 1 and len(ins[0].a[2]) > 1
                e = ins[0].a[2][1] if kept else None
                kept = kept and e.k == "adt" and any(x.k == "adt" and x.a[0] == engine.PKT and x.a[1] == "PubRel" + ver for x in e.a[3])
                ob("the release is tracked until completed", kept, desc)
                if kept:
                    k0 = ins[0].a[2][0]
                    ob("the release is tracked under the message's id", k0 is pid or same(s, k0, pid) or _entry_id(k0) and k0 in subterms(ent) or k0 is fget(ent, "packet_id"), show(k0)[:100])
                continue
            good = len(done) == 1 and done[0].a[1] == "Published"
            ob("completion is reported exactly once", good, desc)
            ob("the message stops being tracked", any(op == "remove" for op, *_ in ops) and not any(op == "insert" for op, *_ in ops), desc)
            ob("nothing is sent in reply", not rsp, desc)
            if good:
                x = done[0].a[3][0]
                ob("completion carries the packet's id", same(s, pay(fget(x, "packet_id"), "Some") if fget(x, "packet_id").k != "adt" else fget(x, "packet_id").a[3][0] if fget(x, "packet_id").a[3] else K(0), pid), show(x)[:200])
                if ver == "5":
                    rc = fget(x, "reason_code")
                    ob("completion carries the server's reason", rc.k == "adt" and rc.a[1] == "Some" and same(s, rc.a[3][0], fget(body, "reason_code")), show(x)[:200])
                ob("completion carries the message's QoS", same(s, fget(x, "qos"), fget(ent, "qos")), show(x)[:200])
        for k, (good, what) in got.items():
            c.ob(f"{v}: {k}", good, what or "holds on every path", w)
            if acks:
                c.sample({"packet": v, "obligation": k})
        want = {"PubAck": 6, "PubComp": 6, "PubRec": 5, "SubAck": 4, "UnsubAck": 4}.get(kind, 1)
        c.ob(f"{v}: paths found", outs and len(got) >= want, f"{len(outs)} paths, {len(got)} obligations", w)
    c.count("handler exits checked", n)
    c.anchor("packet variants", res, 29)


def _ty(p, v):
    return [x["fs"][0][1] for x in p.adts[engine.PKT]["vs"] if x["n"] == v][0]


def _entry_id(k):
    """the id stored in the removed entry: equal to the key it was stored under"""
    return k.k == "pr" and k.a[1] == "f:packet_id"
