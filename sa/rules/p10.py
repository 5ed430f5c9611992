"""Automatic acknowledgement of received QoS 1/2 messages."""
import engine
from engine import possible, same, fget, pay
from terms import *

RULE = ("Abstract interpretation of the engine's packet handler on every packet variant with arbitrary contents and engine state; on every exit the list of response packets and of events is compared with the QoS "
        "response table, conditioned on what the path knows about the acknowledgement option, the QoS and the packet identifier.")
THOROUGH_CONFIGS = ("default",)


def seen(s, ident):
    """membership tests of an id in a set of the engine: (term, value meaning 'already there')"""
    out = []
    for t in set(s.eqs) | {x for t in s.eqs for x in subterms(t)}:
        if t.k == "call" and ident in t.a[1] and t.a[1][0].k == "ld" and "HashSet" in t.a[0]:
            out.append((t, 0 if t.a[0].endswith("insert") else 1))
        if t.k in ("pure", "contains") and ident in subterms(t):
            out.append((t, 1))
    return out


def changed(s, a, p):
    """current values of the engine's sets of identifiers"""
    return [engine.self_field(s, a, n) for n, t in engine.fields(p, engine.ENG).items() if t.startswith("std::collections::HashSet<u16")]


def run(c):
    p = c.prog()
    f, res = engine.handled(p)
    if not c.anchor("packet handler of the engine", [f] if f else []):
        return
    auto = None
    for n, t, *_ in p.adts["flowsdk::mqtt_client::opts::MqttClientOptions"]["vs"][0]["fs"]:
        if n == "auto_ack":
            auto = n
    opt = [n for n, t in engine.fields(p, engine.ENG).items() if t.endswith("::MqttClientOptions")]
    if not (c.anchor("acknowledgement option", [auto] if auto else []) & c.anchor("options of the engine", opt)):
        return
    n = 0
    sets = [x for x, t in engine.fields(p, engine.ENG).items() if t.startswith("std::collections::HashSet<u16")]
    for v, (I, cl, a, st0, outs, pk) in sorted(res.items()):
        body = pk.a[3][0]
        A = engine.self_field(st0, a, opt[0], auto)
        w = f"{f.file}:{f.line}"
        ver = v[-1]
        idf = engine.pid_field(p, v)
        got = {}

        def ob(k, good, what=""):
            got[k] = (got.get(k, (True, ""))[0] and good, got.get(k, (True, ""))[1] or ("" if good else what))
        for s, r in outs:
            n += 1
            ev, rs = engine.result_lists(p, r)
            if ev is None or rs is None or ev[0].k != "vnew" or rs[0].k != "vnew":
                ob("outcome recognised", False, show(r)[:160])
                continue
            evs, rsp = ev[1], rs[1]
            desc = f"responses {[show(x)[:80] for x in rsp]}"

            def is_resp(x, kind, pid):
                return x.k == "adt" and x.a[1] == kind + ver and same(s, fget(x.a[3][0], engine.pid_field(p, kind + ver)), pid) and \
                    (ver == "3" or same(s, fget(x.a[3][0], "reason_code"), K(0)))
            if v.startswith("Publish"):
                qos, pid = fget(body, "qos"), fget(body, idf)
                ident = pay(pid, "Some")
                for q, kind in ((1, "PubAck"), (2, "PubRec")):
                    if possible(s, ("eq", A, 1), ("eq", qos, q), ("var", pid, "Some")):
                        ob(f"QoS {q} is answered with one {kind} for its id", len(rsp) == 1 and is_resp(rsp[0], kind, ident), desc)
                if rsp:
                    ob("no answer when acknowledging is left to the application", not possible(s, ("eq", A, 0)), desc)
                    ob("no answer to QoS 0", not possible(s, ("eq", qos, 0)), desc)
                msg = [x for x in evs if x.k == "adt" and x.a[1] == "MessageReceived"]
                m = msg[0].a[3][0] if len(msg) == 1 else None
                dups = [("eq", qos, 2), ("var", pid, "Some"), ("eq", fget(body, "dup"), 1)]
                again = seen(s, ident)
                if m is None:
                    ob("only a repeated QoS 2 message is withheld", not msg and not possible(s, ("ne", qos, 2)) and not possible(s, ("eq", fget(body, "dup"), 0)) and not possible(s, ("var", pid, "None"))
                       and any(not possible(s, ("eq", t, 1 - x)) for t, x in again), f"{len(msg)} deliveries")
                elif possible(s, *dups):
                    ob("a QoS 2 id awaiting release is not delivered a second time", any(not possible(s, *dups, ("eq", t, x)) for t, x in again), "delivered although the id may be awaiting release")
                if possible(s, *dups[:2]):
                    ob("a QoS 2 id is remembered until released", any(x.k == "mut" and x.a[0] == "insert" and ident in x.a[2] for x in changed(s, a, p)), "the id is not recorded")
                if m is not None:
                    if ver == "5":
                        ob("the message is delivered unchanged", same(s, m, body), show(m)[:200])
                    else:
                        ob("the message is delivered unchanged", m.k == "adt" and all(same(s, fget(m, x), fget(body, y)) for x, y in
                           (("topic_name", "topic_name"), ("payload", "payload"), ("qos", "qos"), ("retain", "retain"), ("dup", "dup"), ("packet_id", idf))), show(m)[:200])
            elif v.startswith("PubRel"):
                pid = fget(body, idf)
                if possible(s, ("eq", A, 1)):
                    ob("release is answered with one PubComp for its id", len(rsp) == 1 and is_resp(rsp[0], "PubComp", pid), desc)
                if possible(s, ("eq", A, 0)):
                    ob("no answer when acknowledging is left to the application", not rsp, desc)
                rel = [x for x in evs if x.k == "adt" and x.a[1] == "PubRelReceived"]
                ob("a released id is forgotten", any(x.k == "mut" and x.a[0] == "remove" and pid in x.a[2] for x in changed(s, a, p)), "the id stays recorded")
                ob("the release is reported with its id", len(rel) == 1 and same(s, fget(rel[0], "packet_id"), pid), f"{len(rel)} reports")
            else:
                bad = [x for x in rsp if not (x.k == "adt" and x.a[1].startswith("PubRel") and v == "PubRec" + x.a[1][-1])]
                ob("no acknowledgement is sent for other packets", not bad, desc)
                kept = all(engine.self_field(st0, a, n) is x for n, x in zip(sets, changed(s, a, p)))
                ob("ids awaiting release survive other packets", kept or v.startswith("ConnAck") and not possible(s, ("eq", fget(body, "session_present"), 1)), "the record of received ids is changed")
                ob("no message is delivered for other packets", not [x for x in evs if x.k != "adt" or x.a[1] in ("MessageReceived", "PublishReceived", "PubRelReceived")], desc)
        for k, (good, what) in got.items():
            c.ob(f"{v}: {k}", good, what or "holds on every path", w)
            if v.startswith(("Publish", "PubRel")):
                c.sample({"packet": v, "obligation": k})
        want = {"Publish": 5, "PubRel": 3}.get(v[:-1], 0)
        c.ob(f"{v}: paths found", outs and len(got) >= want, f"{len(outs)} paths, {len(got)} obligations", w)
    c.count("handler exits checked", n)
    c.anchor("packet variants", res, 29)
