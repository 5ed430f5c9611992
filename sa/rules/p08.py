"""Malformed packets are refused."""
import re
import absint, codec
from codec import Coder, total, PKT
from absint import len_of
from rules.p05 import u16, data, raw, byte, length, TYPES, FLAGS
from terms import *

RULE = ("Abstract interpretation of the decoder on whole frames that are well-formed except for one violation of the specification (table in this rule); the strings, identifiers, payloads, properties and the offending bits are unknown. "
        "No outcome may be a packet, and none may ask for more bytes; the same frame without the violation must be decodable, so that the refusal is due to the violation.")
THOROUGH_CONFIGS = ("default",)


def n(tag, lo=0, hi=255):
    return ranged(mk("in", "int", tag), lo, hi)


def s(tag):
    return mk("in", "str", tag)


def props():
    return (("p", mk("in", "props", "properties")),)


def frame(first, body, extra=()):
    return (("b", first),) + length(total(body)) + tuple(body) + tuple(extra)


def bodies(five):
    """a well-formed body of each packet type"""
    P = props() if five else ()
    pid = u16(n("packet id", 1, 65535))
    v = 5 if five else 4
    code = n("reason code")
    out = {
        "Connect": u16(K(4)) + raw(mk("s", "MQTT")) + byte(K(v)) + byte(K(2)) + u16(n("keep alive", 0, 65535)) + P + data(s("client id")),
        "ConnAck": byte(K(0)) + byte(K(0)) + P,
        "PubAck": pid + (byte(K(0)) + P if five else ()), "PubRec": pid + (byte(K(0)) + P if five else ()), "PubRel": pid + (byte(K(0)) + P if five else ()),
        "PubComp": pid + (byte(K(0)) + P if five else ()),
        "Publish": data(s("topic")) + P + (("q", mk("in", "bin", "payload")),),
        "Subscribe": pid + P + data(s("filter")) + byte(K(1)), "SubAck": pid + P + byte(K(0)),
        "Unsubscribe": pid + P + data(s("filter")), "UnsubAck": pid + P + (byte(K(0)) if five else ()),
        "PingReq": (), "PingResp": (), "Disconnect": (byte(K(0)) + P) if five else (),
    }
    if five:
        out["Auth"] = byte(K(0)) + P
    return out


def connect(five, flags, will=False, user=False, pw=False, name=None, ver=None):
    P = props() if five else ()
    b = u16(K(len(name.a[0]) if name else 4)) + raw(name or mk("s", "MQTT")) + byte(ver if ver is not None else K(5 if five else 4)) + byte(flags) + u16(n("keep alive", 0, 65535)) + P + data(s("client id"))
    if will:
        b += P + data(s("will topic")) + data(mk("in", "bin", "will message"))
    if user:
        b += data(s("user name"))
    if pw:
        b += data(mk("in", "bin", "password"))
    return b


def cases(five):
    """(what, first byte, body)"""
    B = bodies(five)
    P = props() if five else ()
    pid, zero = u16(n("packet id", 1, 65535)), u16(K(0))
    first = lambda t: K(16 * TYPES[t] + FLAGS.get(t, 0))
    for t in sorted(B):
        if t == "Publish":
            continue
        # every other value of the flag bits
        fl, req = n("flags", 0, 15), FLAGS.get(t, 0)
        if req:
            yield f"{t}: reserved header bits", ladd(K(16 * TYPES[t]), n("flags", 0, req - 1)), B[t]
        yield f"{t}: reserved header bits", ladd(K(16 * TYPES[t]), n("flags+", req + 1, 15)), B[t]
    for t in sorted(B):
        if t in ("Publish", "SubAck") or t == "UnsubAck" and five:
            continue
        for k in (1,) if t in ("Subscribe", "Unsubscribe") else (1, 3):
            yield f"{t}: {'bytes' if t not in ('Subscribe', 'Unsubscribe') else 'a cut short entry'} after the body", first(t), B[t] + tuple(("b", n(f"extra {i}")) for i in range(k))
    for t in ("PubAck", "PubRec", "PubRel", "PubComp", "Subscribe", "Unsubscribe", "SubAck", "UnsubAck"):
        if t in ("Subscribe", "Unsubscribe") or five and t in ("SubAck", "UnsubAck"):
            yield f"{t}: packet identifier 0", first(t), zero + B[t][2:]
        for k in (0, 1):
            yield f"{t}: no complete packet identifier", first(t), B[t][:k]
    for f in (6, 7, 14, 15):
        yield "Publish: QoS 3", K(48 + f), data(s("topic")) + pid + P + (("q", mk("in", "bin", "payload")),)
    for f in (8, 9):
        yield "Publish: duplicate flag with QoS 0", K(48 + f), B["Publish"]
    for f in (2, 4):
        yield "Publish: packet identifier 0", K(48 + f), data(s("topic")) + zero + P + (("q", mk("in", "bin", "payload")),)
    for t in ("a/+/b", "a/#", "+", "#", "+/b", "a/+", "a+b", "a#b"):
        yield "Publish: wildcard in the topic name", K(48), data(mk("s", t)) + P + (("q", mk("in", "bin", "payload")),)
    C = K(16)
    for f in (3, 0x43, 0xc3):
        yield "Connect: reserved connect flag", C, connect(five, K(f), user=f >= 128, pw=f >= 64)
    for f in (0x1e, 0x3e):
        yield "Connect: will QoS 3", C, connect(five, K(f), will=True)
    for f in (0x0a, 0x12, 0x22, 0x2a):
        yield "Connect: will QoS or retain without a will", C, connect(five, K(f))
    if not five:
        yield "Connect: password without user name", C, connect(five, K(0x42), pw=True)
    for f in (0x82, 0xc2, 0x42) if five else (0x82, 0xc2):
        yield "Connect: user name or password missing", C, connect(five, K(f))
    yield "Connect: will missing", C, connect(five, K(6))
    for t in ("MQTX", "MQTTX", "mqtt", "MQT", "") + (("MQIsdp",) if five else ()):
        yield "Connect: other protocol name", C, connect(five, K(2), name=mk("s", t))
    if not five:
        for v in (0, 1, 2, 6, 255):
            yield "Connect: unknown protocol version", C, connect(five, K(2), ver=K(v))
    for f in (2, 3, 0x80, 0x81):
        yield "ConnAck: reserved acknowledge flags", K(32), byte(K(f)) + byte(K(0)) + P
    for k in (0, 1):
        yield "ConnAck: body too short", K(32), B["ConnAck"][:k]
    yield "Subscribe: no subscription", K(0x82), pid + P
    for o in (3, 7) + ((0x33, 0x31, 0x41, 0x81, 0xc0) if five else (4, 8, 0x11, 0x80)):
        what = "QoS 3" if o & 3 == 3 else "retain handling 3" if o & 0x30 == 0x30 and five and not o & 0xc0 else "reserved option bits"
        yield f"Subscribe: {what}", K(0x82), pid + P + data(s("filter")) + byte(K(o))
        yield f"Subscribe: {what}", K(0x82), pid + P + data(s("filter")) + byte(K(1)) + data(s("filter 2")) + byte(K(o))
    yield "Subscribe: no options after the filter", K(0x82), pid + P + data(s("filter"))
    if five:
        yield "Unsubscribe: no topic filter", K(0xa2), pid + P
    yield "SubAck: no return code", K(0x90), pid + P
    if five:
        yield "UnsubAck: no reason code", K(0xb0), pid + P
    else:
        yield "SubAck: undefined return code", K(0x90), pid + byte(n("code", 3, 127))
        yield "SubAck: undefined return code", K(0x90), pid + byte(n("code", 129, 255))
        yield "SubAck: undefined return code", K(0x90), pid + byte(K(0)) + byte(n("code", 129, 255))
    yield "packet type 0", n("flags", 0, 15), pid + P
    if not five:
        yield "packet type 15", ladd(K(0xf0), n("flags", 0, 15)), pid


def fine(five):
    """(what, first byte, body) of well-formed frames: the violations above without what is wrong with them"""
    B = bodies(five)
    P = props() if five else ()
    pid = u16(n("packet id", 1, 65535))
    for t, b in sorted(B.items()):
        yield t, K(16 * TYPES[t] + FLAGS.get(t, 0)), b
    for q in range(3):
        for r in (0, 0x20):
            yield f"Connect with a will: QoS {q}{', retained' if r else ''}", K(16), connect(five, K(6 | q << 3 | r), will=True)
    yield "Connect with a will, user name and password", K(16), connect(five, K(0xc6), will=True, user=True, pw=True)
    yield "Connect with a user name", K(16), connect(five, K(0x82), user=True)
    yield "Connect with a user name and password", K(16), connect(five, K(0xc2), user=True, pw=True)
    if five:
        yield "Connect with a password", K(16), connect(five, K(0x42), pw=True)
    for f in (2, 3, 4, 5, 10, 11, 12, 13):
        yield f"Publish: QoS {f >> 1 & 3}", K(48 + f), data(s("topic")) + pid + P + (("q", mk("in", "bin", "payload")),)
    yield "Publish: retained", K(49), B["Publish"]
    for t in ("a/b", "/", "$x"):
        yield "Publish: topic name without wildcards", K(48), data(mk("s", t)) + P + (("q", mk("in", "bin", "payload")),)
    yield "ConnAck: session present", K(32), byte(K(1)) + byte(K(0)) + P
    for o in (0, 1, 2) + ((4, 8, 0x10, 0x20, 0x2e) if five else ()):
        yield "Subscribe: options", K(0x82), pid + P + data(s("filter")) + byte(K(o))
        yield "Subscribe: two subscriptions", K(0x82), pid + P + data(s("filter")) + byte(K(1)) + data(s("filter 2")) + byte(K(o))
    yield "Unsubscribe: two filters", K(0xa2), pid + P + data(s("filter")) + data(s("filter 2"))
    for x in (0, 1, 2, 128):
        yield "SubAck: return code", K(0x90), pid + P + byte(K(x))
        yield "SubAck: two return codes", K(0x90), pid + P + byte(K(0)) + byte(K(x))


def run(c):
    p = c.prog()
    dec = p.fns.get(PKT + "::from_bytes_with_version")
    if not c.anchor("packet decoder", [dec] if dec else []):
        return
    k = 0
    for five in (True, False):
        ver = "MQTT 5" if five else "MQTT 3.1.1"
        # the frames the violations are put in are themselves fine
        reset()
        good = {}
        for what, first, b in fine(five):
            good[what] = good.get(what, True) and any(accepted(r) for r in decode(p, dec, frame(first, b), five))
        for what, g in good.items():
            c.ob(f"{ver} {what}: a well-formed frame is decoded", g, "no outcome is a packet", dec.file)
        bad, all_ = {}, {}
        todo = len(list(cases(five)))
        for i in range(todo):
            if i % 20 == 0:
                # terms live until the next reset
                reset()
                cs = list(cases(five))
            what, first, b = cs[i]
            all_.setdefault(what, 0)
            all_[what] += 1
            try:
                outs = decode(p, dec, frame(first, b, (("b", n("next frame")),)), five)
                if not outs:
                    bad[what] = "no outcome"
                for r in outs:
                    if not (r.k == "adt" and r.a[1] == "Err") or r.a[3][0].k == "adt" and r.a[3][0].a[1] == "More":
                        bad[what] = show(r)[:200]
            except absint.Limit as e:
                bad[what] = str(e)
            k += 1
        for what in all_:
            c.ob(f"{ver} {what}: refused", what not in bad, f"accepted as {bad[what]}" if what in bad else f"{all_[what]} frames", dec.file)
    c.ob("malformed frames decoded", k >= 150, f"{k} frames")
    c.count("malformed frames", k)


def accepted(r):
    return r.k == "adt" and r.a[1] == "Ok" and r.a[3][0].k == "adt" and r.a[3][0].a[1] == "Packet"


def decode(p, dec, ps, five):
    C = Coder(p)
    st = absint.St()
    for t in {y for _, x in ps for y in subterms(x)}:
        if t.k == "in" and t.a[0] == "str" and t.a[1] in ("topic", "filter", "filter 2", "will topic"):
            absint.add_ge(st, ladd(len_of(t), K(-1)))
        if t.k == "in" and t.a[0] in ("str", "bin"):
            absint.add_ge(st, ladd(K(60000), len_of(t), -1))
    return [r for _, r in C.decode(dec, ps, st, (K(5 if five else 4),))]
