"""Encoded packets have the layout of the MQTT specification."""
import re
import codec
from codec import Coder, fget, total, value, elems, len_of
from engine import PKT
from terms import *

RULE = ("Abstract interpretation of every packet encoder on packets with unknown contents; the sequence of bytes, strings, lengths and property lists it produces is compared, piece by piece, with the layout "
        "the MQTT 3.1.1 and 5.0 specifications give for that packet type (written down in this rule, independently of the code).")
THOROUGH_CONFIGS = ("default", "lax")
TYPES = {"Connect": 1, "ConnAck": 2, "Publish": 3, "PubAck": 4, "PubRec": 5, "PubRel": 6, "PubComp": 7, "Subscribe": 8, "SubAck": 9, "Unsubscribe": 10, "UnsubAck": 11,
         "PingReq": 12, "PingResp": 13, "Disconnect": 14, "Auth": 15}
FLAGS = {"PubRel": 2, "Subscribe": 2, "Unsubscribe": 2}


def u16(x):
    if x.k == "k":
        return (("b", K(x.a[0] >> 8)), ("b", K(x.a[0] & 255)))
    return tuple(("b", ranged(mk("byteof", "be", "u16", x, i), 0, 255)) for i in range(2))


def raw(s):
    return codec.pieces(s)


def data(s):
    return u16(len_of(s)) + raw(s)


def byte(x):
    return (("b", x),)


class Props:
    """a property list with these elements, in any order"""

    def __init__(self, whole=None, parts=()):
        self.whole, self.parts = whole, list(parts)

    def same(self, s, t):
        if self.whole is not None:
            return t is self.whole or codec.empty(s, self.whole) and elems(t) == ()
        e = elems(t)
        return e is not None and len(e) == len(self.parts) and sorted(x.id for x in e) == sorted(x.id for x in self.parts)


def opt(x):
    return x.a[3][0] if x.a[1] == "Some" else None


def body(name, f, s):
    """acceptable bodies of the packet: [(extra facts that must hold, pieces)]; property lists as Props"""
    g = lambda *ns: next(v for v in (fget(f, n) for n in ns) if v is not None)
    five = name.endswith("5") or name == "Auth"
    base = name.rstrip("35")
    P = lambda: (Props(g("properties")),) if five else ()
    if base == "Connect":
        will, user, pw = opt(g("will")), opt(g("username")), opt(g("password"))
        flags = 2 * g("clean_start", "clean_session").a[0]
        out = u16(K(4)) + raw(mk("s", "MQTT")) + byte(K(5 if five else 4))
        pay = data(g("client_id"))
        if will is not None:
            w = lambda *ns: next(v for v in (fget(will, n) for n in ns) if v is not None)
            flags += 4 + 8 * w("will_qos", "qos").a[0] + 32 * w("will_retain", "retain").a[0]
            if five:
                pr = fget(will, "properties")
                parts = []
                for n, v in (("will_delay_interval", "WillDelayInterval"), ("payload_format_indicator", "PayloadFormatIndicator"), ("message_expiry_interval", "MessageExpiryInterval"),
                             ("content_type", "ContentType"), ("response_topic", "ResponseTopic"), ("correlation_data", "CorrelationData")):
                    x = opt(fget(pr, n))
                    if x is not None:
                        parts.append(adt(codec.PROP, v, ("0",), (x,)))
                pay += (Props(None, parts + list(elems(fget(pr, "user_properties")))),)
            pay += data(w("will_topic", "topic")) + data(w("will_message", "message"))
        flags += (128 if user is not None else 0) + (64 if pw is not None else 0)
        if user is not None:
            pay += data(user)
        if pw is not None:
            pay += data(pw)
        return [out + byte(K(flags)) + u16(g("keep_alive")) + P() + pay]
    if base == "ConnAck":
        pr = ()
        if five:
            x = g("properties")
            pr = (Props(x.a[3][0]) if x.a[1] == "Some" else Props(None, ()),)
        return [byte(g("session_present")) + byte(g("reason_code", "return_code")) + pr]
    if base == "Publish":
        pid = opt(g("packet_id", "message_id"))
        return [data(g("topic_name")) + (u16(pid) if g("qos").a[0] else ()) + P() + raw(g("payload"))]
    if base in ("PubAck", "PubRec", "PubRel", "PubComp"):
        pid = u16(g("packet_id", "message_id"))
        if not five:
            return [pid]
        out = [pid + byte(g("reason_code")) + P()]
        if codec.empty(s, g("properties")):
            out.append(pid + byte(g("reason_code")))
            if s.eqs.get(g("reason_code")) == 0 or codec.prove(s, lsub(K(0), g("reason_code"))):
                out.append(pid)
        return out
    if base in ("Disconnect", "Auth"):
        if not five:
            return [()]
        out = [byte(g("reason_code")) + P()]
        if codec.empty(s, g("properties")):
            if base == "Disconnect":
                out.append(byte(g("reason_code")))
            if codec.prove(s, lsub(K(0), g("reason_code"))):
                out.append(())
        return out
    if base == "Subscribe":
        out = u16(g("packet_id", "message_id")) + P()
        for x in elems(g("subscriptions")):
            o = fget(x, "qos").a[0]
            if five:
                o += 4 * fget(x, "no_local").a[0] + 8 * fget(x, "retain_as_published").a[0] + 16 * fget(x, "retain_handling").a[0]
            out += data(fget(x, "topic_filter")) + byte(K(o))
        return [out]
    if base == "Unsubscribe":
        out = u16(g("packet_id", "message_id")) + P()
        for x in elems(g("topic_filters")):
            out += data(x)
        return [out]
    if base == "SubAck":
        return [u16(g("packet_id", "message_id")) + P() + raw(g("reason_codes", "return_codes"))]
    if base == "UnsubAck":
        return [u16(g("packet_id", "message_id")) + P() + (raw(g("reason_codes")) if five else ())]
    return [()]


def first_byte(name, f):
    base = name.rstrip("35")
    fl = FLAGS.get(base, 0)
    if base == "Publish":
        fl = 8 * fget(f, "dup").a[0] + 2 * fget(f, "qos").a[0] + fget(f, "retain").a[0]
    return K(16 * TYPES[base] + fl)


def length(x):
    return (("b", x),) if x.k == "k" and x.a[0] < 128 else (("v", x),)


def agree(s, want, got):
    """first difference between the layout and the produced pieces, or None"""
    for i, w in enumerate(want):
        if i >= len(got):
            return i, "the encoding ends"
        if isinstance(w, Props):
            if got[i][0] == "p" and w.same(s, got[i][1]) or got[i] == ("b", K(0)) and w.same(s, mk("vnew")):
                continue
            return i, f"{got[i][0]}:{show(got[i][1])[:60]} instead of the property list"
        if got[i] != w and not (w[0] == got[i][0] and (codec.matches(s, w[1], got[i][1]))):
            return i, f"{got[i][0]}:{show(got[i][1])[:60]} instead of {w[0]}:{show(w[1])[:60]}"
    if len(got) > len(want):
        return len(want), f"{got[len(want)][0]}:{show(got[len(want)][1])[:60]} after the end"
    return None


def size(want, got):
    n = K(0)
    for i, w in enumerate(want):
        n = ladd(n, codec.plen(got[i]) if isinstance(w, Props) and i < len(got) else K(1) if isinstance(w, Props) else codec.plen(w))
    return n


def run(c):
    p = c.prog()
    enc = p.fns.get(PKT + "::to_bytes")
    if PKT not in p.adts or not (c.anchor("packet encoder", [enc] if enc else []) & c.anchor("packet types", p.adts[PKT]["vs"], 29)):
        return
    n = 0
    for v in p.adts[PKT]["vs"]:
        name = v["n"]
        reset()
        if name.rstrip("35") not in TYPES:
            c.ob(f"{name}: layout known", False, "packet type without a layout in this rule")
            continue
        C = Coder(p)
        bad, seen = {}, 0
        entries = [("to_bytes of the packet enum", enc, None, None)]
        for en, f, ty, into in codec.entry_points(p, name):
            entries.append((en, f, ty, mk("in", "bin", "already in the buffer") if into else None))
        for pk in codec.packets(p, name):
            n += 1
            f = pk.a[3][0]
            for en, fn, ty, into in entries:
                try:
                    es = C.encode(fn, pk if ty is None else f, into, ty)
                except codec.absint.Limit as e:
                    bad[(en, "analysable")] = str(e)
                    continue
                for s, ps, r in es:
                    if ps is None:
                        continue
                    seen += 1
                    if into is not None:
                        ps = ps[1:] if ps and ps[0] == ("q", into) else ()
                    d = codec.describe(f)
                    if ps[:1] != (("b", first_byte(name, f)),):
                        bad[(en, "first byte")] = f"{d}: {[show(x)[:40] for _, x in ps[:1]]} instead of {show(first_byte(name, f))}"
                    rest = ps[2:]
                    best = None
                    for want in body(name, f, s):
                        diff = agree(s, want, rest)
                        if best is None or diff is None or best[0] is not None and diff[0] > best[0][0]:
                            best = (diff, want)
                        if diff is None:
                            break
                    if best[0] is not None:
                        bad[(en, "body")] = f"{d}: item {best[0][0]}: {best[0][1]}"
                    else:
                        L = size(best[1], rest)
                        if ps[1:2] != length(L) and not (len(ps) > 1 and ps[1][0] == length(L)[0][0] and codec.matches(s, L, ps[1][1])):
                            bad[(en, "remaining length")] = f"{d}: {[show(x)[:80] for _, x in ps[1:2]]} instead of {show(L)[:80]}"
        for en, *_ in entries:
            for what in ("first byte", "remaining length", "body"):
                k = (en, what)
                c.ob(f"{name} {en}: {what}", k not in bad and (en, "analysable") not in bad, bad.get(k, bad.get((en, "analysable"), "as specified")), entries[-2][1].file)
        c.ob(f"{name} encoded", seen >= 3, f"{seen} outcomes")
        c.ob(f"{name} lengths fit the length field", not C.bad, f"not bounded in {sorted(set(C.bad))}" if C.bad else "each is checked before")
        c.count("functions analysed", len(C.fns))
    c.count("packet shapes", n)
