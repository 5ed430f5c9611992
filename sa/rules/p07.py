"""Decoding an encoded packet gives the packet back."""
import codec
from codec import Coder, pieces, total
from engine import PKT
from terms import *

RULE = ("Abstract composition of every encoder with the decoder: the encoder is interpreted on a packet whose strings, payloads, identifiers and property lists are unknown, its output kept as a sequence of symbolic pieces, "
        "and the decoder is interpreted on those pieces from the encoder's exit state.  Every outcome must be the same packet, field by field, with exactly the encoded size consumed; "
        "and the encoder may refuse a well-formed packet only when something in it is too long. The decoder is also interpreted on the shorter and longer forms the specification allows for acknowledgements, DISCONNECT and AUTH.")
THOROUGH_CONFIGS = ("default", "lax")


def run(c):
    p = c.prog()
    enc, dec = p.fns.get(PKT + "::to_bytes"), p.fns.get(PKT + "::from_bytes_with_version")
    if PKT not in p.adts or not (c.anchor("packet encoder", [enc] if enc else []) & c.anchor("packet decoder", [dec] if dec else []) & c.anchor("packet types", p.adts[PKT]["vs"], 29)):
        return
    n = 0
    for v in p.adts[PKT]["vs"]:
        n += variant(c, p, v["n"], enc, dec)
    c.count("packet shapes followed through encoder and decoder", n)
    c.ob("packet shapes followed", n >= 200, f"{n} shapes")


def variant(c, p, name, enc, dec):
    reset()
    C = Coder(p)
    inner = [x for x in p.adts[PKT]["vs"] if x["n"] == name][0]["fs"]
    if len(inner) != 1 or inner[0][1] not in p.adts:
        c.ob(f"{name}: one payload type", False, "")
        return 0
    vers = [K(5)] if name.endswith("5") or name == "Auth" else [K(4), K(3)]
    bad, refused, count, encoded = {}, {}, 0, 0
    entries = [("to_bytes of the packet enum", enc, None, None)]
    for n, f, ty, into in codec.entry_points(p, name):
        entries.append((n, f, ty, mk("in", "bin", "already in the buffer") if into else None))
    if not c.anchor(f"{name} encoders", entries, 3):
        return 0
    where = entries[-2][1].file
    for pk in codec.packets(p, name):
        count += 1
        first = None
        for en, f, ty, into in entries:
            try:
                es = C.encode(f, pk if ty is None else pk.a[3][0], into, ty)
            except codec.absint.Limit as e:
                bad[en] = f"{codec.describe(pk.a[3][0])}: {e}"
                continue
            for s, ps, r in es:
                if ps is None:
                    if codec.short(s, None, pk):
                        refused[en] = f"{codec.describe(pk.a[3][0])}: {show(r)[:100]}"
                    continue
                if into is not None:
                    if not ps or ps[0] != ("q", into):
                        bad[en] = "what was in the buffer before is not kept"
                        continue
                    ps = ps[1:]
                encoded += 1
                if first is not None and ps in first:
                    continue        # these pieces were already decoded, under weaker assumptions or the same
                for ver in vers:
                    try:
                        outs = C.decoded(dec, ps, s, (ver,))
                    except codec.absint.Limit as e:
                        outs = [(s, None, None, K(0))]
                    if not outs:
                        bad[en] = f"{codec.describe(pk.a[3][0])}: no outcome"
                    for s2, v, k, r2 in outs:
                        if v is None:
                            bad[en] = f"{codec.describe(pk.a[3][0])}: decoding gives {show(r2)[:120]}"
                        elif k is not total(ps) and not codec.matches(s2, total(ps), k):
                            bad[en] = f"{codec.describe(pk.a[3][0])}: {show(k)[:60]} consumed of {show(total(ps))[:60]}"
                        elif not codec.matches(s2, pk, v):
                            bad[en] = f"{codec.describe(pk.a[3][0])}: decoded as {differ(s2, pk, v)}"
            if first is None:
                first = {ps for s, ps, r in es if ps is not None} if len(es) <= 1 else None
    for what, ps, want in other_forms(name, codec.packets(p, name)):
        try:
            st = codec.absint.St()
            codec.absint.set_eq(st, codec.plen(("p", mk("vnew"))), 1)
            outs = C.decoded(dec, ps, st, (vers[0],))
        except codec.absint.Limit:
            outs = []
        wrong = [f"decoding gives {show(r2)[:120]}" if v is None else f"decoded as {differ(s2, want, v)}" for s2, v, k, r2 in outs if v is None or not codec.matches(s2, want, v)]
        c.ob(f"{name}: {what}", outs and not wrong, "; ".join(wrong[:1]) or "decoded as the packet it stands for", where)
    for en, *_ in entries:
        c.ob(f"{name} {en}: decoding gives the packet back", en not in bad, bad.get(en, "every shape"), where)
        c.ob(f"{name} {en}: a well-formed packet is not refused", en not in refused, refused.get(en, "only when too long"), where)
    c.ob(f"{name} lengths fit the length field", not C.bad, f"not bounded in {sorted(set(C.bad))}" if C.bad else "each is checked before", where)
    c.ob(f"{name} encoded", encoded >= count, f"{encoded} outcomes for {count} shapes")
    c.count("functions analysed", len(C.fns))
    return count


FIRST = {"PubAck5": 0x40, "PubRec5": 0x50, "PubRel5": 0x62, "PubComp5": 0x70, "Disconnect5": 0xE0, "Auth": 0xF0}


def other_forms(name, pks):
    """forms of a packet the specification allows besides the one the library writes: (what, pieces, packet it stands for)"""
    if name not in FIRST:
        return
    b = pks[0].a[3][0]
    pid = codec.fget(b, "packet_id")
    ident = tuple(("b", ranged(mk("byteof", "be", "u16", pid, i), 0, 255)) for i in (0, 1)) if pid is not None else ()
    rc = codec.fget(b, "reason_code")
    none = mk("vnew")
    vals = {"without reason code and properties": ((), K(0)), "with reason code 0 spelled out": ((("b", K(0)), ("p", none)), K(0))}
    if name != "Auth":
        vals["without properties"] = ((("b", rc),), rc)
    for what, (rest, code) in vals.items():
        want = codec.with_field(codec.with_field(b, "reason_code", code), "properties", none)
        body = ident + rest
        yield what, (("b", K(FIRST[name])), ("b", K(len(body)))) + body, mk("adt", *pks[0].a[:3], (want,))


def differ(s, a, b):
    """where the decoded value differs"""
    if a.k == "adt" and b.k == "adt" and a.a[1] == b.a[1] and len(a.a[3]) == len(b.a[3]):
        for n, x, y in zip(a.a[2], a.a[3], b.a[3]):
            if not codec.matches(s, x, y):
                return n + ": " + differ(s, x, y)
    return f"{show(b)[:80]} instead of {show(a)[:80]}"
