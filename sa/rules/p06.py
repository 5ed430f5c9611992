"""MQTT 5 properties: identifiers, types, length and order."""
import codec
from codec import Coder, PROP, ERR, pieces, total
from rules.p05 import u16, data, raw, byte, length, agree
from terms import *

RULE = ("Abstract interpretation of the property list encoder on lists holding each kind of property with an unknown value, alone and next to others: the produced pieces are compared with the identifier and value type of the MQTT 5 specification "
        "(table in this rule), the decoder interpreted on them must give the same list, and must refuse every identifier the specification does not define and a list cut short.")
THOROUGH_CONFIGS = ("default", "lax")
#        identifier, value type
TABLE = {"PayloadFormatIndicator": (1, "byte"), "MessageExpiryInterval": (2, "u32"), "ContentType": (3, "str"), "ResponseTopic": (8, "str"), "CorrelationData": (9, "bin"),
         "SubscriptionIdentifier": (11, "vbi"), "SessionExpiryInterval": (17, "u32"), "AssignedClientIdentifier": (18, "str"), "ServerKeepAlive": (19, "u16"),
         "AuthenticationMethod": (21, "str"), "AuthenticationData": (22, "bin"), "RequestProblemInformation": (23, "byte"), "WillDelayInterval": (24, "u32"),
         "RequestResponseInformation": (25, "byte"), "ResponseInformation": (26, "str"), "ServerReference": (28, "str"), "ReasonString": (31, "str"), "ReceiveMaximum": (33, "u16"),
         "TopicAliasMaximum": (34, "u16"), "TopicAlias": (35, "u16"), "MaximumQoS": (36, "byte"), "RetainAvailable": (37, "byte"), "UserProperty": (38, "pair"),
         "MaximumPacketSize": (39, "u32"), "WildcardSubscriptionAvailable": (40, "byte"), "SubscriptionIdentifierAvailable": (41, "byte"), "SharedSubscriptionAvailable": (42, "byte")}


def u32(x):
    return tuple(("b", ranged(mk("byteof", "be", "u32", x, i), 0, 255)) for i in range(4))


def make(p, v, tag):
    """a property of the kind with unknown value, and its specified encoding"""
    fs = [f for f in p.adts[PROP]["vs"] if f["n"] == v][0]["fs"]
    kind = TABLE[v][1]
    val = {"byte": lambda: (ranged(mk("in", "int", tag), 0, 255),), "u16": lambda: (ranged(mk("in", "int", tag), *INTS["u16"]),), "u32": lambda: (ranged(mk("in", "int", tag), *INTS["u32"]),),
           "vbi": lambda: (ranged(mk("in", "int", tag + "~vbi"), 1, codec.VBI_MAX),), "str": lambda: (mk("in", "str", tag),), "bin": lambda: (mk("in", "bin", tag),),
           "pair": lambda: (mk("in", "str", tag + ".k"), mk("in", "str", tag + ".v"))}[kind]()
    if len(fs) != len(val):
        return None, None
    x = val[0]
    e = {"byte": lambda: byte(x), "u16": lambda: u16(x), "u32": lambda: u32(x), "vbi": lambda: (("v", x),), "str": lambda: data(x), "bin": lambda: data(x), "pair": lambda: data(x) + data(val[1])}[kind]()
    return adt(PROP, v, tuple(f[0] for f in fs), val), byte(K(TABLE[v][0])) + e


def run(c):
    p = c.prog()
    if not c.anchor("property type", [PROP] if PROP in p.adts else []):
        return
    lst = f"std::vec::Vec<{PROP}>"
    enc = [f for f in p.fns.values() if f.nargs == 1 and f.locals[1] in ("&" + lst, f"&[{PROP}]") and f.locals[0] == f"std::result::Result<std::vec::Vec<u8>, {ERR}>" and f.d.get("vis") == "Public"]
    dec = [f for f in p.fns.values() if f.nargs == 1 and f.locals[1] == "&[u8]" and f.locals[0] == f"std::result::Result<({lst}, usize), {ERR}>" and f.d.get("vis") == "Public"]
    if not (c.anchor("property list encoder", enc) & c.anchor("property list decoder", dec)):
        return
    names = [v["n"] for v in p.adts[PROP]["vs"]]
    c.ob("every property of the specification exists", set(names) == set(TABLE), f"missing {sorted(set(TABLE) - set(names))}, unknown {sorted(set(names) - set(TABLE))}")
    n = 0
    for e in enc:
        for d in dec:
            n += pair(c, p, e, d, [v for v in names if v in TABLE])
    c.ob("property lists followed", n >= 50, f"{n} lists")
    for d in dec:
        refused(c, p, d)


def pair(c, p, enc, dec, names):
    n = 0
    lists = [[]] + [[v] for v in names] + [["UserProperty", v] for v in names] + [[v, "UserProperty"] for v in names] + [["UserProperty"] * 3, ["SubscriptionIdentifier"] * 3]
    bad = {}
    C = None
    for i, l in enumerate(lists):
        if i % 12 == 0:
            reset()
            C2, C = C, Coder(p, props=False)
            if C2:
                C.bad += C2.bad
        ps = [make(p, v, f"{v}#{j}") for j, v in enumerate(l)]
        if any(x is None for x, _ in ps):
            bad[(l[-1], "value type")] = "unexpected fields"
            continue
        val = mk("arr", tuple(x for x, _ in ps))
        want = tuple(y for _, e in ps for y in e)
        who = next((v for v in l if v != "UserProperty"), "UserProperty" if l else "no property")
        n += 1
        try:
            es = C.encode(enc, val)
        except codec.absint.Limit as e:
            bad[(who, "encoding")] = str(e)
            continue
        seen = 0
        for s, got, r in es:
            if got is None:
                if codec.short(s, None, val):
                    bad[(who, "accepted")] = show(r)[:100]
                continue
            seen += 1
            diff = agree(s, want, got[1:])
            if diff:
                bad[(who, "encoding")] = f"{'+'.join(l)}: item {diff[0]}: {diff[1]}"
            L = length(total(want))
            if got[:1] != L:
                bad[(who, "list length")] = f"{'+'.join(l)}: {[show(x)[:80] for _, x in got[:1]]} instead of {show(L)[:80]}"
            for s2, r2 in C.decode(dec, got, s):
                good = r2.k == "adt" and r2.a[1] == "Ok" and r2.a[3][0].k == "tup"
                if not good:
                    bad[(who, "decoding")] = f"{'+'.join(l)}: {show(r2)[:120]}"
                    continue
                v, k = r2.a[3][0].a[0]
                if not codec.matches(s2, val, v) or not codec.matches(s2, total(got), k):
                    bad[(who, "decoding")] = f"{'+'.join(l)}: {show(v)[:120]}, {show(k)[:40]} consumed"
        if not seen:
            bad[(who, "accepted")] = "never encoded"
    for who in ["no property"] + names:
        for what in ("accepted", "encoding", "list length", "decoding"):
            c.ob(f"{who}: {what}", (who, what) not in bad, bad.get((who, what), "as specified"), enc.file)
    c.ob("lengths and subscription identifiers fit a variable byte integer", not C.bad, f"not bounded in {sorted(set(C.bad))}" if C.bad else "checked before")
    c.count("property lists", n)
    return n


def refused(c, p, dec):
    """identifiers outside the table, and values that are cut short"""
    ids = {i for i, _ in TABLE.values()}
    accepted = []
    for i in range(128):
        if i in ids:
            continue
        if i % 16 == 0:
            reset()
        C = Coder(p, props=False)
        ps = (("b", K(2)), ("b", K(i)), ("b", ranged(mk("in", "int", "first byte of the value"), 0, 255)))
        if any(not (r.k == "adt" and r.a[1] == "Err") for _, r in C.decode(dec, ps, codec.absint.St())):
            accepted.append(i)
    c.ob("identifiers the specification does not define are refused", not accepted, f"{accepted} accepted" if accepted else f"{128 - len(ids)} identifiers", dec.file)
    cut = []
    for v, (i, kind) in sorted(TABLE.items()):
        reset()
        C = Coder(p, props=False)
        # the value is missing its last byte; further bytes follow the list
        n = {"byte": 0, "u16": 1, "u32": 3}.get(kind)
        if n is None:
            continue
        b = lambda j: ("b", ranged(mk("in", "int", f"byte {j}"), 0, 255))
        ps = (("b", K(1 + n)), ("b", K(i))) + tuple(b(j) for j in range(n)) + tuple(b(10 + j) for j in range(6))
        if any(not (r.k == "adt" and r.a[1] == "Err") for _, r in C.decode(dec, ps, codec.absint.St())):
            cut.append(v)
    c.ob("a property whose value does not fit in the list is refused", not cut, f"{cut} accepted" if cut else "each fixed-size kind", dec.file)
