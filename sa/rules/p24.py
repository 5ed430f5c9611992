"""A packet relayed through protobuf arrives unchanged."""
import re
import absint, codec
from codec import Coder, PKT, PROP, value_of, elems
from rules import p06
from terms import *

RULE = ("Abstract composition of the two conversions between packets and gRPC stream messages: the packet converted to a message is interpreted on symbolic packets of every type and shape, the way back on each resulting message. "
        "Every outcome must be a packet that is equal to the original or has the same encoding (compared as symbolic bytes). Property lists and byte lists enter as unknown lists: the element conversions of the two directions, found where the lists are "
        "mapped, are interpreted on an unknown element of each kind and must be inverse and never drop it; lists taken apart by a loop are instead followed with one list that has every kind of element.")
MSG = "mqtt_grpc_proxy::mqtt_unified_pb::MqttStreamMessage"


def impls(p):
    """{(source type, target type): function} of the From and TryFrom conversions"""
    out = {}
    for f in p.fns.values():
        m = re.search(r"<impl std::convert::(?:Try)?From<(.*)> for (.*)>::(?:try_)?from$", f.id) or re.match(r"<(?P<d>.*) as std::convert::(?:Try)?From<(?P<s>.*)>>::(?:try_)?from$", f.id)
        if m:
            s, d = (m.group("s"), m.group("d")) if "d" in m.re.groupindex else (m.group(1), m.group(2))
            out[(s, d)] = f
    return out


class Conv:
    def __init__(self, p):
        self.p, self.im = p, impls(p)
        self.lost = {}                # what an element conversion loses
        self.pairs = {}
        self.hooks = [(re.compile(r"^(<T as std::convert::Into<U>>::into|std::convert::Into::into|std::convert::TryInto::try_into|<T as std::convert::TryInto<U>>::try_into)$"), self.into),
                      (re.compile(r"(IntoIterator>::into_iter|IntoIterator::into_iter)$"), self.iter),
                      (re.compile(r"Iterator(>|)::(map|filter_map)$"), self.map),
                      (re.compile(r"Iterator(>|)::collect$"), self.collect)]

    def into(self, I, st, fr, name, args, t, site):
        f = t["f"]
        g = f["g"]
        v = args[0]
        src = [v.a[0]] if v.k == "adt" else []
        src += [g[0]] if len(g) > 1 else []
        dst = g[1] if len(g) > 1 else None
        for s in src:
            fn = self.im.get((s, dst))
            if fn is None and (dst is None or re.match(r"[A-Z]\w*$", dst)):
                # the target is a type parameter: the only conversion there is
                c = [x for (a, b), x in self.im.items() if a == s]
                fn = c[0] if len(c) == 1 else None
            if fn is not None:
                return I.call_fn(fn, args, st, mk("conv", site))
        return None

    def iter(self, I, st, fr, name, args, t, site):
        v = codec.norm(value_of(I, st, args[0]))
        if v.k == "in" and v.a[0] in ("props", "bin") or v.k == "conv2":
            return [(st, v)]
        return None

    def map(self, I, st, fr, name, args, t, site):
        v = args[0]
        filt = name.endswith("filter_map")
        if v.k in ("in", "conv2"):
            if v.k == "in":
                return [(st, mk("conv2", v, args[1], K(1 if filt else 0)))]
            return [(st, v.a[0] if self.inverse(I, fr, st, site, v, args[1], filt, t) else mk("in", "changed list", site))]
        if v.k != "kiter":
            return None
        arr, pos, by_ref = v.a
        sts = [(st, ())]
        for e in arr.a[0][pos:]:
            out = []
            for s, acc in sts:
                for s2, r in I.invoke(fr, s, site, args[1], [e], t, 0):
                    if not filt:
                        out.append((s2, acc + (r,)))
                    elif r.k == "adt" and r.a[1] in ("None", "Some"):
                        out.append((s2, acc + tuple(r.a[3])))
                    else:
                        return None
            sts = out
        return [(s, mk("kiter", mk("arr", acc), 0, False)) for s, acc in sts]

    def collect(self, I, st, fr, name, args, t, site):
        v = args[0]
        if v.k == "kiter":
            return [(st, mk("arr", v.a[0].a[0][v.a[1]:]))]
        return [(st, v)] if v.k in ("in", "conv2") else None

    def inverse(self, I, fr, st, site, v, clos, filt, t):
        key = (v.a[0].a[0], v.a[1], v.a[2], clos, filt)
        if key in self.pairs:
            return self.pairs[key]
        good = True
        for what, e in elements(self.p, v.a[0]):
            ok_ = 0
            bad = None
            for s, x in I.invoke(fr, st.copy(), site, v.a[1], [e], t, 0):
                if v.a[2] is K(1):
                    if x.k != "adt" or x.a[1] != "Some":
                        bad = "is dropped"
                        continue
                    x = x.a[3][0]
                for s2, y in I.invoke(fr, s, site, clos, [x], t, 0):
                    if filt:
                        if y.k != "adt" or y.a[1] != "Some":
                            bad = "is dropped on the way back"
                            continue
                        y = y.a[3][0]
                    ok_ += 1
                    if not codec.matches(s2, e, y):
                        bad = f"comes back as {show(y)[:120]} instead of {show(e)[:80]}"
            if bad or not ok_:
                good = False
                self.lost[what] = bad or "has no outcome"
            else:
                self.lost.setdefault(what, None)
        self.pairs[key] = good
        return good


def elements(p, lst):
    """one unknown element of each kind"""
    if lst.a[0] == "bin":
        yield "code", ranged(mk("in", "int", "code"), 0, 255)
        return
    for v in sorted(x["n"] for x in p.adts[PROP]["vs"]):
        x, _ = p06.make(p, v, v)
        if p06.TABLE[v][1] == "byte":
            for k in (0, 1):
                yield f"{v}", adt(PROP, v, x.a[2], (K(k),))
        else:
            yield v, x


def run(c):
    p = c.prog()
    to = [f for f in p.fns.values() if f.id.startswith("mqtt_grpc_proxy::") and f.nargs >= 1 and f.locals[1] == "&" + PKT and MSG in f.locals[0]]
    fro = [f for f in p.fns.values() if f.id.startswith("mqtt_grpc_proxy::") and f.nargs == 1 and f.locals[1] == MSG and PKT in f.locals[0]]
    enc = p.fns.get(PKT + "::to_bytes")
    if not (c.anchor("conversion of packets to stream messages", to) & c.anchor("conversion of stream messages to packets", fro) & c.anchor("packet encoder", [enc] if enc else [])):
        return
    n = 0
    lost = {}
    for f in to:
        for g in fro:
            for v in p.adts[PKT]["vs"]:
                n += variant(c, p, f, g, enc, v["n"], lost)
    for what, bad in sorted(lost.items()):
        c.ob(f"element {what}: converted there and back", not bad, bad or "unchanged", to[0].file)
    c.ob("element conversions followed", len(lost) >= 28, f"{len(lost)} kinds of list elements")
    c.count("packet shapes followed", n)
    c.ob("packet shapes followed", n >= 200, f"{n} shapes")


def variant(c, p, f, g, enc, name, lost):
    reset()
    cv = Conv(p)
    C = Coder(p)
    C.hooks = cv.hooks + C.hooks
    bad, n = {}, 0
    pks = codec.packets(p, name)
    if name == "Connect3":
        # the older level of the protocol
        pks += [mk("adt", *pk.a[:3], (codec.with_field(codec.with_field(pk.a[3][0], "protocol_name", mk("s", "MQIsdp")), "protocol_version", K(3)),)) for pk in pks]
    for pk in pks:
        for sub, st in cases(pk):
            n += 1
            b = compare(p, C, f, g, enc, pk, st)
            if b:
                # lists handled one element at a time: with a list that has every kind of element
                kinds = spelled(p, pk)
                C.unroll = 45
                good = kinds is not pk and not compare(p, C, f, g, enc, kinds, st)
                del C.unroll
                if good:
                    b = None
                    for what, _ in elements(p, mk("in", "props")):
                        cv.lost.setdefault(what, None)
                    cv.lost.setdefault("code", None)
            bad[sub] = bad.get(sub) or b
    for sub, b in sorted(bad.items()):
        c.ob(f"{name}{sub}: relayed unchanged", not b, b or "every shape", g.file)
    for k, v in cv.lost.items():
        lost[k] = lost.get(k) or v
    return n


def compare(p, C, f, g, enc, pk, st):
    """how what comes back differs from the packet, or None"""
    try:
        outs = there_and_back(p, C, f, g, pk, st)
    except absint.Limit as e:
        return str(e)
    for s, r in outs:
        if r.k != "adt" or r.a[1] != "Some":
            return f"{codec.describe(pk.a[3][0])}: no packet comes back"
        if not codec.matches(s, pk, r.a[3][0]) and not same_bytes(C, enc, s, pk, r.a[3][0]):
            from rules.p07 import differ
            return f"{codec.describe(pk.a[3][0])}: comes back with {differ(s, pk, r.a[3][0])}"
    return None if outs else "no outcome"


def spelled(p, t):
    """the value with its unknown lists of properties and codes written out"""
    if t.k == "in" and t.a[0] == "props":
        return mk("arr", tuple(x for _, x in elements(p, t)) + tuple(x for w, x in elements(p, t) if w == "UserProperty"))
    if t.k == "adt":
        vals = tuple(mk("arr", tuple(ranged(mk("in", "int", f"code{i}"), 0, 255) for i in range(3))) if n.endswith("codes") and v.k == "in" else spelled(p, v) for n, v in zip(t.a[2], t.a[3]))
        return t if vals == t.a[3] else mk("adt", *t.a[:3], vals)
    return t


def cases(pk):
    """the packet with user name and password not empty, and with each empty"""
    st = absint.St()
    codec.facts(st, pk)
    b = pk.a[3][0]
    for x in subterms(pk):            # the only values this flag may have
        if x.k == "in" and str(x.a[-1]).endswith("payload_format_indicator"):
            absint.add_ge(st, ladd(K(1), x, -1))
    opts = [n for n in ("username", "password") if n in b.a[2] and codec.fget(b, n).a[1] == "Some"]
    full = st.copy()
    for n in opts:
        absint.add_ge(full, ladd(absint.len_of(codec.fget(b, n).a[3][0]), K(-1)))
    yield "", full
    for n in opts:
        e = full.copy()
        e = st.copy()
        absint.set_eq(e, absint.len_of(codec.fget(b, n).a[3][0]), 0)
        yield f" with an empty {n}", e


def there_and_back(p, C, f, g, pk, st):
    def prep(I, s, a):
        absint.write(s, a[0].a[0], pk)
    I, a, outs = C.run(f, {}, prep, st)
    res = []
    for s, r in outs:
        if r.k == "adt" and r.a[0] == "std::option::Option":
            if r.a[1] == "None":
                res.append((s, r))
                continue
            r = r.a[3][0]
        res += C.run(g, {0: r}, None, s)[2]
    return res


def deep(st, t):
    """the value with its lists in one form and what is known about its numbers put in"""
    if not isinstance(t, T):
        return t
    if absint.isnum(t):
        c, d = lin(t)
        r = K(c)
        for x, n in d.items():
            y = codec.plen(("p", deep(st, x.a[0]))) if x.k == "plen" else x
            r = ladd(r, y, n)
        if r.k == "in":
            for v in (0, 1):
                if absint.prove(st, lsub(r, K(v))) and absint.prove(st, lsub(K(v), r)):
                    return K(v)
        return r
    es = elems(t)
    if es is not None:
        return mk("arr", tuple(deep(st, x) for x in es))
    if t.k == "adt":
        return mk("adt", *t.a[:3], tuple(deep(st, x) for x in t.a[3]))
    return t


def same_bytes(C, enc, s, a, b):
    def bytes_(x):
        def prep(I, st, args):
            absint.write(st, args[0].a[0], x)
        out = []
        for s2, r in C.run(enc, {}, prep, s)[2]:
            if r.k == "adt" and r.a[1] == "Ok":
                out.append((s2, tuple((k, deep(s2, x)) for k, x in codec.settle(s2, codec.pieces(r.a[3][0])))))
            else:
                out.append((s2, None))
        return out
    xs, ys = bytes_(a), bytes_(b)
    # the same decisions are made on equal contents
    return bool(xs) and {q for _, q in xs} == {q for _, q in ys}
