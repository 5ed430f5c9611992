"""The encoders' output as a sequence of pieces, and the decoders run on it.

An encoder run on a symbolic packet builds a byte sequence out of pushes and extensions; `pieces` flattens it into
    ("b", x)   one byte            ("q", s)   the bytes of the string / binary value s
    ("v", x)   x as a variable byte integer    ("p", P)   a property list P with its length in front
and mk("toks", pieces) is that sequence as a value the decoder can be run on: slices of it that start and end at
piece boundaries are resolved back to the pieces they consist of."""
import itertools, re
import absint, engine, frames
from absint import prove, read, write, len_of
from engine import PKT, Cl
from terms import *

VBI_MAX = 268435455
VBI_ENC = "flowsdk::mqtt_serde::base_data::VariableByteInteger::encode"
VBI_DEC = "flowsdk::mqtt_serde::base_data::VariableByteInteger::decode"
PROP = "flowsdk::mqtt_serde::mqttv5::common::properties::Property"
ERR = "flowsdk::mqtt_serde::parser::ParseError"


# ---------------------------------------------------------------- pieces
def plen(x):
    k, t = x
    if k == "b":
        return K(1)
    if k == "q":
        return len_of(t)
    if k == "v":
        return vlen(t)
    return ranged(mk("plen", t), 1, VBI_MAX + 4)


def vlen(x):
    if x.k == "k":
        v, n = x.a[0], 1
        while v >= 128:
            v, n = v // 128, n + 1
        return K(n)
    return ranged(mk("vblen", x), 1, 4)


def total(ps):
    n = K(0)
    for x in ps:
        n = ladd(n, plen(x))
    return n


def pieces(t):
    k = t.k
    if k == "vnew":
        return ()
    if k == "toks":
        return t.a[0]
    if k == "vpush":
        return pieces(t.a[0]) + (("b", byte(t.a[1])),)
    if k == "vext":
        return pieces(t.a[0]) + pieces(t.a[1])
    if k == "arr":
        return tuple(("b", byte(x)) for x in t.a[0])
    if k == "rep" and t.a[1].k == "k" and t.a[1].a[0] < 16:
        return (("b", t.a[0]),) * t.a[1].a[0]
    if k in ("copyof", "slv"):
        return pieces(t.a[0])
    if k == "sl":
        ps = pieces(t.a[0])
        r = cut(ps, t.a[1], t.a[2])
        return r if r is not None else (("q", t),)
    if k == "vbi":
        return (("b", t.a[0]),) if t.a[0].k == "k" and t.a[0].a[0] < 128 else (("v", t.a[0]),)
    if k == "pseq":
        return (("p", t.a[0]),)
    return (("q", t),)


def byte(x):
    """a byte cut out of a wider integer by shifts, masks and casts, in one form"""
    sh, y = 0, x
    while True:
        if y.k == "cast" and y.a[0] == "u8":
            y = y.a[1]
        elif y.k == "bin" and y.a[0] == "BitAnd" and y.a[2] is K(255):
            y = y.a[1]
        else:
            break
    if y.k == "bin" and y.a[0] == "Shr" and y.a[2].k == "k":
        sh, y = y.a[2].a[0], y.a[1]
    if (y is x or not absint.isnum(y)) or sh % 8:
        return x
    l, h = bounds(y)
    if l is None or h is None or l < 0:
        return x
    ty, n = ("u16", 2) if h <= 65535 else ("u32", 4) if h < 2 ** 32 else ("u64", 8)
    if h <= 255 or sh // 8 >= n:
        return x
    return ranged(mk("byteof", "be", ty, y, n - 1 - sh // 8), 0, 255)


def settle(st, ps):
    """pieces with the bytes of integers in one form, given what is known about the integers"""
    out = []
    for k, x in ps:
        if k == "b" and x.k == "byteof" and x.a[0] == "be" and x.a[1] in ("u64", "usize", "u32"):
            _, ty, y, i = x.a
            low = {"u32": 3}.get(ty, 7) - i
            for t, n in (("u16", 2), ("u32", 4)):
                if t != ty and low < n and prove(st, ladd(K(256 ** n - 1), y, -1)):
                    x = ranged(mk("byteof", "be", t, y, n - 1 - low), 0, 255)
                    break
        out.append((k, x))
    return tuple(out)


def cut(ps, off, n):
    """the pieces of ps between off and off+n, or None if the ends are not at piece boundaries"""
    end = ladd(off, n)
    pos, out, on = K(0), [], off.k == "k" and off.a[0] == 0
    if on and n.k == "k" and n.a[0] == 0:
        return ()
    for x in ps:
        if not on and pos is off:
            on = True
        if on and pos is end:
            return tuple(out)
        if on:
            out.append(x)
        pos = ladd(pos, plen(x))
    return tuple(out) if (on or pos is off) and pos is end else None


def at(ps, off):
    """the pieces from off on"""
    pos = K(0)
    for i, x in enumerate(ps):
        if pos is off:
            return ps[i:]
        pos = ladd(pos, plen(x))
    return () if pos is off else None


def value(ps):
    """the sequence value made of these pieces"""
    if not ps:
        return mk("vnew")
    if len(ps) == 1 and ps[0][0] == "q":
        return ps[0][1]
    if all(k == "b" for k, _ in ps):
        return mk("arr", tuple(x for _, x in ps))
    return mk("toks", tuple(ps))


def norm(t):
    """a copied slice of a token sequence is the pieces it covers"""
    s = t
    while s.k in ("copyof", "slv"):
        s = s.a[0]
    if s.k == "sl" and s.a[0].k in ("toks", "arr"):
        r = cut(pieces(s.a[0]), s.a[1], s.a[2])
        if r is not None:
            return value(r)
    return t


def elem(base, i):
    """element i of a token sequence"""
    ps = at(base.a[0], i)
    if ps and ps[0][0] == "b":
        return ps[0][1]
    return None


def elems(t):
    """the elements of a list value, or None"""
    if t.k == "vnew":
        return ()
    if t.k == "arr":
        return t.a[0]
    if t.k == "vpush":
        r = elems(t.a[0])
        return None if r is None else r + (t.a[1],)
    if t.k == "vext":
        a, b = elems(t.a[0]), elems(t.a[1])
        return None if a is None or b is None else a + tuple(b)
    if t.k == "copyof":
        return elems(t.a[0])
    if t.k == "sl" and t.a[1].k == "k" and t.a[2].k == "k":
        r = elems(t.a[0])
        return None if r is None else r[t.a[1].a[0]:t.a[1].a[0] + t.a[2].a[0]]
    return None


# ---------------------------------------------------------------- hooks
def value_of(I, st, a, n=6):
    while a.k == "ref" and n:
        a = read(st, a.a[0])
        n -= 1
    return a


def h_vbi_enc(bad):
    def h(I, st, fr, name, args, t, site):
        x = value_of(I, st, args[0])
        if not prove(st, ladd(K(VBI_MAX), x, -1)):
            bad.append(fr.fn.id)
        return [(st, mk("vbi", x))]
    return h


def h_vbi_dec(I, st, fr, name, args, t, site):
    s = absint.base_slice(value_of(I, st, args[0]))
    if s.k == "sl" and s.a[0].k == "toks":
        ps = at(s.a[0].a[0], s.a[1])
        if ps:
            k, x = ps[0]
            if k == "v" or k == "b" and x.k == "k" and x.a[0] < 128:
                n = vlen(x)
                if prove(st, lsub(s.a[2], n)):
                    return [(st, ok(mk("tup", (x, n))))]
    return [(st, err(mk("in", "not a variable byte integer of the encoder", site)))]


def h_props_enc(I, st, fr, name, args, t, site):
    return [(st, ok(mk("pseq", value_of(I, st, args[0]))))]


def h_props_dec(I, st, fr, name, args, t, site):
    s = absint.base_slice(value_of(I, st, args[0]))
    if s.k == "sl" and s.a[0].k == "toks":
        ps = at(s.a[0].a[0], s.a[1])
        if ps and ps[0][0] == "p":
            n = plen(ps[0])
            if prove(st, lsub(s.a[2], n)):
                return [(st, ok(mk("tup", (ps[0][1], n))))]
    return [(st, err(mk("in", "not a property list of the encoder", site)))]


def h_iter(I, st, fr, name, args, t, site):
    by_ref = args[0].k in ("ref", "sl")
    v = value_of(I, st, args[0])
    if v.k == "kiter":
        return [(st, v)]
    e = elems(v)
    if e is None:
        if v.k == "in" and v.a[0] == "props":
            # the properties of a valid packet: looked at as a whole only
            return None
        return None
    return [(st, mk("kiter", mk("arr", tuple(e)), 0, by_ref))]


def h_next(I, st, fr, name, args, t, site):
    a = args[0]
    while a.k == "ref":
        v = read(st, a.a[0])
        if v.k != "ref":
            break
        a = v
    if a.k != "ref" or v.k != "kiter":
        return None
    arr, pos, by_ref = v.a
    if pos >= len(arr.a[0]):
        return [(st, NONE)]
    write(st, a.a[0], mk("kiter", arr, pos + 1, by_ref))
    if by_ref:
        return [(st, some(mk("ref", (("T", mk("sl", arr, K(0), K(len(arr.a[0])))), ("i", K(pos))), 0)))]
    return [(st, some(arr.a[0][pos]))]


def h_utf8(I, st, fr, name, args, t, site):
    v = norm(value_of(I, st, args[0]))
    if v.k == "in" and v.a[0] == "str" or v.k == "s" or v.k == "vnew":
        return [(st, ok(v))]
    return None


def h_copy(I, st, fr, name, args, t, site):
    v = value_of(I, st, args[0])
    n = norm(v)
    return [(st, n)] if n is not v else None


def h_int(I, st, fr, name, args, t, site):
    """from_be_bytes of the bytes of to_be_bytes"""
    v = norm(value_of(I, st, args[0]))
    if v.k == "arr":
        x = joined(v.a[0])
        if x is not None:
            return [(st, x)]
    return None


def joined(bs):
    if all(b.k == "byteof" for b in bs):
        e, ty, x, _ = bs[0].a
        if [b.a for b in bs] == [(e, ty, x, i) for i in range(len(bs))] and e == "be" and INTS[ty][1].bit_length() == 8 * len(bs):
            return x
    if all(b.k == "k" for b in bs):
        v = 0
        for b in bs:
            v = v * 256 + b.a[0]
        return K(v)
    return None


def h_to_be(I, st, fr, name, args, t, site):
    x = args[0]
    if x.k == "k" and "be" in name:
        n = {"u8": 1, "u16": 2, "u32": 4, "u64": 8}.get(re.search(r"impl (\w+)>", name).group(1))
        if n:
            return [(st, mk("arr", tuple(K(b) for b in x.a[0].to_bytes(n, "big"))))]
    return None


def h_put(I, st, fr, name, args, t, site):
    """bytes::BufMut::put_u16 and the like"""
    ty = re.search(r"put_(u16|u32|u64)$", name).group(1)
    n = {"u16": 2, "u32": 4, "u64": 8}[ty]
    a = args[0]
    while a.k == "ref" and read(st, a.a[0]).k == "ref":
        a = read(st, a.a[0])
    if a.k != "ref":
        return None
    x = args[1]
    bs = tuple(K(b) for b in x.a[0].to_bytes(n, "big")) if x.k == "k" else tuple(ranged(mk("byteof", "be", ty, x, i), 0, 255) for i in range(n))
    write(st, a.a[0], mk("vext", read(st, a.a[0]), mk("arr", bs)))
    return [(st, UNIT)]


def h_concat(I, st, fr, name, args, t, site):
    """[a, b, c].concat()"""
    e = elems(value_of(I, st, args[0]))
    if e is None:
        return None
    v = mk("vnew")
    for x in e:
        v = mk("vext", v, norm(value_of(I, st, x)))
    return [(st, v)]


def lit(I, st, x):
    v = norm(value_of(I, st, x))
    if v.k == "sl" and v.a[0].k == "s" and v.a[1].k == "k" and v.a[2].k == "k":
        return v.a[0].a[0].encode()[v.a[1].a[0]:v.a[1].a[0] + v.a[2].a[0]].decode(errors="replace")
    return v.a[0] if v.k == "s" else None


def h_test(I, st, fr, name, args, t, site):
    """contains, starts_with, ends_with: exact on literals; the unknown strings of a packet have nothing that is looked for"""
    x = lit(I, st, args[0])
    if x is None:
        return [(st, NONE if name.endswith("find") else FALSE)]
    pat = value_of(I, st, args[1])
    op = name.rsplit("::", 1)[1]
    if pat.k in ("clos", "fn") and op != "find":
        cs = tuple(K(ord(y)) for y in x)
        return h_any(I, st, fr, name, [mk("kiter", mk("arr", cs if op == "contains" else cs[:1] if op == "starts_with" else cs[-1:]), 0, False), args[1]], t, site)
    y = lit(I, st, pat)
    e = elems(pat) if y is None else None
    pats = [y] if y is not None else [chr(pat.a[0])] if pat.k == "k" else [chr(y.a[0]) for y in e] if e and all(y.k == "k" for y in e) else None
    if pats is None:
        return None
    if op == "find":
        r = [i for i in (x.find(y) for y in pats) if i >= 0]
        return [(st, some(K(len(x[:min(r)].encode()))) if r else NONE)]
    f = {"contains": str.__contains__, "starts_with": str.startswith, "ends_with": str.endswith}[op]
    return [(st, K(int(any(f(x, y) for y in pats))))]


def h_chars(I, st, fr, name, args, t, site):
    x = lit(I, st, args[0])
    if x is None:
        return [(st, mk("chars", norm(value_of(I, st, args[0]))))]
    return [(st, mk("kiter", mk("arr", tuple(K(b) for b in (x.encode() if name.endswith("bytes") else map(ord, x)))), 0, name.endswith("as_bytes")))]


def h_any(I, st, fr, name, args, t, site):
    v = value_of(I, st, args[0])
    if v.k == "chars":
        return [(st, FALSE)]
    if v.k != "kiter":
        return None
    arr, pos, by_ref = v.a
    todo, out = [st], []
    for i in range(pos, len(arr.a[0])):
        e = mk("ref", (("T", mk("sl", arr, K(0), K(len(arr.a[0])))), ("i", K(i))), 0) if by_ref else arr.a[0][i]
        nxt = []
        for s in todo:
            for s2, r in I.invoke(fr, s, site, args[1], [e], t, 0):
                y = s2.copy()
                if absint.assume(y, r, True):
                    out.append((y, TRUE))
                if absint.assume(s2, r, False):
                    nxt.append(s2)
        todo = nxt
    return out + [(s, FALSE) for s in todo]


def h_ok(I, st, fr, name, args, t, site):
    return [(st, ok(UNIT))]


def hooks(p, bad, props=True):
    valid = [f.id for f in p.fns.values() if f.nargs == 1 and f.locals[1] == "&str" and f.locals[0] == f"std::result::Result<(), {ERR}>"]
    out = [(re.compile("^" + re.escape(VBI_ENC) + "$"), h_vbi_enc(bad)), (re.compile("^" + re.escape(VBI_DEC) + "$"), h_vbi_dec)]
    if valid:
        out.append((re.compile("^(" + "|".join(map(re.escape, valid)) + ")$"), h_ok))
    if props:
        enc = [f.id for f in p.fns.values() if f.nargs == 1 and re.match(r"&(std::vec::Vec<%s>|\[%s\])$" % (re.escape(PROP), re.escape(PROP)), f.locals[1])
               and f.locals[0] == f"std::result::Result<std::vec::Vec<u8>, {ERR}>"]
        dec = [f.id for f in p.fns.values() if f.nargs == 1 and f.locals[1] == "&[u8]" and f.locals[0] == f"std::result::Result<(std::vec::Vec<{PROP}>, usize), {ERR}>"
               and f.d.get("vis") == "Public"]
        out += [(re.compile("^" + re.escape(i) + "$"), h_props_enc) for i in enc] + [(re.compile("^" + re.escape(i) + "$"), h_props_dec) for i in dec]
    out += [(re.compile(r"as std::iter::IntoIterator>::into_iter$|<impl \[T\]>::iter$|Vec::<T, A>::iter$|<I as std::iter::IntoIterator>::into_iter$"), h_iter),
            (re.compile(r"as std::iter::Iterator>::next$|^std::iter::Iterator::next$"), h_next),
            (re.compile(r"::from_utf8$"), h_utf8),
            (re.compile(r"::to_vec$|::to_owned$|<std::vec::Vec<T> as std::convert::From<&.*>>::from$|::to_string$"), h_copy),
            (re.compile(r"::from_be_bytes$"), h_int), (re.compile(r"::to_be_bytes$"), h_to_be),
            (re.compile(r"::put_(u16|u32|u64)$"), h_put), (re.compile(r"::concat$"), h_concat),
            (re.compile(r"<impl str>::(contains|starts_with|ends_with|find)$"), h_test), (re.compile(r"<impl str>::(chars|bytes)$"), h_chars),
            (re.compile(r"as std::iter::Iterator>::any$|^std::iter::Iterator::any$"), h_any)]
    return out


# ---------------------------------------------------------------- symbolic packets
def variants_of(p, ty, path, nested=True):
    """values of the type that between them stand for every well-formed one: [term]"""
    leaf = path.rsplit(".", 1)[-1]
    if ty == "bool":
        return [FALSE, TRUE]
    if ty == "u8" and leaf in ("qos", "will_qos", "retain_handling"):
        return [K(0), K(1), K(2)]
    if ty == "u8" and leaf == "return_code":
        return [K(i) for i in range(6)]
    if ty in INTS:
        return [ranged(mk("in", "int", path), *INTS[ty])]
    if ty == "std::string::String":
        return [mk("in", "str", path)]
    if ty == "std::vec::Vec<u8>":
        if leaf == "return_codes":
            # the return codes of an MQTT 3.1.1 SUBACK
            return [mk("arr", tuple(K(x) for x in l)) for l in ((0,), (1,), (2,), (128,), (0, 1), (2, 128), (128, 0))]
        return [mk("in", "bin", path)]
    if ty == f"std::vec::Vec<{PROP}>":
        if leaf == "user_properties":
            up = lambda i: adt(PROP, "UserProperty", ("0", "1"), (mk("in", "str", f"{path}.{i}.k"), mk("in", "str", f"{path}.{i}.v")))
            return [mk("arr", ()), mk("arr", (up(0), up(1)))]
        return [mk("in", "props", path)]
    m = re.match(r"std::option::Option<(.*)>$", ty)
    if m:
        return [NONE] + [some(x) for x in variants_of(p, m.group(1), path)]
    m = re.match(r"std::vec::Vec<(.*)>$", ty)
    if m:
        e = variants_of(p, m.group(1), path + "[0]")
        f = variants_of(p, m.group(1), path + "[1]")
        return [mk("arr", (x,)) for x in e] + [mk("arr", (e[0], f[-1])), mk("arr", (e[-1], f[0]))]
    if ty in p.adts and len(p.adts[ty]["vs"]) == 1:
        fs = p.adts[ty]["vs"][0]["fs"]
        vs = [variants_of(p, f[1], path + "." + f[0]) for f in fs]
        out = []
        for ix in cover([len(v) for v in vs]):
            out.append(adt(ty, p.adts[ty]["vs"][0]["n"], tuple(f[0] for f in fs), tuple(v[i] for v, i in zip(vs, ix))))
        return out
    return [mk("in", "any", path)]


def cover(ns, cap=64):
    """index tuples over dimensions of the given sizes: all of them if they are few, else every pair of choices in two dimensions"""
    tot = 1
    for n in ns:
        tot *= n
    if tot <= cap:
        return list(itertools.product(*map(range, ns)))
    todo = {(i, a, j, b) for i in range(len(ns)) for j in range(i + 1, len(ns)) for a in range(ns[i]) for b in range(ns[j])}
    out = [tuple(0 for _ in ns), tuple(n - 1 for n in ns)]
    pairs = lambda x: {(i, x[i], j, x[j]) for i in range(len(ns)) for j in range(i + 1, len(ns))}
    for x in out:
        todo -= pairs(x)
    while todo:
        i, a, j, b = min(todo)
        x = [None] * len(ns)
        x[i], x[j] = a, b
        for k in range(len(ns)):
            if x[k] is None:
                def gain(v):
                    return sum(1 for m in range(len(ns)) if x[m] is not None and ((k, v, m, x[m]) in todo or (m, x[m], k, v) in todo))
                x[k] = max(range(ns[k]), key=lambda v: (gain(v), -v))
        x = tuple(x)
        todo -= pairs(x)
        out.append(x)
    return out


def fget(t, n):
    return t.a[3][t.a[2].index(n)] if n in t.a[2] else None


def with_field(t, n, v):
    vals = list(t.a[3])
    vals[t.a[2].index(n)] = v
    return adt(t.a[0], t.a[1], t.a[2], tuple(vals))


def packets(p, variant):
    """well-formed packets of the variant"""
    v = [x for x in p.adts[PKT]["vs"] if x["n"] == variant][0]
    ty = v["fs"][0][1]
    out = []
    for b in variants_of(p, ty, variant):
        names = b.a[2]
        if "protocol_name" in names:
            b = with_field(b, "protocol_name", mk("s", "MQTT"))
            b = with_field(b, "protocol_version", K(5 if variant.endswith("5") else 4))
        pid = next((n for n in ("packet_id", "message_id") if n in names), None)
        if "qos" in names and pid:
            if (fget(b, pid).a[1] == "Some") != (fget(b, "qos") is not K(0)):
                continue
            if fget(b, "qos") is K(0) and fget(b, "dup") is TRUE:
                continue
        if variant == "Connect3" and fget(b, "password").a[1] == "Some" and fget(b, "username").a[1] == "None":
            continue
        if "session_present" in names and fget(b, "session_present") is TRUE:
            # session present goes with success only
            n = "reason_code" if "reason_code" in names else "return_code"
            if fget(b, n).k == "k" and fget(b, n) is not K(0):
                continue
            b = with_field(b, n, K(0))
        out.append(adt(PKT, variant, tuple(f[0] for f in v["fs"]), (b,)))
    return out


def facts(st, pk):
    """what a well-formed packet satisfies"""
    for t in subterms(pk):
        if t.k == "in" and t.a[0] == "str" and re.search(r"topic", t.a[1]):
            absint.add_ge(st, ladd(len_of(t), K(-1)))
        if t.k == "in" and t.a[0] == "int" and re.search(r"\.(packet_id|message_id)$", t.a[1]):
            absint.add_ge(st, ladd(t, K(-1)))
        if t.k == "in" and t.a[0] == "bin" and re.search(r"\.reason_codes$", t.a[1]):
            absint.add_ge(st, ladd(len_of(t), K(-1)))


def describe(t):
    """short description of a packet shape"""
    if t.k == "adt":
        if t.a[1] in ("None", "Some"):
            return t.a[1] if not t.a[3] else "Some(" + describe(t.a[3][0]) + ")"
        fs = [f"{n}={describe(v)}" for n, v in zip(t.a[2], t.a[3]) if v.k in ("k", "adt", "arr")]
        return "{" + ", ".join(fs) + "}" if fs else "*"
    if t.k == "k":
        return str(t.a[0])
    if t.k == "arr":
        return "[" + ", ".join(describe(x) for x in t.a[0]) + "]"
    return "*"


def matches(st, a, b):
    """the decoded value b is the original a"""
    if a is b:
        return True
    b = norm(b)
    if a is b:
        return True
    if absint.isnum(a) and absint.isnum(b):
        return prove(st, lsub(a, b)) and prove(st, lsub(b, a))
    if b.k == "cst" and a.k == "adt" and not a.a[3]:
        return b.a[0] == a.a[0]
    if a.k == "adt" and b.k == "adt":
        if a.a[1] != b.a[1] or a.a[0] != b.a[0]:
            if a.a[1] == "Some" and b.a[1] == "None" and a.a[3][0].k == "in" and a.a[3][0].a[0] == "props":
                return empty(st, a.a[3][0])
            if a.a[1] == "None" and b.a[1] == "Some":
                return b.a[3][0].k == "vnew"
            return False
        return len(a.a[3]) == len(b.a[3]) and all(matches(st, x, y) for x, y in zip(a.a[3], b.a[3]))
    ea, eb = elems(a), elems(b)
    if ea is not None and eb is not None:
        return len(ea) == len(eb) and all(matches(st, x, y) for x, y in zip(ea, eb))
    if eb == ():
        return empty(st, a)
    if ea == ():
        return empty(st, b)
    if pieces(a) == pieces(b):
        return True
    return False


def empty(st, t):
    return prove(st, lsub(K(0), len_of(t)))


# ---------------------------------------------------------------- running
class Coder:
    unroll = 14
    def __init__(self, p, props=True):
        self.p = p
        self.bad = []
        self.hooks = hooks(p, self.bad, props)
        self.fns = set()

    def run(self, fn, args, prep=None, st=None, selfty=None):
        cl = Cl(self.hooks)
        I = absint.Interp(self.p, cl)
        I.use_summaries = False
        I.force_unroll = self.unroll
        st = st.copy() if st else absint.St()
        a = I.root_args(fn, st)
        for i, v in args.items():
            a[i] = v
        if prep:
            prep(I, st, a)
        old = absint.PARTITION[0]
        absint.PARTITION[0] = lambda I, s: tuple(sorted((t.id, str(v)) for t, v in list(s.eqs.items()) + list(s.var.items())))
        try:
            with frames.limits(150, 400, 400):
                outs = I.analyze(fn, st, a, selfty)
        finally:
            absint.PARTITION[0] = old
        self.fns |= I.fns_seen
        return I, a, outs

    def encode(self, fn, pk, into=None, selfty=None):
        """[(state, bytes pieces | None)] of running an encoder (&self -> Result<Vec<u8>>, or (&self, &mut Vec<u8>)) on the value"""
        def prep(I, st, a):
            write(st, a[0].a[0], pk)
            facts(st, pk)
            if into is not None:
                write(st, a[1].a[0], into)
        I, a, outs = self.run(fn, {}, prep, None, selfty)
        res = []
        for s, r in outs:
            if r.k != "adt" or r.a[1] != "Ok":
                res.append((s, None, r))
            else:
                v = read(s, a[1].a[0]) if into is not None else r.a[3][0]
                res.append((s, settle(s, pieces(v)), r))
        return res

    def decode(self, fn, ps, st, more=()):
        buf = mk("toks", tuple(ps))
        s = mk("sl", buf, K(0), total(ps))
        args = {0: s}
        args.update({i + 1: v for i, v in enumerate(more)})
        s0 = st.copy()
        s0.mem = {}
        return self.run(fn, args, None, s0)[2]

    def decoded(self, fn, ps, st, more=()):
        """[(state, packet value | None, consumed, result)] of decoding the pieces"""
        out = []
        for s, r in self.decode(fn, ps, st, more):
            v = n = None
            if r.k == "adt" and r.a[1] == "Ok" and r.a[3][0].k == "adt" and r.a[3][0].a[1] == "Packet":
                v, n = r.a[3][0].a[3]
            out.append((s, v, n, r))
        return out


def short(st, ps, pk):
    """can everything in the packet be short enough to be encoded in this state?"""
    from engine import possible
    conds = [("if", ge0(ladd(K(60000), len_of(t), -1)), True) for t in subterms(pk) if t.k == "in" and t.a[0] in ("str", "bin")]
    lists = {a for e in st.cons for a in lin(e)[1] if a.k == "plen"} | {ranged(mk("plen", t), 1, VBI_MAX + 4) for t in subterms(pk) if t.k == "in" and t.a[0] == "props"}
    conds += [("if", ge0(ladd(K(60000), t, -1)), True) for t in sorted(lists, key=lambda t: t.id)]
    return possible(st, *conds)


def entry_points(p, variant):
    """the encoders of a packet type: [(name, function, self type, into a buffer?)]"""
    ty = [x for x in p.adts[PKT]["vs"] if x["n"] == variant][0]["fs"][0][1]
    out = []
    tr = "flowsdk::mqtt_serde::control_packet::MqttControlPacket"
    for n, into in (("to_bytes", False), ("encode_to_buffer", True)):
        f = p.fns.get(f"<{ty} as {tr}>::{n}") or p.fns.get(f"{tr}::{n}")
        if f is not None:
            out.append((n, f, ty, into))
    return out
