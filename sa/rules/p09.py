"""Strings and topic filters are checked before they are accepted or sent."""
import re
import absint, codec, effects
from codec import Coder, ERR, PKT, PROP
from rules import p06, p08
from terms import *

RULE = ("Abstract interpretation of the string validator (no outcome is success once a null character was met, or before the whole string was looked at), then of every function that turns bytes into a string and of every encoder: "
        "each string of unknown content in what they return or write has passed the validator on every successful path. The topic filters of a decoded MQTT 5 SUBSCRIBE have passed a topic filter validator likewise.")
THOROUGH_CONFIGS = ("default",)
MOD = "flowsdk::mqtt_serde"
CHARS = re.compile(r"<std::str::(CharIndices|Chars|Bytes)<.*> as std::iter::Iterator>::next$|^<std::str::(CharIndices|Chars|Bytes)<.*>::next$")


def str_fns(p):
    return sorted((f for f in p.fns.values() if f.id.startswith(MOD) and f.nargs == 1 and f.locals[1] == "&str" and f.locals[0] == f"std::result::Result<(), {ERR}>"), key=lambda f: f.id)


def is_ok(r):
    return r.k == "adt" and r.a[1] == "Ok"


def mark(st, k, v=1):
    st.mem[("G", k)] = {(): K(v)}


def marked(st, k):
    return st.mem.get(("G", k), {}).get((), K(0)) is K(1)


def refuses_nul(p, f):
    """None when the function succeeds only for strings without a null character, else what is wrong"""
    reset()
    used = []

    def nxt(I, st, fr, name, args, t, site):
        used.append(name)
        idx = "CharIndices" in name
        c = ranged(mk("in", "char", site), 1, 0x10ffff)
        i = ranged(mk("in", "index", site), 0, 2 ** 60)
        end, zero = st.copy(), st.copy()
        mark(end, "all")
        mark(zero, "nul")
        wrap = lambda x: some(mk("tup", (i, x)) if idx else x)
        return [(end, NONE), (st, wrap(c)), (zero, wrap(K(0)))]

    def has(I, st, fr, name, args, t, site):
        pat = codec.value_of(I, st, args[1])
        if not (pat is K(0) or pat.k == "s" and pat.a[0] == "\0"):
            return None
        used.append(name)
        no = st.copy()
        mark(no, "all")
        mark(st, "nul")
        return [(st, TRUE), (no, FALSE)]

    def any_(I, st, fr, name, args, t, site):
        used.append(name)
        out = []
        for s, r in I.invoke(fr, st.copy(), site, args[1], [K(0) if "CharIndices" not in name else mk("tup", (mk("in", "index", site), K(0)))], t, 0):
            if r is TRUE or absint.assume(s.copy(), r, True):
                x = s.copy()
                absint.assume(x, r, True)
                mark(x, "nul")
                out.append((x, TRUE))
            if not (r is TRUE):
                # the test says nothing about a null character
                y = s.copy()
                if absint.assume(y, r, False):
                    mark(y, "nul")
                    out.append((y, FALSE))
        no = st.copy()
        mark(no, "all")
        out.append((no, FALSE))
        return out
    C = Coder(p)
    C.hooks = [(CHARS, nxt), (re.compile(r"<impl str>::contains$"), has), (re.compile(r"(Chars|CharIndices|Bytes|Iterator).*::any$"), any_)]

    def prep(I, st, a):
        for k in ("all", "nul"):
            mark(st, k, 0)
    try:
        outs = C.run(f, {0: mk("in", "str", "text")}, prep)[2]
    except absint.Limit as e:
        return str(e)
    if not used:
        return "does not look at the characters"
    for s, r in outs:
        if not is_ok(r):
            continue
        if marked(s, "nul"):
            return "succeeds although a null character was met"
        if not marked(s, "all"):
            return "succeeds before the whole string was looked at"
    return None if any(is_ok(r) for _, r in outs) else "never succeeds"


def checks(p, names, kind):
    """hooks that remember which strings passed the validators"""
    def h(I, st, fr, name, args, t, site):
        x = whole(codec.value_of(I, st, args[0]))
        bad = st.copy()
        if not absint.set_eq(st, mk("passed", kind, x), 1):
            return [(bad, err(mk("in", "refused", site)))]
        return [(st, ok(UNIT)), (bad, err(mk("in", "refused", site)))]
    return [(re.compile("^(" + "|".join(map(re.escape, sorted(names))) + ")$"), h)]


def whole(x):
    """the string a slice of the whole of it stands for"""
    x = codec.norm(x)
    while x.k == "sl" and x.a[1] is K(0) and x.a[2] is mk("len", x.a[0]):
        x = codec.norm(x.a[0])
    return x


def passed(s, kind, x):
    return s.eqs.get(mk("passed", kind, x)) == 1


def run(c):
    p = c.prog()
    fs = str_fns(p)
    if not c.anchor("string validators", fs):
        return
    res = {f.id: refuses_nul(p, f) for f in fs}
    good = [i for i, r in res.items() if r is None]
    c.ob("a validator refuses every string with a null character", good, "; ".join(f"{i.rsplit('::', 1)[-1]} {r}" for i, r in res.items())[:300] if not good else good[0], fs[0].file)
    if not good:
        return
    decoded(c, p, good)
    encoded(c, p, good)
    filters(c, p, fs, good)


MAKE = re.compile(r"(String::from_utf8|str::from_utf8|from_utf8_lossy|from_utf8_unchecked|String::from_utf8_lossy|str::converts::from_utf8)(_mut)?$")


def decoded(c, p, good):
    makers = {}
    for f in p.fns.values():
        if not f.id.lstrip("<").startswith(MOD) or re.search(r"\bserde::", f.id):
            continue
        for b in f.blocks:
            t = b["t"]
            if not b["c"] and t["t"] == "call" and isinstance(t.get("f"), dict) and t["f"].get("f") and MAKE.search(t["f"]["f"]):
                makers[f.id] = f
    c.anchor("functions that make strings of bytes", makers)
    for f in sorted(makers.values(), key=lambda f: f.id):
        reset()

        def make(I, st, fr, name, args, t, site):
            x = mk("in", "str", site)
            if "Result<" not in str(fr.fn.locals[t["d"][0]]):
                return [(st, x)]
            return [(st.copy(), ok(x)), (st, err(mk("in", "not UTF-8", site)))]
        C = Coder(p)
        C.hooks = checks(p, good, "text") + [(MAKE, make)]
        bad, n = None, 0
        try:
            for s, r in C.run(f, {})[2]:
                for x in subterms(r):
                    if x.k == "in" and x.a[0] == "str":
                        n += 1
                        if not passed(s, "text", x):
                            bad = show(r)[:160]
        except absint.Limit as e:
            bad = str(e)
        c.ob(f"{f.id.rsplit('::', 2)[-2]}::{f.id.rsplit('::', 1)[-1]}: a string made of received bytes was checked", n and not bad, bad or ("on every path" if n else "no string is returned"), f.file)


def encoded(c, p, good):
    enc = p.fns.get(PKT + "::to_bytes")
    if not c.anchor("packet encoder", [enc] if enc else []):
        return
    n = 0
    for v in p.adts[PKT]["vs"]:
        reset()
        C = Coder(p)
        C.hooks = checks(p, good, "text") + C.hooks
        bad = set()
        for pk in codec.packets(p, v["n"]):
            try:
                for s, ps, r in C.encode(enc, pk):
                    if ps is None:
                        continue
                    for x in {y for _, q in ps for y in subterms(q) if _ == "q"}:
                        if x.k == "in" and x.a[0] == "str":
                            n += 1
                            if not passed(s, "text", x):
                                bad.add(x.a[1])
            except absint.Limit as e:
                bad.add(str(e))
        c.ob(f"{v['n']}: strings are checked before they are sent", not bad, f"{sorted(bad)} not checked" if bad else "every string", enc.file)
    lst = f"std::vec::Vec<{PROP}>"
    for e in [f for f in p.fns.values() if f.nargs == 1 and f.locals[1] in ("&" + lst, f"&[{PROP}]") and f.locals[0] == f"std::result::Result<std::vec::Vec<u8>, {ERR}>" and f.d.get("vis") == "Public"]:
        bad = set()
        for v, (i, kind) in sorted(p06.TABLE.items()):
            if kind not in ("str", "pair"):
                continue
            reset()
            C = Coder(p, props=False)
            C.hooks = checks(p, good, "text") + C.hooks
            x, _ = p06.make(p, v, v)
            if x is None:
                bad.add(v)
                continue
            for s, ps, r in C.encode(e, mk("arr", (x,))):
                for y in subterms(x) if ps is not None else ():
                    if y.k == "in" and y.a[0] == "str":
                        n += 1
                        if not passed(s, "text", y):
                            bad.add(v)
        c.ob("properties: strings are checked before they are sent", not bad, f"{sorted(bad)} not checked" if bad else "every string property", e.file)
    c.count("strings followed", n)
    c.ob("strings followed", n >= 60, f"{n} strings")


def filters(c, p, fs, good):
    dec = p.fns.get(PKT + "::from_bytes_with_version")
    others = [f.id for f in fs if f.id not in good]
    if not c.anchor("packet decoder", [dec] if dec else []) or not c.anchor("topic filter validators", others):
        return
    for k in (1, 2):
        reset()
        names = [f"filter {i}" for i in range(k)]
        body = p08.u16(p08.n("packet id", 1, 65535)) + p08.props()
        for x in names:
            body += p08.data(p08.s(x)) + p08.byte(K(1))
        st = absint.St()
        for x in names:
            absint.add_ge(st, ladd(K(60000), absint.len_of(p08.s(x)), -1))
        C = Coder(p)
        C.hooks = checks(p, others, "filter") + C.hooks
        bad, n = set(), 0
        try:
            for s, r in C.decode(dec, p08.frame(K(0x82), body), st, (K(5),)):
                if p08.accepted(r):
                    n += 1
                    bad |= {x for x in names if not passed(s, "filter", p08.s(x))}
        except absint.Limit as e:
            bad.add(str(e))
        c.ob(f"MQTT 5 SUBSCRIBE with {k} subscriptions: the topic filters were checked", n and not bad, f"{sorted(bad)} not checked" if n else "never decoded", dec.file)
