"""Variable byte integers and length prefixes are exact."""
import re
import absint, codec, effects, engine
from absint import len_of
from codec import Coder, pieces, VBI_ENC, VBI_DEC, VBI_MAX, ERR
from terms import *

RULE = ("Abstract interpretation of the variable byte integer encoder on every number of digits (base 128, unknown digits), of the decoder on the bytes produced and on every malformed and cut short sequence, "
        "of the callers of the encoder (the value is proved to be at most 268435455 at every call), and of the length-prefixed encoders and decoders on unknown data, also data over 65535 bytes.")
THOROUGH_CONFIGS = ("default", "lax")


def digit(i, lo=0, hi=127):
    return ranged(mk("in", "digit", str(i)), lo, hi)


def cont(x):
    """digit with the continuation bit"""
    return ladd(x, K(128))


def same(s, a, b):
    return codec.matches(s, a, b)


def run(c):
    p = c.prog()
    enc, dec = p.fns.get(VBI_ENC), p.fns.get(VBI_DEC)
    if not (c.anchor("variable byte integer encoder", [enc] if enc else []) & c.anchor("variable byte integer decoder", [dec] if dec else [])):
        return
    vbi(c, p, enc, dec)
    remaining(c, p)
    prefixes(c, p)
    callers(c, p)


def raw(p):
    """an interpreter without the inverse pair hook"""
    C = Coder(p)
    C.hooks = [h for h in C.hooks if h[0].pattern.strip("^$").replace("\\", "") not in (VBI_ENC, VBI_DEC)]
    return C


def results(outs):
    return [(s, r.a[3][0].a[0] if r.k == "adt" and r.a[1] == "Ok" and r.a[3][0].k == "tup" else None, r) for s, r in outs]


def more_data(n):
    return tuple(("b", ranged(mk("in", "int", f"following {i}"), 0, 255)) for i in range(n))


def vbi(c, p, enc, dec):
    for n in range(1, 5):
        reset()
        ds = [digit(i) for i in range(n - 1)] + [digit(n - 1, 1 if n > 1 else 0)]
        x = K(0)
        for i, d in enumerate(ds):
            x = ladd(x, d, 128 ** i)
        want = tuple(cont(d) for d in ds[:-1]) + (ds[-1],)
        # encoder
        C = raw(p)
        bad, seen = None, 0
        for s, r in C.run(enc, {0: x})[2]:
            seen += 1
            ps = pieces(r)
            if any(k != "b" for k, _ in ps) or len(ps) != n or not all(same(s, w, y) for w, (k, y) in zip(want, ps)):
                bad = f"{[show(y)[:60] for _, y in ps]} instead of {[show(w) for w in want]}"
        c.ob(f"a value of {n} digits is encoded in {n} bytes, least significant digit first", seen and not bad, bad or "no outcome" if not seen else bad or "for every digit", enc.file)
        # decoder on the same bytes, more data behind
        for tail in (0, 1, 3):
            C = raw(p)
            bad, seen = None, 0
            for s, v, r in results(C.decode(dec, [("b", w) for w in want] + list(more_data(tail)), absint.St())):
                seen += 1
                if v is None or not same(s, x, v[0]) or not same(s, K(n), v[1]):
                    bad = show(r)[:200]
            c.ob(f"a {n} byte encoding is decoded to its value with {tail} bytes behind", seen and not bad, bad or "for every digit", dec.file)
        # cut short: only continuation bytes so far
        if n < 4:
            C = raw(p)
            bad = [show(r)[:120] for s, r in C.decode(dec, [("b", cont(digit(i))) for i in range(n)], absint.St()) if not is_err(r) or r.a[3][0].k == "adt" and r.a[3][0].a[1] not in ("More", "BufferTooShort")]
            c.ob(f"{n} continuation bytes alone ask for more data", not bad, bad[0] if bad else "More or BufferTooShort", dec.file)
        if n > 1 and c.config == "all":
            C = raw(p)
            bad = [show(r)[:120] for s, r in C.decode(dec, [("b", cont(digit(i))) for i in range(n - 1)] + [("b", K(0))] + list(more_data(2)), absint.St()) if not is_err(r)]
            c.ob(f"a {n} byte encoding that is not minimal is refused", not bad, bad[0] if bad else "leading zero digit", dec.file)
    reset()
    C = raw(p)
    for tail in (0, 2):
        bad = [show(r)[:120] for s, r in C.decode(dec, [("b", cont(digit(i))) for i in range(4)] + list(more_data(tail)), absint.St()) if not is_err(r) or r.a[3][0].k == "adt" and r.a[3][0].a[1] in ("More", "BufferTooShort")]
        c.ob(f"four continuation bytes and {tail} more are refused", not bad, bad[0] if bad else "malformed, not incomplete", dec.file)
    C = raw(p)
    bad = [show(r)[:120] for s, r in C.decode(dec, [], absint.St()) if not is_err(r)]
    c.ob("an empty buffer is not a number", not bad, bad[0] if bad else "", dec.file)


def is_err(r):
    return r.k == "adt" and r.a[1] == "Err"


MOD = "flowsdk::mqtt_serde::"


def decoders(p, ty):
    return sorted((f for f in p.fns.values() if f.id.startswith(MOD) and f.nargs == 1 and f.locals[1] == "&[u8]" and f.locals[0] == f"std::result::Result<({ty}, usize), {ERR}>" and f.id != VBI_DEC), key=lambda f: f.id)


def name(f):
    return "::".join(f.id.rsplit("::", 2)[-2:])


def remaining(c, p):
    """the other functions that decode a variable byte integer agree with it"""
    for f in decoders(p, "usize"):
        for n in (1, 2, 4):
            reset()
            ds = [digit(i) for i in range(n - 1)] + [digit(n - 1, 1 if n > 1 else 0)]
            x = K(0)
            for i, d in enumerate(ds):
                x = ladd(x, d, 128 ** i)
            bad = [show(r)[:160] for s, v, r in results(raw(p).decode(f, [("b", cont(d)) for d in ds[:-1]] + [("b", ds[-1])] + list(more_data(1)), absint.St()))
                   if v is None or not same(s, x, v[0]) or not same(s, K(n), v[1])]
            c.ob(f"{name(f)}: a {n} byte encoding is decoded to its value", not bad, bad[0] if bad else "for every digit", f.file)


def prefixes(c, p):
    """two byte length, then the data"""
    total_fns = 0
    for what, tag in (("&str", "str"), ("&[u8]", "bin")):
        for f in sorted(p.fns.values(), key=lambda f: f.id):
            if not (f.id.startswith(MOD) and f.nargs == 1 and f.locals[1] == what and f.locals[0] in ("std::vec::Vec<u8>", f"std::result::Result<std::vec::Vec<u8>, {ERR}>")):
                continue
            total_fns += 1
            plain = f.locals[0] == "std::vec::Vec<u8>"
            reset()
            x = mk("in", tag, "value")
            n = len_of(x)
            want = tuple(("b", ranged(mk("byteof", "be", "u16", n, i), 0, 255)) for i in range(2)) + (("q", x),)

            def prep(I, st, a):
                if plain:
                    # callers check the length: see the callers of these functions below
                    absint.add_ge(st, ladd(K(65535), n, -1))
            bad = bad2 = None
            seen = 0
            for s, r in raw(p).run(f, {0: x}, prep)[2]:
                if not plain:
                    if is_err(r):
                        if engine.possible(s, ("if", ge0(ladd(K(65535), n, -1)), True)):
                            bad2 = show(r)[:100]
                        continue
                    r = r.a[3][0] if r.k == "adt" and r.a[1] == "Ok" else r
                    if engine.possible(s, ("if", ge0(ladd(n, K(-65536))), True)):
                        bad = "data over 65535 bytes are encoded"
                seen += 1
                ps = codec.settle(s, pieces(r))
                if ps != want:
                    bad = str([show(y)[:60] for _, y in ps])
            c.ob(f"{name(f)}: two byte length, most significant first, then the data", seen and not bad, bad or "for data of every length", f.file)
            if not plain:
                c.ob(f"{name(f)}: refuses nothing up to 65535 bytes", not bad2, bad2 or "", f.file)
    c.ob("length-prefixed encoders", total_fns >= 4, f"{total_fns} functions")
    for ty, tag in (("std::string::String", "str"), ("std::vec::Vec<u8>", "bin")):
        fs = decoders(p, ty)
        c.anchor(f"decoders to {ty}", fs)
        for f in fs:
            for tail in (0, 2):
                reset()
                x = mk("in", tag, "value")
                st = absint.St()
                absint.add_ge(st, ladd(K(65535), len_of(x), -1))
                ps = tuple(("b", ranged(mk("byteof", "be", "u16", len_of(x), i), 0, 255)) for i in range(2)) + (("q", x),) + more_data(tail)
                outs = results(raw(p).decode(f, ps, st))
                bad = [show(r)[:160] for s, v, r in outs if v is None or not same(s, x, v[0]) or not same(s, ladd(len_of(x), K(2)), v[1])]
                c.ob(f"{name(f)}: length and data are decoded with {tail} bytes behind", outs and not bad, bad[0] if bad else "for data of every length", f.file)
            reset()
            n = ranged(mk("in", "int", "declared length"), 1, 65535)
            x = mk("in", "bin", "too short")
            st = absint.St()
            absint.add_ge(st, ladd(ladd(n, K(-1)), len_of(x), -1))
            ps = tuple(("b", ranged(mk("byteof", "be", "u16", n, i), 0, 255)) for i in range(2)) + (("q", x),)
            bad = [show(r)[:160] for s, r in raw(p).decode(f, ps, st) if not is_err(r)]
            bad += [show(r)[:160] for k in (0, 1) for s, r in raw(p).decode(f, more_data(k), absint.St()) if not is_err(r)]
            c.ob(f"{name(f)}: data shorter than the declared length are refused", not bad, bad[0] if bad else "", f.file)
    for ty, w in (("u16", 2), ("u32", 4)):
        fs = decoders(p, ty)
        c.anchor(f"decoders to {ty}", fs)
        for f in fs:
            reset()
            x = ranged(mk("in", "int", "value"), *INTS[ty])
            ps = tuple(("b", ranged(mk("byteof", "be", ty, x, i), 0, 255)) for i in range(w))
            outs = results(raw(p).decode(f, ps + more_data(1), absint.St()))
            bad = [show(r)[:160] for s, v, r in outs if v is None or not same(s, x, v[0]) or not same(s, K(w), v[1])]
            for k in range(w):
                bad += [show(r)[:160] for s, r in raw(p).decode(f, more_data(k), absint.St()) if not is_err(r)]
            c.ob(f"{name(f)}: {w} bytes, most significant first; fewer are refused", outs and not bad, bad[0] if bad else "for every value", f.file)


def callers(c, p):
    """who calls the infallible encoders has bounded the argument"""
    fs = {f.id: f for f, _ in effects.callers(p, VBI_ENC)}
    c.anchor("callers of the variable byte integer encoder", fs)
    for f in sorted(fs.values(), key=lambda f: f.id):
        reset()
        C = Coder(p)
        try:
            C.run(f, {})
            bad = sorted(set(C.bad))
        except absint.Limit as e:
            bad = [str(e)]
        c.ob(f"{name(f)}: the number is at most {VBI_MAX} when it is encoded", not bad, f"not bounded in {bad}" if bad else "on every path", f.file)
    # infallible length-prefixed encoders: from outside only through a function that checks
    plain = {f.id for f in p.fns.values() if f.id.startswith(MOD) and f.locals[0] == "std::vec::Vec<u8>" and f.nargs in (1, 2) and all(t in ("&str", "&[u8]") for t in f.locals[1:1 + f.nargs])}
    out = {}
    for g in plain:
        for f, line in effects.callers(p, g):
            if f.id not in plain:
                out.setdefault(f.id, (f, []))[1].append(g)
    for f, gs in sorted(out.values(), key=lambda x: x[0].id):
        reset()
        bad = []

        def h(I, st, fr, nm, args, t, site):
            for a in args:
                n = len_of(codec.value_of(I, st, a))
                if not absint.prove(st, ladd(K(65535), n, -1)):
                    bad.append(fr.fn.id)
            return None
        C = raw(p)
        C.hooks = [(re.compile("^(" + "|".join(map(re.escape, sorted(plain))) + ")$"), h)] + C.hooks
        try:
            C.run(f, {})
        except absint.Limit as e:
            bad.append(str(e))
        c.ob(f"{name(f)}: data are at most 65535 bytes when their length is encoded in two bytes", not bad, f"not bounded in {sorted(set(bad))}" if bad else "on every path", f.file)
