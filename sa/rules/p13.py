"""Every answer is sent, on the channel the packet came from, and every event is kept."""
import engine, effects, absint, re
from engine import possible, self_field, fget, pay, same
from terms import *
from rules.p12 import LOSSY

RULE = ("Abstract interpretation of every caller of the packet handler, with the handler's answers and events as unknown sequences: each iteration over the answers must send or report the answer, the loop must not be left early, "
        "and the events must be kept. Every caller of the per-channel entry point is analysed for writing the returned bytes to the channel whose packet it passed in.")
THOROUGH_CONFIGS = ("default",)
NEXT = re.compile(r"Iterator>?::next$")
EXT = re.compile(r"::(extend|extend_from_slice|append|put_slice|put|write_all|extend_from_within)$")
EVS, RSP = mk("in", "events"), mk("in", "answers")


def run(c):
    p = c.prog()
    R = engine.roles(p)
    if not engine.need(c, R, "out", "events", "options", "sent"):
        return
    h = engine.handler(p)
    if not c.anchor("packet handler of the engine", h if len(h) == 1 else []):
        return
    h = h[0]
    cs = sorted({f.id: f for f, ln in effects.callers(p, h.id)}.values(), key=lambda f: f.id)
    c.anchor("callers of the packet handler", cs, 2)
    entry = []
    for f in cs:
        caller(c, p, R, h, f)
        if engine.EVT in f.locals[0] and f.locals[0].startswith("(") and "Vec<u8>" in f.locals[0]:
            entry.append(f)
    c.anchor("entry point for packets of a channel", entry)
    for e in entry:
        us = sorted({f.id: f for f, ln in effects.callers(p, e.id)}.values(), key=lambda f: f.id)
        us = [f for f in us if "::tests::" not in f.id]
        if p.adts.get("flowsdk::mqtt_client::engine::QuicMqttEngine"):
            c.anchor("users of the entry point for packets of a channel", us)
        for f in us:
            channel(c, p, R, e, f)


def strip(t):
    while t.k in ("sl", "slv", "iter") or t.k == "call" and t.a[0].split("::")[-1] in ("into_iter", "iter"):
        t = t.a[0] if t.k != "call" else t.a[1][0]
    return t


def caller(c, p, R, h, f):
    ob = engine.Agg(c, f.id.rsplit("::", 1)[-1], engine.where(f))
    get = lambda st, n: engine.read(st, (("G", n),))
    put = lambda st, n, v: engine.write(st, (("G", n),), v)
    Z, ONE = K(0), K(1)
    args_seen = []
    qs = [n for n in range(1, f.nargs) if f.locals[n + 1] == engine.PKT]

    def settled(st):
        last = get(st, "last")
        return last is ONE

    def handle(I, st, fr, name, args, t, site):
        ob("every answer to a packet is sent before the next packet is handled", settled(st) and get(st, "ev") is ONE, f"{show(get(st, 'last'))[:80]}")
        put(st, "last", Z)
        put(st, "it", ONE)
        put(st, "ev", Z)
        args_seen.append((st.copy(), args))
        return [(st, mk("tup", (EVS, RSP)))]

    def nxt(I, st, fr, name, args, t, site):
        it = I.deref_val(st, args[0])
        ts = fl.terms(it)
        if any(x is RSP for x in ts):
            ob("each answer is sent or reported", get(st, "it") is ONE, "an iteration over the answers sends nothing")
            put(st, "it", Z)
            put(st, "last", it)
        if any(x is EVS for x in ts):
            put(st, "ev", ONE)
        if any(x is RSP for x in ts):
            end = st.copy()
            put(end, "last", ONE)
            I.havoc_arg(st, args[0], site)
            return [(st, some(mk("call", name, (it,), site))), (end, NONE)]

    def drop(I, st, fr, name, args, t, site):
        if "mem::" in name or "Option" in name:
            return None
        src = I.deref_val(st, args[0])
        for what, q in (("answers", RSP), ("events", EVS)):
            if any(x is q for x in fl.terms(src)):
                ob(f"no {what} are left out", False, name.split("::")[-1])

    def ext(I, st, fr, name, args, t, site):
        v = strip(I.deref_val(st, args[1]))
        if v is EVS:
            ob("the events of a packet are kept", args[0].k == "ref", show(args[0])[:80])
            put(st, "ev", ONE)
        if v is RSP:
            put(st, "last", ONE)
        if v.k == "encoded" and any(x is RSP for x in fl.terms(v)):
            put(st, "it", ONE)

    def tell(st, v, site):
        if v.k == "encoded" and any(x is RSP for x in fl.terms(v)):
            put(st, "it", ONE)
        if v.k == "adt" and v.a[1] == "Error":
            put(st, "it", ONE)
    built = engine.assume_built(p) if f.id.startswith(engine.ENG) else lambda I, st, a: None

    def prep(I, st, a):
        built(I, st, a)
        for n in ("it", "last", "ev"):
            put(st, n, ONE)
    mover = engine.mover(p)
    hooks = [(re.compile("^" + re.escape(h.id) + "$"), handle), (NEXT, nxt), (EXT, ext), engine.ENC, engine.NOPARSE, engine.pushes(p, R["out"], tell), engine.pushes(p, R["events"], tell)] + ([engine.stub(mover)] if mover else [])

    def part(I, st):
        return (get(st, "last") is ONE, get(st, "it").id, get(st, "ev").id) + engine.by_input(I, st)
    hooks.append((re.compile("::(" + "|".join(sorted(LOSSY)) + ")$"), drop))
    with engine.Flow() as fl:
        I, cl, a, st0, outs = engine.run(p, f, hooks=hooks, prep=prep, part=part)
        c.anchor(f"{f.id.rsplit('::', 1)[-1]} handles packets", args_seen)
        for st, args in args_seen:
            pk, ch = args[1], args[2] if len(args) > 2 else None
            if qs:
                ob("the packet handled is the one passed in", pk is a[qs[0]], show(pk)[:100])
                own = [a[n] for n in range(1, f.nargs) if f.locals[n + 1] == "u64"]
                ob("it is handled as coming from its channel", ch is not None and own and same(st, ch, some(own[0])), show(ch)[:100] if ch is not None else "")
            else:
                ob("the packet handled is the one just parsed", any(x.k == "call" and "::next_p" in x.a[0] for x in fl.terms(pk)), show(pk)[:100])
                ob("it is handled as coming from the shared channel", ch is None or same(st, ch, NONE), show(ch)[:100] if ch is not None else "")
        for s, r in outs:
            ob.paths += 1
            ob("every answer is sent", settled(s), f"the loop over the answers can be left early: {show(get(s, 'last'))[:80]}")
            ob("the events of a packet are kept", get(s, "ev") is ONE, "dropped")
            ts = fl.terms(r)
            if args_seen and qs:
                bytes_ = fget(r, "1")
                lv = fl.leaves(bytes_)
                ob("the answers are returned as bytes in order", bool(lv) and all(answer_bytes(fl, x) for x in lv), show(bytes_)[:100])
            ev = fget(r, "0") if r.k == "tup" else r
            ob("the events are returned", any(x is EVS for x in fl.terms(ev)) or not any(x is EVS for x in fl.terms(self_field(s, a, R["events"]))), show(r)[:100])
    ob.close("each answer is sent or reported", "every answer is sent", "the events of a packet are kept")


def answer_bytes(fl, x):
    """built from nothing by appending encoded answers"""
    n = 0
    while x.k == "vext" and n < 8:
        e = strip(x.a[1])
        if e.k != "encoded" or not any(y is RSP for y in fl.terms(e)):
            return False
        x = x.a[0]
        n += 1
    return x.k in ("vnew", "phi", "vfill") or x.k.startswith("hv")


def channel(c, p, R, e, f):
    """a user of the per-channel entry: packet read from and answer written to the same channel"""
    short = f.id.rsplit("::", 1)[-1]
    ob = engine.Agg(c, short, engine.where(f))
    get = lambda st, n: engine.read(st, (("G", n),))
    put = lambda st, n, v: engine.write(st, (("G", n),), v)
    Z, ONE = K(0), K(1)
    calls = []

    def elem(path):
        ks = [x for x in path if isinstance(x, tuple) and x[0] == "i"]
        return ks[-1][1] if ks else None

    def parse(I, st, fr, name, args, t, site):
        k = elem(args[0].a[0]) if args[0].k == "ref" else None
        if k is not None:
            put(st, "from", k)
        return engine.NOPARSE[1](I, st, fr, name, args, t, site)

    def ingest(I, st, fr, name, args, t, site):
        done(st)
        key = get(st, "from")
        ch = args[2] if len(args) > 2 else Z
        calls.append(site)
        ob("the packet is handled as coming from the channel it was read from", key is not Z and key in subterms(ch), f"read from {show(key)[:60]}, handled as {show(ch)[:60]}")
        put(st, "resp", Z)
        put(st, "ev", Z)
        return [(st, mk("tup", (EVS, RSP)))]

    def done(st):
        if get(st, "resp") is Z:
            key = get(st, "from")
            n = absint.len_of(RSP)
            cond = [("if", ge0(ladd(n, K(-1))), True)]
            gone = []
            for t in list(st.var):
                if t.k == "mapget" and t.a[1] is key:
                    gone.append(t)
            alive = not any(not possible(st, ("var", t, "Some")) for t in gone)
            fin = [x for x in st.eqs if x.k == "ld" and x.a[1][-1:] == ("f:finished",) or x.k == "pr" and str(x.a[-1]).endswith("finished")]
            alive = alive and not any(not possible(st, ("eq", x, 0)) for x in fin)
            ob("an answer is written to the channel unless that channel is closed", not (alive and possible(st, *cond)), "the answer of a packet is dropped")
        ob("the events of a packet are kept", get(st, "ev") is not Z, "dropped")

    def ext(I, st, fr, name, args, t, site):
        v = strip(I.deref_val(st, args[1]))
        if v is EVS:
            put(st, "ev", ONE)
        if v is RSP:
            k = elem(args[0].a[0]) if args[0].k == "ref" else None
            ob("an answer is written to the channel its packet came from", k is not None and k is get(st, "from"), f"written to {show(k)[:60] if k is not None else show(args[0])[:60]}")
            put(st, "resp", ONE)

    def prep(I, st, a):
        for n in ("resp", "ev", "from"):
            put(st, n, ONE if n != "from" else Z)
    hooks = [(re.compile("^" + re.escape(e.id) + "$"), ingest), (engine.NOPARSE[0], parse), (EXT, ext), engine.ENC]
    try:
        with engine.Flow() as fl:
            I, cl, a, st0, outs = engine.run(p, f, hooks=hooks, prep=prep, part=lambda I, st: (get(st, "resp").id, get(st, "ev").id, get(st, "from").id) + engine.by_input(I, st))
    except absint.Limit as x:
        ob("analysable", False, str(x))
        ob.close()
        return
    for s, r in outs:
        ob.paths += 1
        done(s)
    c.anchor(f"{short} handles packets of a channel", calls)
    ob.close("an answer is written to the channel its packet came from", "the packet is handled as coming from the channel it was read from", "an answer is written to the channel unless that channel is closed")
