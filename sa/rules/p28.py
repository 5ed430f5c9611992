"""Transports neither lose nor repeat nor alter the byte stream."""
import re
import absint, engine
from absint import read, write, len_of
from engine import possible, same, forget, self_field
from terms import *

RULE = ("TLS engine: abstract interpretation of each method with rustls by contract (it takes a prefix of the input, refuses more while decrypted data waits, yields decrypted data in pieces until there is none, and accepts everything written once its buffer limit is lifted). "
        "Obligations: input is only offered when nothing decrypted waits, each offer is processed, all input is consumed, each decrypted piece is appended whole and once to the plaintext buffer, which only the tick empties after handing it whole to the MQTT engine; what the MQTT engine wants sent is written whole and once, to a connection whose limit the constructor lifted; what rustls wants sent is returned whole; every other method calls its namesake of the MQTT engine with its own arguments and returns the answer. "
        "QUIC engine: typestate over the tick: streams are read in order, each chunk goes whole and once to the parser of its own stream, exactly the written prefix leaves the buffer it was written from, and a stream or the connection is finished only when its buffer is empty; nothing but a transport's end discards a buffer.")
THOROUGH_CONFIGS = ("default",)
TLS = "flowsdk::mqtt_client::tls_engine::TlsMqttEngine"
QUIC = "flowsdk::mqtt_client::engine::QuicMqttEngine"
ENG = engine.ENG


def run(c):
    p = c.prog()
    tls(c, p)
    quic(c, p)


def U8(x):
    return absint.ranged(x, 0, 1 << 40)


def ok_err(st, t, good):
    """result of a library call that may fail: [(state, value)] with the payload for success"""
    s2 = st.copy()
    return [(st, ok(good)), (s2, err(t))]


def whole(st, v, want):
    """is the value all of the sequence?"""
    for _ in range(12):
        if v is want or same(st, v, want):
            return True
        if v.k == "ref":
            v = read(st, v.a[0])
        elif v.k == "sl" and v.a[1] is K(0) and v.a[0] is not v and same(st, lsub(v.a[2], len_of(v.a[0])), K(0)):
            v = v.a[0]
        elif v.k in ("slv", "copyof"):
            v = v.a[0]
        elif v.k in ("call", "pure") and v.a[0].rsplit("::", 1)[-1] in ("to_vec", "clone", "into", "from", "to_owned", "deref", "as_ref", "as_slice", "into_vec") and len(v.a[1]) == 1:
            v = v.a[1][0]
        else:
            return False
    return False


# ---------------------------------------------------------------- TLS
def tls(c, p):
    if not c.anchor("TLS engine", [a for a in (TLS,) if a in p.adts]):
        return
    fs = engine.fields(p, TLS)
    buf = [n for n, t in fs.items() if t == "std::vec::Vec<u8>"]
    eng = [n for n, t in fs.items() if t == ENG]
    con = [n for n, t in fs.items() if t == "rustls::ClientConnection"]
    if not (c.anchor("plaintext buffer", buf if len(buf) == 1 else []) and c.anchor("MQTT engine of the TLS engine", eng) and c.anchor("TLS connection", con)):
        return
    buf, eng, con = buf[0], eng[0], con[0]
    ms = {f.id.rsplit("::", 1)[1]: f for f in engine.methods(p, TLS) if f.d["vis"] == "Public"}
    held = U8(mk("in", "waiting plaintext"))
    isbuf = lambda a: a.k == "ref" and a.a[0][-1:] == ("f:" + buf,)

    def deref(I, st, fr, name, args, t, site):
        return [(st, args[0])]
    WHOLE = (re.compile(r"<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut$"), lambda I, st, fr, name, args, t, site: [(st, args[0])] if args[0].k == "ref" and "RangeFull" in " ".join(str(x) for x in t["f"].get("g") or ()) else None)
    DEREF = (re.compile(r"rustls::ClientConnection as std::ops::Deref(Mut)?>::deref"), deref)

    # a mutable slice of all of a vector is the vector
    VIEW = (re.compile(r"Vec<T, A> as std::ops::DerefMut>::deref_mut$|Vec::<T, A>::as_mut_slice$"), lambda I, st, fr, name, args, t, site: [(st, args[0])] if args[0].k == "ref" else None)

    # ---- input
    f = ms.get("handle_socket_data")
    if c.anchor("socket input", [f] if f else []):
        ob = engine.Agg(c, "TLS input", engine.where(f))
        # auto: (data handed over?, decrypted data may wait?, piece not yet stored?)
        REST, PIECE, N = U8(mk("in", "rest of the input")), mk("in", "decrypted piece"), mk("in", "size of the piece")

        def read_tls(I, st, fr, name, args, t, site):
            fed, wait, piece = st.auto
            ob("no input is offered while decrypted data waits", wait == "none", "rustls refuses it and the rest is lost")
            ob("each offer is processed", fed != "unread", "offered twice without processing")
            a = args[1]
            if a.k != "ref" or not args[0].k == "ref":
                ob("the input offered is the socket data", False, show(a)[:80])
                return None
            q = a.a[0]
            while read(st, q).k == "ref":
                q = read(st, q).a[0]
            v = read(st, q)
            ob("the input offered is the socket data", whole(st, v, REST), show(v)[:80])
            out = []
            e = st.copy()
            e.auto = ("failed", wait, piece)
            out.append((e, err(mk("in", "io error"))))
            # nothing was taken
            z = st.copy()
            z.auto = ("end", wait, piece)
            out.append((z, ok(K(0))))
            forget(st, REST)
            write(st, q, REST)
            n = absint.ranged(mk("in", "taken"), 1, 1 << 40)
            forget(st, n)
            absint.isnum(n)
            st.auto = ("unread", wait, piece)
            out.append((st, ok(n)))
            return out

        def process(I, st, fr, name, args, t, site):
            fed, wait, piece = st.auto
            e = st.copy()
            e.auto = ("failed", wait, piece)
            st.auto = ("read" if fed in ("unread", "read") else fed, "some", piece)
            return [(st, ok(mk("in", "state of the connection"))), (e, err(mk("in", "tls error")))]

        def rd(I, st, fr, name, args, t, site):
            fed, wait, piece = st.auto
            ob("each decrypted piece is kept", not piece, "it is overwritten by the next")
            out = []
            for k in ("end", "blocked", "error", "more"):
                s = st.copy()
                if k == "more":
                    ob("decrypted data is read into a buffer of its own", args[1].k == "ref", show(args[1])[:60])
                    if args[1].k != "ref":
                        continue
                    q = args[1].a[0]
                    while read(s, q).k == "ref":
                        q = read(s, q).a[0]
                    v = read(s, q)
                    n = absint.ranged(N, 1, 1 << 40)
                    L = len_of(v)
                    forget(s, n, PIECE)
                    absint.add_ge(s, lsub(L, n))
                    w = absint.ranged(PIECE, 0, 1 << 40)
                    for x in (lsub(len_of(w), L), lsub(L, len_of(w))):
                        absint.add_ge(s, x)
                    write(s, q, w)
                    s.auto = (fed, "some", True)
                    out.append((s, ok(n)))
                elif k == "end":
                    s.auto = (fed, "none", False)
                    out.append((s, ok(K(0))))
                else:
                    s.auto = (fed, "none", False) if k == "blocked" else ("failed", wait, False)
                    out.append((s, err(mk("in", k))))
            return out

        def rd_all(I, st, fr, name, args, t, site):
            fed, wait, piece = st.auto
            ob("each decrypted piece is appended whole and once", isbuf(args[1]), f"to {show(args[1])[:60]}")
            st.auto = (fed, "none", piece)
            e = st.copy()
            return [(st, ok(absint.ranged(mk("in", "read to the end"), 0, 1 << 40))), (e, err(mk("in", "blocked")))]

        def kind(I, st, fr, name, args, t, site):
            v = I.deref_val(st, args[0])
            if v.k == "in" and v.a[0] in ("blocked", "error"):
                k = mk("in", "kind of", v.a[0])
                absint.set_var(st, k, "WouldBlock" if v.a[0] == "blocked" else "UnexpectedEof")
                return [(st, k)]

        def keq(I, st, fr, name, args, t, site):
            vs = [I.deref_val(st, x) for x in args]
            k = [v for v in vs if v.k == "in" and v.a[0] == "kind of"]
            o = [v for v in vs if v.k == "adt"]
            if len(k) == 1 and len(o) == 1:
                b = (o[0].a[1] == "WouldBlock") == (k[0].a[1] == "blocked") if o[0].a[1] == "WouldBlock" else None
                if b is not None:
                    return [(st, K(int(b == (not name.endswith("::ne")))))]

        def put(I, st, fr, name, args, t, site):
            if not args or not isbuf(args[0]):
                return None
            fed, wait, piece = st.auto
            v = I.deref_val(st, args[1]) if args[1].k == "ref" else args[1]
            good = piece and v.k == "sl" and v.a[0] is PIECE and v.a[1] is K(0) and same(st, v.a[2], N)
            ob("each decrypted piece is appended whole and once", good, show(v)[:80] if piece else "appended again")
            st.auto = (fed, wait, False)
            return [(st, UNIT)]

        def prep(I, st, a):
            st.auto = ("start", "none", False)
            write(st, a[0].a[0] + ("f:" + buf,), held)
            a[1] = REST
        hooks = [DEREF, VIEW, WHOLE, (re.compile(r"rustls::ConnectionCommon.*::read_tls$"), read_tls), (re.compile(r"rustls::ConnectionCommon.*::process_new_packets$"), process),
                 (re.compile(r"rustls::Reader<.*> as std::io::Read>::read$"), rd), (re.compile(r"rustls::Reader<.*> as std::io::Read>::read_to_end$"), rd_all),
                 (re.compile(r"std::io::Error::kind$"), kind), (re.compile(r"std::io::ErrorKind as std::cmp::PartialEq>::(eq|ne)$"), keq),
                 (re.compile(r"Vec::<T, A>::extend_from_slice$|Vec<T, A> as std::iter::Extend<.*>>::extend$"), put)]
        I, cl, a, st0, outs = engine.run(p, f, hooks=hooks, prep=prep, part=lambda I, st: (st.auto,))
        for s, r in outs:
            ob.paths += 1
            fed, wait, piece = s.auto
            v = self_field(s, a, buf)
            ob("decrypted data waiting for the tick stays", v is held, show(v)[:80])
            good = r.k == "adt" and r.a[1] == "Ok"
            if not good:
                ob("failures are the transport's", fed == "failed", show(r)[:80])
                continue
            ob("failures are reported", fed != "failed", "success after a failure of the transport")
            ob("each decrypted piece is kept", not piece, "the last one is forgotten")
            ob("all decrypted data is read", wait == "none", "it stays inside rustls")
            ob("each offer is processed", fed != "unread", "returns before processing")
            ob("all input is consumed", fed in ("end", "failed") or not possible(s, ("ne", len_of(REST), 0)), f"returns with {fed}")
        ob.close("no input is offered while decrypted data waits", "each decrypted piece is appended whole and once", "all input is consumed", "decrypted data waiting for the tick stays")

    # ---- the tick
    f = ms.get("handle_tick")
    if c.anchor("TLS tick", [f] if f else []):
        ob = engine.Agg(c, "TLS tick", engine.where(f))
        OUT = mk("in", "bytes to send")
        EV = {k: mk("in", "events", k) for k in ("incoming", "tick")}
        has = lambda st, x: x in st.auto

        def mark(st, x):
            st.auto = tuple(sorted(set(st.auto) | {x}))

        def inc(I, st, fr, name, args, t, site):
            v = I.deref_val(st, args[1])
            ob("the plaintext goes whole to the MQTT engine", whole(st, v, held), show(v)[:80])
            ob("the plaintext goes once to the MQTT engine", not has(st, "given"), "twice")
            mark(st, "given")
            return [(st, EV["incoming"])]

        def tick(I, st, fr, name, args, t, site):
            ob("the MQTT engine is ticked once with the time given", args[1] is now[0] and not has(st, "ticked"), show(args[1])[:60])
            mark(st, "ticked")
            return [(st, EV["tick"])]

        def take(I, st, fr, name, args, t, site):
            ob("bytes to send are taken once", not has(st, "taken"), "twice")
            mark(st, "taken")
            return [(st, OUT)]

        def wr(I, st, fr, name, args, t, site):
            v = I.deref_val(st, args[1])
            ob("bytes to send are written whole", whole(st, v, OUT), show(v)[:80])
            ob("bytes to send are written once", not has(st, "written"), "twice")
            mark(st, "written")
            s2 = st.copy()
            return [(st, ok(UNIT if "write_all" in name else len_of(OUT))), (s2, err(mk("in", "io error")))]
        now = []

        def prep(I, st, a):
            st.auto = ()
            now.append(a[1])
            write(st, a[0].a[0] + ("f:" + buf,), held)
        E = re.escape(ENG)
        hooks = [DEREF, (re.compile(E + "::handle_incoming$"), inc), (re.compile(E + "::handle_tick$"), tick), (re.compile(E + "::take_outgoing$"), take),
                 (re.compile(r"rustls::Writer<.*> as std::io::Write>::write(_all)?$|std::io::Write::write_all$"), wr)]
        I, cl, a, st0, outs = engine.run(p, f, hooks=hooks, prep=prep, part=lambda I, st: (st.auto,))
        for s, r in outs:
            ob.paths += 1
            v = self_field(s, a, buf)
            if has(s, "given"):
                ob("plaintext handed over leaves the buffer", not possible(s, ("ne", len_of(v), 0)) or v.k == "vnew", show(v)[:80])
            else:
                ob("waiting plaintext is handed over", not possible(s, ("ne", len_of(held), 0)), "it is not given to the MQTT engine")
                ob("plaintext handed over leaves the buffer", v is held or v.k == "vnew", show(v)[:80])
            ob("bytes to send are written", has(s, "taken") and (has(s, "written") or not possible(s, ("ne", len_of(OUT), 0))), "they are dropped" if has(s, "taken") else "they are not taken")
            ob("the MQTT engine is ticked once with the time given", has(s, "ticked"), "it is not ticked")
            evs = flat(s, r)
            want = ([EV["incoming"]] if has(s, "given") else []) + [EV["tick"]]
            ob("all events are returned", evs is not None and sorted(map(id, evs)) == sorted(map(id, want)) and evs[-1:] == want[-1:], show(r)[:120])
        ob.close("waiting plaintext is handed over", "bytes to send are written", "all events are returned")

    # ---- output
    f = ms.get("take_socket_data")
    if c.anchor("TLS output", [f] if f else []):
        ob = engine.Agg(c, "TLS output", engine.where(f))
        WIRE = U8(mk("in", "wire"))

        def wt(I, st, fr, name, args, t, site):
            q = args[1].a[0] if args[1].k == "ref" else None
            while q and read(st, q).k == "ref":
                q = read(st, q).a[0]
            ob("what rustls wants sent is taken once", st.auto is None and q is not None, "twice")
            st.auto = "taken"
            if q:
                write(st, q, mk("cat", read(st, q), WIRE))
            s2 = st.copy()
            return [(st, ok(len_of(WIRE))), (s2, err(mk("in", "io error")))]
        I, cl, a, st0, outs = engine.run(p, f, hooks=[DEREF, (re.compile(r"rustls::ConnectionCommon.*::write_tls$"), wt),
                                                      (re.compile(r"rustls::(Common|Connection)\w*.*::wants_write$"), lambda I, st, fr, n, args, t, site: [(st, mk("in", "wants"))])], part=lambda I, st: (st.auto,))
        wants = mk("in", "wants")
        for s, r in outs:
            ob.paths += 1
            if s.auto == "taken":
                ob("what rustls wants sent is returned whole", flat(s, r) == [WIRE], show(r)[:80])
            else:
                ob("what rustls wants sent is returned whole", wants in s.var or wants in s.eqs or any(wants in subterms(k) for k in list(s.cons) + list(s.eqs)), "it is not taken")
        ob.close("what rustls wants sent is returned whole")

    # ---- construction
    f = ms.get("new")
    if c.anchor("TLS constructor", [f] if f else []):
        ob = engine.Agg(c, "TLS constructor", engine.where(f))

        def lim(I, st, fr, name, args, t, site):
            st.auto = "lifted" if args[1] is NONE else "limited"
            return [(st, UNIT)]
        I, cl, a, st0, outs = engine.run(p, f, hooks=[DEREF, (re.compile(r"::set_buffer_limit$"), lim), (re.compile(E + "::new$"), lambda I, st, fr, n, args, t, site: [(st, mk("in", "engine of", args[0]))])], part=lambda I, st: (st.auto,))
        for s, r in outs:
            ob.paths += 1
            if r.k == "adt" and r.a[1] == "Ok":
                x = r.a[3][0]
                ob("rustls takes whatever is written", s.auto == "lifted", "beyond its buffer limit data would be dropped")
                if x.k == "adt":
                    ob("the plaintext buffer is empty at first", engine.fget(x, buf).k == "vnew", show(x)[:80])
                    ob("the MQTT engine gets the options given", engine.fget(x, eng) is mk("in", "engine of", a[0]), show(engine.fget(x, eng))[:80])
                else:
                    ob("the engine is built here", False, show(x)[:80])
        ob.close("rustls takes whatever is written", "the plaintext buffer is empty at first")
    lims = [f for f in p.fns.values() if f.id.startswith(TLS + "::") and f.id != TLS + "::new" and any(t["t"] == "call" and "set_buffer_limit" in str(t["f"].get("f")) for t in terms_of(f))]
    c.ob("TLS buffer limit: set by the constructor alone", not lims, ", ".join(f.id for f in lims), "src/mqtt_client/tls_engine.rs")

    n = 0
    for m, f in sorted(ms.items()):
        if m in ("handle_socket_data", "handle_tick", "take_socket_data", "new"):
            continue
        n += forward(c, p, f, m, eng, "TLS")
    c.count("methods passed on", n)
    c.ob("TLS: methods passed on", n >= 7, f"{n}", "src/mqtt_client/tls_engine.rs")


def terms_of(f):
    for b in f.blocks:
        yield b["t"] if isinstance(b, dict) else b.t


def flat(s, v):
    """the sequences a sequence is made of"""
    if v.k == "ref":
        v = read(s, v.a[0])
    if v.k == "vnew":
        return []
    if v.k in ("cat", "vext"):
        x, y = flat(s, v.a[0]), flat(s, v.a[1])
        return None if x is None or y is None else x + y
    if v.k in ("copyof", "slv"):
        return flat(s, v.a[0])
    return [v]


def forward(c, p, f, m, eng, what):
    """the method calls its namesake of the engine inside, and nothing else"""
    ob = engine.Agg(c, f"{what} {m}", engine.where(f))
    R = mk("in", "answer")

    def call(I, st, fr, name, args, t, site):
        st.auto = (st.auto or ()) + ((name.rsplit("::", 1)[1], tuple(args)),)
        return [(st, R)]
    I, cl, a, st0, outs = engine.run(p, f, hooks=[(re.compile("^" + re.escape(ENG) + r"::\w+$"), call)])
    for s, r in outs:
        ob.paths += 1
        cs = s.auto or ()
        good = len(cs) == 1 and cs[0][0] == m and cs[0][1][0].k == "ref" and cs[0][1][0].a[0] == a[0].a[0] + ("f:" + eng,) and len(cs[0][1]) == len(a) and all(x is y for x, y in zip(cs[0][1][1:], a[1:]))
        ob("passed on unchanged", good, ", ".join(x[0] for x in cs) or "nothing is called")
        ob("the answer is returned", r is R or f.locals[0] == "()", show(r)[:60])
    ob.close("passed on unchanged")
    return 1


# ---------------------------------------------------------------- QUIC
def quic(c, p):
    tick = p.fns.get(QUIC + "::handle_tick")
    if not c.anchor("QUIC engine", [a for a in (QUIC,) if a in p.adts]) or not c.anchor("QUIC tick", [tick] if tick else []):
        return
    fs = engine.fields(p, QUIC)
    one = lambda n, xs: xs[0] if c.anchor(n, xs if len(xs) == 1 else []) else None
    cbuf = one("control buffer", [n for n, t in fs.items() if t == "std::vec::Vec<u8>"])
    streams = one("table of data streams", [(n, t) for n, t in fs.items() if t.startswith("std::collections::HashMap<quinn_proto::StreamId, ")])
    grams = one("queue of datagrams", [n for n, t in fs.items() if t == "std::collections::VecDeque<(std::net::SocketAddr, std::vec::Vec<u8>)>"])
    if not (cbuf and streams and grams):
        return
    DSA = re.match(r".*StreamId, ([\w:]+)", streams[1]).group(1)
    ds = engine.fields(p, DSA)
    obuf = one("buffer of a data stream", [n for n, t in ds.items() if t == "std::vec::Vec<u8>"])
    pars = one("parser of a data stream", [n for n, t in ds.items() if t.endswith("::MqttParser")])
    if not (obuf and pars):
        return
    opts = {n for n, t in fs.items() if t == "std::option::Option<quinn_proto::StreamId>"}
    ob = engine.Agg(c, "QUIC tick", engine.where(tick))
    KEY, DS, OUT, GRAM, BYTES = mk("in", "a stream"), mk("in", "a data stream"), U8(mk("in", "bytes to send")), U8(mk("in", "datagram")), {}
    seen = {"chunks": 0, "writes": 0, "finishes": 0, "grams": 0, "discards": 0}
    ctl = set()         # fields the control buffer is written to
    me = []             # path of the engine

    def au(st):
        return dict(st.auto)

    def setau(st, **kw):
        d = au(st)
        for k, v in kw.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        st.auto = tuple(sorted(d.items(), key=lambda x: x[0]))

    def loc(a):
        """which outgoing buffer a reference is to"""
        if a.k != "ref":
            return None
        q = a.a[0]
        if q == me[0] + ("f:" + cbuf,):
            return q
        if q[-1:] == ("f:" + obuf,) and q[0][0] in ("G", "T"):
            return q

    def field_of(st, t):
        """the field of the engine a stream identifier comes from"""
        for n in sorted(opts):
            v = read(st, me[0] + ("f:" + n,))
            if t is engine.pay(v, "Some") or v.k == "adt" and v.a[1] == "Some" and v.a[3][0] is t:
                return n
        return None

    def unref(st, v):
        for _ in range(4):
            if v.k != "ref":
                break
            v = read(st, v.a[0])
        return v

    def settle(st):
        d = au(st)
        if "wrote" in d:
            q, old, n = d["wrote"]
            v = read(st, q)
            good = v.k == "sl" and v.a[0] is old and same(st, v.a[1], n) and same(st, v.a[2], lsub(len_of(old), n)) or v is old and same(st, n, K(0))
            ob("exactly what was written leaves the buffer", good, f"{show(v)[:80]} is kept after writing {show(n)[:30]} bytes")
            setau(st, wrote=None)
        if "dropped" in d:
            ob("a control buffer is only discarded with its stream", not open_(st), "the stream goes on without those bytes")
            setau(st, dropped=None)

    def open_(st):
        """may the control stream still be open?"""
        return all(possible(st, ("var", read(st, me[0] + ("f:" + n,)), "Some")) for n in (ctl or opts))

    def stop(st, what):
        settle(st)
        ob("every chunk goes to the parser of its stream", "chunk" not in au(st), what)
        setau(st, chunk=None)

    def sid(kind):
        def h(I, st, fr, name, args, t, site):
            stop(st, "a chunk is read but not parsed")
            return [(st, mk("stream", kind, unref(st, args[1])))]
        return h

    def readh(I, st, fr, name, args, t, site):
        ob("streams are read in order", args[1] is K(1), "unordered")
        r = unref(st, args[0])
        s2 = st.copy()
        return [(st, ok(mk("chunks", r.a[1] if r.k == "stream" else r))), (s2, err(mk("in", "readable error")))]

    def nexth(I, st, fr, name, args, t, site):
        r = unref(st, args[0])
        if r.k != "chunks":
            ob("chunks come from a stream that is known", False, show(r)[:80])
            return None
        stop(st, "the next is read before")
        i = r.a[0]
        CH = mk("chunk", i)
        a, b, e = st.copy(), st.copy(), st.copy()
        forget(a, CH)
        setau(a, chunk=i)
        seen["chunks"] += 1
        E = mk("in", "read error")
        forget(e, E)
        return [(a, ok(some(CH))), (b, ok(NONE)), (e, err(E))]

    def chunk_given(st, v, what):
        i = au(st).get("chunk")
        v = unref(st, v)
        good = i is not None and any(x.k == "pr" and x.a[0] is mk("chunk", i) for x in subterms(v)) and not any(x.k == "sl" and not (x.a[1] is K(0) and same(st, x.a[2], len_of(x.a[0]))) for x in subterms(v))
        ob("each chunk is handed over whole and once", good, f"{show(v)[:80]}" if i is not None else f"{what} again")
        setau(st, chunk=None)
        return i

    def inch(I, st, fr, name, args, t, site):
        i = chunk_given(st, args[1], "a chunk is handed over")
        if i is not None:
            f = field_of(st, i)
            ob("every chunk goes to the parser of its stream", f is not None, f"{show(i)[:60]} goes to the session's")
            if f:
                ctl.add(f)
        return [(st, mk("in", "events", site))]

    def feedh(I, st, fr, name, args, t, site):
        a = args[0]
        i = chunk_given(st, args[1], "a chunk is handed over")
        if i is not None:
            good = a.k == "ref" and a.a[0][0] == ("T", mk("stream state", i)) and a.a[0][1:] == ("f:" + pars,)
            ob("every chunk goes to the parser of its stream", good, f"{show(i)[:60]} goes to {show(a)[:60]}")
        return [(st, UNIT)]

    def getm(I, st, fr, name, args, t, site):
        if args[0].k != "ref" or args[0].a[0] != me[0] + ("f:" + streams[0],):
            return None
        k = unref(st, args[1])
        s2 = st.copy()
        if au(s2).get("chunk") is k:
            setau(s2, chunk=None)       # a stream no longer known
        x = mk("stream state", k)
        return [(st, some(mk("ref", (("T", x),), 1))), (s2, NONE)]

    def itern(I, st, fr, name, args, t, site):
        ty = str(t["f"].get("g")) + fr.fn.locals[t["d"][0]]
        if DSA not in ty or "StreamId" not in ty:
            return None
        stop(st, "the tick goes on")
        s2 = st.copy()
        forget(st, KEY, DS)
        write(st, (("G", "key"),), KEY)
        write(st, (("G", "ds"),), DS)
        kr, vr = mk("ref", (("G", "key"),), 0), mk("ref", (("G", "ds"),), 1)
        return [(s2, NONE), (st, some(vr if re.search(r"Option<&mut [\w:]+>$", fr.fn.locals[t["d"][0]]) else mk("tup", (kr, vr))))]

    def fits(st, stream, q):
        """is the buffer that of the stream?"""
        if stream.k != "stream":
            return False
        i = stream.a[1]
        if q == me[0] + ("f:" + cbuf,):
            f = field_of(st, i)
            if f:
                ctl.add(f)
            return f is not None
        return q[0] == ("G", "ds") and i is KEY or q[0][0] == "T" and q[0][1] is mk("stream state", i)

    def writeh(I, st, fr, name, args, t, site):
        settle(st)
        s = unref(st, args[0])
        a = args[1]
        q = loc(a)
        if q is None and a.k in ("sl", "copyof", "slv"):
            # a slice by value: find the buffer it shows
            for q2 in (me[0] + ("f:" + cbuf,), (("G", "ds"), "f:" + obuf)):
                if whole(st, a, read(st, q2)):
                    q = q2
        ob("a stream is written from the start of its own buffer", q is not None and fits(st, s, q), f"{show(a)[:60]} to {show(s)[:60]}")
        seen["writes"] += 1
        e = st.copy()
        if q is None:
            return None
        old = read(st, q)
        n = absint.ranged(mk("in", "written"), 0, 1 << 40)
        forget(st, n)
        absint.add_ge(st, lsub(len_of(old), n))
        setau(st, wrote=(q, old, n))
        return [(st, ok(n)), (e, err(mk("in", "write error")))]

    def drainh(I, st, fr, name, args, t, site):
        q = loc(args[0])
        if q is None:
            return None
        v = read(st, q)
        r = args[1]
        n = len_of(v)
        lo, hi = K(0), n
        if r.k == "adt":
            fl = dict(zip(r.a[2], r.a[3]))
            lo, hi = fl.get("start", lo), fl.get("end", hi)
        ob("exactly what was written leaves the buffer", lo is K(0) and "wrote" in au(st), f"{show(r)[:60]}")
        write(st, q, mk("sl", v, hi, lsub(n, hi)))
        if "wrote" in au(st):
            q2, old, k = au(st)["wrote"]
            if q2 == q and v is old and same(st, hi, k):
                setau(st, wrote=None)
        return [(st, mk("in", "drained"))]

    def splith(I, st, fr, name, args, t, site):
        q = loc(args[0])
        if q is None:
            return None
        v = read(st, q)
        write(st, q, mk("sl", v, K(0), args[1]))
        return [(st, mk("sl", v, args[1], lsub(len_of(v), args[1])))]

    def clearh(I, st, fr, name, args, t, site):
        q = loc(args[0])
        if q is None:
            return None
        seen["discards"] += 1
        if q == me[0] + ("f:" + cbuf,):
            setau(st, dropped=1, wrote=None)
            if not open_(st):
                setau(st, dropped=None)
        else:
            ob("a data stream's buffer is not discarded", False, "cleared")
        write(st, q, mk("vnew"))
        return [(st, UNIT)]

    def puth(I, st, fr, name, args, t, site):
        q = loc(args[0])
        if q is None:
            return None
        v = unref(st, args[1])
        if q == me[0] + ("f:" + cbuf,) and "taken" in au(st):
            ob("bytes of the session go whole to the control stream", whole(st, v, OUT), show(v)[:80])
            setau(st, taken=None)
            settle(st)
            write(st, q, mk("cat", read(st, q), OUT))
            return [(st, UNIT)]
        if any(x is OUT for x in subterms(v)):
            ob("bytes of the session go once to the control stream", False, "appended again")
        return None

    def takeh(I, st, fr, name, args, t, site):
        ob("bytes of the session go whole to the control stream", "taken" not in au(st), "taken twice")
        forget(st, OUT)
        setau(st, taken=1)
        return [(st, OUT)]

    def finish(I, st, fr, name, args, t, site):
        settle(st)
        seen["finishes"] += 1
        s = unref(st, args[0])
        good = False
        for q in (me[0] + ("f:" + cbuf,), (("G", "ds"), "f:" + obuf)):
            if fits(st, s, q):
                good = not possible(st, ("ne", len_of(read(st, q)), 0))
        ob("a stream is finished only when its buffer is empty", good, show(s)[:60])
        s2 = st.copy()
        return [(st, ok(UNIT)), (s2, err(mk("in", "finish error")))]

    def closeh(I, st, fr, name, args, t, site):
        settle(st)
        v = read(st, me[0] + ("f:" + cbuf,))
        ob("the connection is closed only when the control buffer is empty", not possible(st, ("ne", len_of(v), 0)), show(v)[:60])
        return [(st, UNIT)]

    def transmit(I, st, fr, name, args, t, site):
        stop(st, "the tick goes on")
        ob("every datagram is queued", "gram" not in au(st), "the next is made before")
        ob("datagrams are made one at a time", args[2] is K(1), show(args[2])[:40])
        q = args[3].a[0] if args[3].k == "ref" else None
        v = unref(st, args[3])
        ob("each datagram is made in an empty buffer", q is not None and not possible(st, ("ne", len_of(v), 0)), show(v)[:60])
        if q is None:
            return None
        s2 = st.copy()
        TR = mk("in", "transmit")
        forget(st, GRAM, TR)
        while read(st, q).k == "ref":
            q = read(st, q).a[0]
        write(st, q, GRAM)
        setau(st, gram=1)
        seen["grams"] += 1
        return [(s2, NONE), (st, some(TR))]

    def pushg(I, st, fr, name, args, t, site):
        if args[0].k != "ref" or args[0].a[0] != me[0] + ("f:" + grams,):
            return None
        v = args[1]
        good = "gram" in au(st) and name.endswith("push_back") and v.k == "tup" and whole(st, v.a[0][1], GRAM) and any(x is mk("in", "transmit") for x in subterms(v.a[0][0]))
        ob("each datagram is queued once, last, for its destination", good, show(v)[:100])
        setau(st, gram=None)
        return [(st, UNIT)]

    def any_(I, st, fr, name, args, t, site):
        settle(st)
        return [(st, mk("call", name, (), site))]
    E = re.escape(ENG)
    Q = "quinn_proto::"
    hooks = [(re.compile(Q + r"Connection::recv_stream$"), sid("recv")), (re.compile(Q + r"Connection::send_stream$"), sid("send")),
             (re.compile(Q + r"RecvStream.*::read$"), readh), (re.compile(Q + r"Chunks.*::next$"), nexth),
             (re.compile(Q + r"SendStream.*::(write|write_all)$"), writeh), (re.compile(Q + r"SendStream.*::finish$"), finish),
             (re.compile(Q + r"Connection::close$"), closeh), (re.compile(Q + r"Connection::poll_transmit$"), transmit),
             (re.compile(E + "::handle_incoming$"), inch), (re.compile(E + "::take_outgoing$"), takeh), (re.compile(r"::MqttParser::feed$"), feedh),
             (re.compile(r"HashMap::<K, V, S.*>::(get|get_mut)$"), getm), (re.compile(r"Iterator(>|)::next$"), itern),
             (re.compile(r"Vec::<T, A>::drain$"), drainh), (re.compile(r"Vec::<T, A>::split_off$"), splith), (re.compile(r"Vec::<T, A>::(clear|truncate|retain|pop|remove|swap_remove|insert|resize)$"), clearh),
             (re.compile(r"Vec::<T, A>::(extend_from_slice|append)$|Vec<T, A> as std::iter::Extend<.*>>::extend$"), puth),
             (re.compile(r"VecDeque::<T, A>::push_(back|front)$"), pushg),
             (re.compile(E + r"::(connect|reset_for_new_transport|handle_connection_lost|handle_tick|take_stream_retransmissions|options|mqtt_version|is_connected)$"), any_),
             (re.compile("^" + re.escape(QUIC) + r"::(drain_data_stream|replay_early_stream_journals|journal_stream_\w+|enqueue_on_stream|close_\w+)$|::transport_close_details$"), any_)]

    def prep(I, st, a):
        me.append(a[0].a[0])
        st.auto = ()
        write(st, (("G", "key"),), KEY)
        write(st, (("G", "ds"),), DS)
    I, cl, a, st0, outs = engine.run(p, tick, hooks=hooks, prep=prep, part=lambda I, st: (st.auto,), budget=3000000)
    for s, r in outs:
        ob.paths += 1
        stop(s, "the tick ends")
        ob("every datagram is queued", "gram" not in au(s), "the tick ends")
        ob("bytes of the session go whole to the control stream", "taken" not in au(s) or not possible(s, ("ne", len_of(OUT), 0)), "they are dropped")
    ob("one stream is the control stream", len(ctl) == 1, ", ".join(sorted(ctl)))
    ob.close("streams are read in order", "every chunk goes to the parser of its stream", "each chunk is handed over whole and once", "exactly what was written leaves the buffer", "a stream is finished only when its buffer is empty",
             "the connection is closed only when the control buffer is empty", "each datagram is queued once, last, for its destination", "bytes of the session go whole to the control stream")
    for k, n in seen.items():
        c.count(k, n)
    c.ob("QUIC tick: enough was looked at", seen["chunks"] >= 2 and seen["writes"] >= 2 and seen["finishes"] >= 2 and seen["grams"] >= 2, str(seen), engine.where(tick))
    adders(c, p, cbuf, streams[0], obuf, DSA, opts)


DISCARD = re.compile(r"Vec::<T, A>::(clear|truncate|retain|drain|split_off|pop|remove|swap_remove|insert|resize)$|std::mem::(take|replace)$")


def adders(c, p, cbuf, table, obuf, DSA, opts):
    """whatever else puts bytes into an outgoing buffer, or takes some out"""
    fs = engine.fields(p, QUIC)
    zst = [n for n, t in fs.items() if t.endswith("::QuicZeroRttStatus")]
    ms = [f for f in engine.methods(p, QUIC) if "tests" not in f.id]
    calls = lambda f: [t["f"] for t in terms_of(f) if t["t"] == "call" and isinstance(t.get("f"), dict)]
    take = ENG + "::take_outgoing"
    todo = []
    for f in ms:
        if f.id.endswith("::handle_tick"):
            continue
        tys = f.locals[1:f.nargs + 1]
        if tys and tys[0].startswith("&mut " + QUIC) and "&[u8]" in tys and any(t in ("u64", "quinn_proto::StreamId") for t in tys):
            todo.append((f, "bytes"))
        elif any(x.get("f") == take for x in calls(f)):
            todo.append((f, "taken"))
    if not c.anchor("methods that queue bytes", todo) or not c.anchor("0-RTT status", zst):
        return
    OUT = U8(mk("in", "bytes to send"))
    jr = [f for f in p.fns.values() if f.id.startswith(QUIC) and f.nargs >= 3 and "&[u8]" in f.locals[1:f.nargs + 1] and "quinn_proto::StreamId" in f.locals[1:f.nargs + 1] and f.locals[1].startswith("&mut [")]
    if not c.anchor("journal of early data", jr):
        return
    nq = 0
    for f, kind in sorted(todo, key=lambda x: x[0].id):
        ob = engine.Agg(c, f"QUIC {f.id.rsplit('::', 1)[1]}", engine.where(f))
        me = []

        def add(st, x):
            st.auto = (st.auto or ()) + (x,)

        def getm(I, st, fr, name, args, t, site):
            if args[0].k != "ref" or args[0].a[0] != me[0] + ("f:" + table,):
                return None
            k = args[1]
            while k.k == "ref":
                k = read(st, k.a[0])
            s2 = st.copy()
            add(s2, ("unknown", k))
            return [(st, some(mk("ref", (("T", mk("stream state", k)),), 1))), (s2, NONE)]

        def puth(I, st, fr, name, args, t, site):
            if args[0].k != "ref":
                return None
            q = args[0].a[0]
            v = I.deref_val(st, args[1]) if args[1].k == "ref" else args[1]
            if q == me[0] + ("f:" + cbuf,) or q[-1] == "f:" + obuf and q[0][0] == "T":
                add(st, ("put", "control" if q[0][0] != "T" else q[0][1], whole(st, v, OUT), v))
                return [(st, UNIT)]

        def takeh(I, st, fr, name, args, t, site):
            add(st, ("taken",))
            return [(st, OUT)]

        def jh(I, st, fr, name, args, t, site):
            i = [k for k in range(jr[0].nargs) if jr[0].locals[k + 1] == "quinn_proto::StreamId"][0]
            b = [k for k in range(jr[0].nargs) if jr[0].locals[k + 1] == "&[u8]"][0]
            v = I.deref_val(st, args[b])
            add(st, ("journal", args[i], whole(st, v, OUT), v))
            return [(st, UNIT)]

        def any_(I, st, fr, name, args, t, site):
            return [(st, mk("call", name, (), site))]
        def zeq(I, st, fr, name, args, t, site):
            vs = []
            for x in args:
                while x.k == "ref":
                    x = read(st, x.a[0])
                vs.append(x)
            k = [x for x in vs if x.k == "adt"]
            o = [x for x in vs if x.k != "adt"]
            if len(k) == 1 and len(o) == 1:
                s2, out = st.copy(), []
                if absint.set_var(st, o[0], k[0].a[1]):
                    out.append((st, K(1)))
                if absint.set_var(s2, o[0], k[0].a[1], False):
                    out.append((s2, K(0)))
                return out
        E = re.escape(ENG)
        hooks = [(re.compile(r"QuicZeroRttStatus as std::cmp::PartialEq>::eq$"), zeq), (re.compile(E + "::take_outgoing$"), takeh), (re.compile(r"HashMap::<K, V, S.*>::(get|get_mut)$"), getm), (re.compile("^" + re.escape(jr[0].id) + "$"), jh),
                 (re.compile(r"Vec::<T, A>::(extend_from_slice|append)$|Vec<T, A> as std::iter::Extend<.*>>::extend$"), puth),
                 (re.compile(E + r"::(connect|reset_for_new_transport|handle_connection_lost|handle_tick|is_connected)$"), any_)]
        ids = [i for i in range(f.nargs) if f.locals[i + 1] in ("u64", "quinn_proto::StreamId")]

        def prep(I, st, a):
            me.append(a[0].a[0])
            st.auto = ()
            for i in range(f.nargs):
                if f.locals[i + 1] == "&[u8]" and kind == "bytes":
                    a[i] = OUT
        I, cl, a, st0, outs = engine.run(p, f, hooks=hooks, prep=prep)
        for s, r in outs:
            ob.paths += 1
            tr = s.auto or ()
            puts, jour = [x for x in tr if x[0] == "put"], [x for x in tr if x[0] == "journal"]
            refused = r.k == "adt" and r.a[1] == "Err"
            due = kind == "bytes" and not refused and not any(x[0] == "unknown" for x in tr) or any(x[0] == "taken" for x in tr)
            if refused and kind == "bytes":
                ob("nothing is queued when an error is returned", not puts, "bytes are queued all the same")
                continue
            empty = not possible(s, ("ne", len_of(OUT), 0))
            ob("the bytes are queued", bool(puts) or not due or empty, "they are dropped")
            ob("the bytes are queued whole and once", len(puts) <= 1 and all(x[2] for x in puts), show(puts[0][3])[:80] if puts else "")
            cv = [read(s, me[0] + ("f:" + n,)) for n in sorted(opts)]
            for x in puts:
                if kind == "bytes" and x[1] != "control" and f.locals[ids[0] + 1] == "quinn_proto::StreamId":
                    ob("the bytes are queued on the stream asked for", x[1].a[0] is a[ids[0]], show(x[1])[:80])
                if kind == "bytes" and x[1] == "control":
                    ob("the bytes are queued on the stream asked for", any(possible(s, ("var", v, "Some")) and any(y is a[ids[0]] or y in subterms(engine.pay(v, "Some")) for y in subterms(mk("tup", tuple(list(s.cons) + list(s.eqs) + list(s.var))))) for v in cv), "the control stream")
                if kind == "taken":
                    ob("bytes of the session are queued on the control stream", x[1] == "control", show(x[1])[:60])
                z = read(s, me[0] + ("f:" + zst[0],))
                if possible(s, ("var", z, "Attempted")):
                    stream = x[1].a[0] if x[1] != "control" else None
                    nostream = x[1] == "control" and any(not possible(s, ("var", v, "Some")) for v in cv)
                    good = len(jour) == 1 and jour[0][2] and (stream is None or jour[0][1] is stream)
                    ob("early data is remembered in case it is refused", good or nostream, show(jour[0][3])[:60] if jour else "it is not")
        if kind == "bytes" and not any(x[0] == "put" for s, r in outs for x in s.auto or ()):
            continue            # the bytes are not for a stream
        nq += 1
        ob.close("the bytes are queued", "the bytes are queued whole and once")
    c.ob("QUIC: methods that queue bytes", nq >= 3, f"{nq}", "src/mqtt_client/engine.rs")
    # ---- discards elsewhere
    inl = {"handle_tick"}
    n = 0
    for f in ms:
        own = f.id.rsplit("::", 1)[1]
        if own in inl:
            continue
        src, bad = set(), False
        for b in f.blocks:
            for x in b["s"]:
                if x[0] == "=" and x[2]["r"] == "ref" and len(x[1]) == 1 and list(x[2]["p"][-1:])[0:1] and not isinstance(x[2]["p"][-1], int) and list(x[2]["p"][-1][:2]) in (["f", cbuf], ["f", obuf]):
                    src.add(x[1][0])
        for t in terms_of(f):
            if t["t"] == "call" and isinstance(t.get("f"), dict) and DISCARD.search(t["f"].get("f", "")) and t["args"] and (t["args"][0].get("p") or [None])[0] in src:
                bad = True
        if bad:
            n += 1
            fine = any(re.search(r"SendStream.*::reset$", x.get("f", "")) for x in calls(f)) or any(x for x in engine_writes(p, f, "connection"))
            c.ob(f"QUIC {own}: bytes are only discarded with their stream or connection", fine, "the stream goes on without them", engine.where(f))
    c.count("functions that discard", n)
    c.ob("QUIC: discards were recognised", n >= 2, f"{n} functions", "src/mqtt_client/engine.rs")


def engine_writes(p, f, field):
    """does the function replace the QUIC connection?"""
    import effects
    fs = engine.fields(p, QUIC)
    return [1 for n, t in fs.items() if re.match(r"std::option::Option<quinn_proto::Connection>", t) for u in effects.users(p, QUIC, n, ("write",)) if u[0] is f]
