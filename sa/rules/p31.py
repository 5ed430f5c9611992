"""P31: the clients around the engines hand calls and answers through."""
import re
import absint, aio, engine
from absint import read, write
from engine import fget, pay, possible
from rules.p29 import unref, mentions, names_of, camel
from terms import *

RULE = ("Abstract interpretation of every public method of the client without I/O: it asks the engine inside for exactly the operation of its name, with the arguments given, and returns its answer. "
        "The same for every public call of the QUIC client: one command of its name carrying its arguments and its own answer channel; the answer that comes back is what is returned. "
        "One turn of the QUIC worker from an arbitrary state: a command asks the engine exactly what it says and answers its caller once, with the engine's result; a received datagram reaches the engine whole with its sender; every event of a tick is handed to the application in order; "
        "the datagrams the engine produces are queued behind those waiting, and sent whole, in order, to where they belong; one the socket has no room for stays first.")
THOROUGH_CONFIGS = ("default",)
ENG = engine.ENG
QENG = "flowsdk::mqtt_client::engine::QuicMqttEngine"
ERRNO = {"ConnectionRefused": 2, "WouldBlock": 13}     # of std::io::ErrorKind
ALIAS = {"ping": "send_ping"}


def run(c):
    p = c.prog()
    plain(c, p)
    if any(a.startswith("flowsdk::mqtt_client::tokio_quic_client::") for a in p.adts):
        k = Quic(c, p)
        k.calls()
        k.worker()


# ---------------------------------------------------------------- the client without I/O
def plain(c, p):
    ws = [a for a in p.adts if a.startswith("flowsdk::") and list(engine.fields(p, a).values()) == [ENG]]
    if not c.anchor("client without I/O", ws, 1):
        return
    n = 0
    for w in ws:
        e = list(engine.fields(p, w))[0]
        for f in engine.methods(p, w):
            if f.d.get("vis") != "Public" or "{" in f.id:
                continue
            m = f.id.rsplit("::", 1)[1]
            ob = engine.Agg(c, f"{w.rsplit('::', 1)[1]}.{m}", engine.where(f))
            R = mk("in", "answer")
            made = f.locals[0] == w

            def call(I, st, fr, name, args, t, site):
                st.auto = (st.auto or ()) + ((name.rsplit("::", 1)[1], tuple(args)),)
                return [(st, R)]
            I, cl, a, st0, outs = engine.run(p, f, hooks=[(re.compile("^" + re.escape(ENG) + r"::\w+$"), call)])
            for s, r in outs:
                ob.paths += 1
                cs = s.auto or ()
                want = ALIAS.get(m, m)
                if made:
                    ob("passed on unchanged", len(cs) == 1 and cs[0][0] == "new" and list(cs[0][1]) == list(a) and fget(r, e) is R, ", ".join(x[0] for x in cs))
                    continue
                asked = [x for x in cs if x[0] == want]
                me = f.locals[1].startswith("&") and asked and asked[0][1][0].k == "ref" and asked[0][1][0].a[0] == a[0].a[0] + ("f:" + e,)
                same_ = len(asked) == 1 and len(asked[0][1]) == len(a) and all(x is y for x, y in zip(asked[0][1][1:], a[1:]))
                ob("passed on unchanged", bool(me and same_), ", ".join(f"{x[0]}({', '.join(show(y)[:30] for y in x[1][1:])})" for x in cs) or "nothing is asked")
                ob("nothing else is asked", all(x[0] == want or x[0] in READERS for x in cs), ", ".join(x[0] for x in cs))
                ob("the answer is returned", again(s, r, R) or f.locals[0] == "()", show(r)[:60])
            ob.close("passed on unchanged")
            n += 1
    c.count("methods without I/O", n)
    c.ob("the methods are found", n >= 12, f"{n}", "src/mqtt_client/no_io_client.rs")


READERS = {"is_connected", "mqtt_version", "options", "next_tick_at"}


# ---------------------------------------------------------------- QUIC
class Quic:
    MOD = "flowsdk::mqtt_client::tokio_quic_client::"

    def __init__(self, c, p):
        self.c, self.p = c, p
        self.cmd = next((a for a in p.adts if a.startswith(self.MOD) and {"Publish", "Subscribe"} <= {v["n"] for v in p.adts[a]["vs"]} and "__tokio" not in a), None)
        self.client = next((a for a in p.adts if a.startswith(self.MOD) and f"tokio::sync::mpsc::Sender<{self.cmd}>" in engine.fields(p, a).values()), None)
        self.vs = {v["n"]: [(x[0], x[1]) for x in v["fs"]] for v in p.adts[self.cmd]["vs"]} if self.cmd else {}

    def calls(self):
        c, p = self.c, self.p
        if not c.anchor("commands of the QUIC client", [self.cmd] if self.cmd else [], 1) or not c.anchor("QUIC client", [self.client] if self.client else [], 1):
            return
        seen = set()
        for f in engine.methods(p, self.client):
            g = aio.body(p, f.id)
            m = f.id.rsplit("::", 1)[1]
            if g is None or "{" in f.id or f.d.get("vis") != "Public" or not f.locals[0].startswith("{async"):
                continue
            vs = [v for v in self.vs if camel(m).startswith(v)]
            if len(vs) != 1:
                continue        # next_event: what the worker hands over
            self.call(f, g, m, vs[0])
            seen.add(vs[0])
        c.ob("every command can be asked for", seen == set(self.vs), ", ".join(sorted(set(self.vs) - seen)), "src/mqtt_client/tokio_quic_client.rs")

    def call(self, f, g, m, variant):
        c, p = self.c, self.p
        ob = engine.Agg(c, f"QUIC client.{m}", engine.where(f))
        names = {i: names_of(f).get(i, str(i)) for i in range(2, f.nargs + 1)}
        ARG = {i: mk("in", "argument", names[i]) for i in names}
        TX, RX, ANS, WHY = (mk("in", x) for x in ("answer sender", "answer receiver", "answer", "refusal"))
        ME = (("G", "client"),)

        def note(st, *x):
            st.auto = (st.auto or ()) + (x,)

        def chan(I, st, fr, name, args, t, site):
            return [(st, mk("tup", (TX, RX)))]

        def send(I, st, fr, name, args, t, site):
            return [(st, mk("sending", args[1]))]

        def done(I, st, fut, ty, t, site):
            s2 = st.copy()
            if fut.k == "sending":
                note(st, "cmd", fut.a[0])
                note(s2, "gone")
                return [(st, ok(UNIT)), (s2, err(mk("in", "worker gone")))]
            if fut is RX:
                s3 = st.copy()
                note(st, "answer")
                note(s2, "refused")
                note(s3, "closed")
                return [(st, ok(ok(ANS))), (s2, ok(err(WHY))), (s3, err(mk("in", "closed")))]

        def prep(I, st, a):
            st.auto = ()
            write(st, ME, mk("in", "client"))
            a[0] = mk("clos", g.id, (mk("ref", ME, 0),) + tuple(ARG[i] for i in sorted(ARG)))
        I, cl, a, st0, outs = engine.run(p, g, hooks=aio.hooks(done) + [(re.compile(r"oneshot::channel$"), chan), (re.compile(r"mpsc::(bounded::)?Sender::<T>::send$"), send)], prep=prep, part=lambda I, st: (st.auto,))
        for s, r in outs:
            ob.paths += 1
            tr = s.auto or ()
            kinds = [x[0] for x in tr]
            cmds = [x[1] for x in tr if x[0] == "cmd"]
            for x in cmds:
                good = x.k == "adt" and x.a[1] == variant
                ob("the command of its name is sent", good, show(x)[:80])
                if not good:
                    continue
                for n, t in self.vs[variant]:
                    v = fget(x, n)
                    if "oneshot::Sender<" in t:
                        ob("its answer comes back to it", v is TX, show(v)[:60])
                        continue
                    hit = [ARG[i] for i in ARG if names[i] == n] or [ARG[i] for i in ARG if f.locals[i] == t]
                    if not hit:
                        ob("nothing is made up", v is NONE, f"{n} = {show(v)[:60]}")
                    else:
                        same_ = any(f.locals[i] == t for i in ARG if ARG[i] in hit)
                        ob("the arguments are those given", any(v is h for h in hit) or not same_ and any(mentions(v, h, s) for h in hit), f"{n} = {show(v)[:60]}")
            ob("one command is sent", len(cmds) == 1 or "gone" in kinds and not cmds, f"{len(cmds)}")
            good = r.k == "adt" and r.a[1] in ("Ok", "Err")
            if not good:
                ob("it succeeds or fails", False, show(r)[:80])
            elif "answer" in kinds:
                ob("the result is the answer", r.a[1] == "Ok" and r.a[3][0] is ANS, show(r)[:80])
            elif "refused" in kinds:
                ob("a refusal is handed on", r.a[1] == "Err" and r.a[3][0] is WHY, show(r)[:80])
            else:
                ob("without an answer it fails", r.a[1] == "Err", show(r)[:80])
        ob.close("the command of its name is sent", "one command is sent", "the result is the answer", "a refusal is handed on", "without an answer it fails", "its answer comes back to it", *(["the arguments are those given"] if ARG else []))

    # ------------------------------------------------------------ the worker
    SOCK = r"std::option::Option<tokio::net::UdpSocket>"
    DEQ = "std::collections::VecDeque<(std::net::SocketAddr, std::vec::Vec<u8>)>"

    frame = None

    def worker(self):
        c, p = self.c, self.p
        fs = [f for f in p.fns.values() if f.id.startswith(self.MOD) and any(l.endswith(f"mpsc::Receiver<{self.cmd}>") for l in f.locals[1:f.nargs + 1])]
        g = aio.body(p, fs[0].id) if len(fs) == 1 else None
        if not c.anchor("worker of the QUIC client", [g] if g else [], 1):
            return
        at = engine.where(fs[0])
        CMD = mk("in", "command")
        LEN, FROM, BUF = absint.ranged(mk("in", "length received"), 0, 2048), mk("in", "sender"), mk("in", "received bytes")
        obs = {}

        def ob(name):
            if name not in obs:
                obs[name] = engine.Agg(c, f"QUIC worker, {name}", at)
            return obs[name]

        def note(st, *x):
            st.auto = (st.auto or ()) + (x,)

        def fork(good, bad, what):
            def h(I, st, fr, name, args, t, site):
                s2 = st.copy()
                note(s2, "failed", what)
                return [(st, ok(good(I, st, fr, args))), (s2, err(mk("in", "error", what)))]
            return h

        def prior(st, fr):
            """any state between two turns"""
            own = changed(fr.fn)
            for n, ty in enumerate(fr.fn.locals):
                if ty == self.SOCK:
                    write(st, (("L", fr.fid, n),), mk("in", "socket"))
                elif ty == self.DEQ:
                    write(st, (("L", fr.fid, n),), mk("in", "waiting datagrams"))
                elif re.match(r"\[u8; ", ty):
                    write(st, (("L", fr.fid, n),), BUF)
                elif n in own:
                    v = mk("in", "state", fr.fn.names[n])
                    write(st, (("L", fr.fid, n),), absint.ranged(v, *INTS[ty]) if ty in INTS else v)

        def done(I, st, fut, ty, t, site):
            if fut.k == "sending":
                s2 = st.copy()
                note(st, "event", fut.a[0])
                note(s2, "nobody listens")
                return [(st, ok(UNIT)), (s2, err(mk("in", "closed")))]
            if "__tokio_select_util::Out<" in ty:
                if st.auto:
                    self.turn(ob, st, CMD, LEN, FROM, BUF)
                    return []
                name, arms = ty.split("<", 1)[0], split(ty.split("<", 1)[1][:-1])
                fr = self.frame[0]
                prior(st, fr)
                out = []
                for n, arm in enumerate(arms):
                    vals = []
                    if self.cmd in arm:
                        vals = [("command", some(CMD) if arm.startswith("std::option::Option<") else CMD)]
                    elif "std::net::SocketAddr" in arm:
                        vals = [("datagram", ok(mk("tup", (LEN, FROM)))), ("no datagram", err(mk("in", "receive error")))]
                    elif "Instant" in arm:
                        vals = [("tick", mk("in", "tick time"))]
                    else:
                        c.ob("QUIC worker: every source of work is known", False, arm, at)
                    for kind, v in vals:
                        for w in self.vs if kind == "command" else [None]:
                            q = st.copy()
                            note(q, "turn", kind, w)
                            if w is None or absint.set_var(q, CMD, w):
                                out.append((q, mk("adt", name, f"_{n}", ("0",), (v,))))
                return out

        def poll(I, st, fr, name, args, t, site):
            if "__tokio_select_util::Out<" in fr.fn.locals[t["d"][0]]:
                self.frame = [fr]
            return None

        def eng(I, st, fr, name, args, t, site):
            m = name.rsplit("::", 1)[1]
            ty = fr.fn.locals[t["d"][0]]
            note(st, "engine", m, tuple(unref(st, a) if a.k == "ref" else a for a in args[1:]), tuple(args[1:]))
            R = mk("in", "result of " + m)
            if ty.startswith("std::result::Result<"):
                s2 = st.copy()
                note(s2, "failed", m)
                return [(st, ok(UNIT if ty.startswith("std::result::Result<(),") else fget(R, "ok"))), (s2, err(fget(R, "err")))]
            return [(q, R if ty != "()" else UNIT) for q in (look(st) if m == "take_outgoing_datagrams" else [st])]

        def send(I, st, fr, name, args, t, site):
            note(st, "answer", args[0], unref(st, args[1]))
            return [(st, ok(UNIT))]

        def event(I, st, fr, name, args, t, site):
            return [(st, mk("sending", args[1]))]

        def nxt(I, st, fr, name, args, t, site):
            ty = fr.fn.locals[t["d"][0]]
            if "SocketAddr" in ty and any(x[:2] == ("engine", "take_outgoing_datagrams") for x in st.auto):
                n = count(st, "next datagram")
                s2 = st.copy()
                note(s2, "no more datagrams")
                if n >= 2:
                    return [(s2, NONE)]
                note(st, "next datagram", n)
                return [(st, some(mk("in", "new datagram", n))), (s2, NONE)]
            n = count(st, "next")
            if "MqttEvent" not in ty:
                return None
            s2 = st.copy()
            note(s2, "end")
            if n >= 2:
                return [(s2, NONE)]
            note(st, "next", n)
            return [(st, some(mk("in", "event", n))), (s2, NONE)]

        def queue(fr, x):
            """x refers to the queue of the worker"""
            if x.k != "ref" or x.a[0][0][0] != "L":
                return False
            w = self.frame[0] if self.frame and self.frame[0].fid == x.a[0][0][1] else fr
            return w.fid == x.a[0][0][1] and w.fn.locals[x.a[0][0][2]] == self.DEQ

        def more(I, st, fr, name, args, t, site):
            if queue(fr, args[0]):
                note(st, "queued", unref(st, args[1]))
                return [(st, UNIT)]

        def other(I, st, fr, name, args, t, site):
            if queue(fr, args[0]):
                note(st, "taken away", name.rsplit("::", 1)[1])

        def look(st):
            """the socket as the sending starts"""
            s = self.socket(st)
            if s is None or s.k == "adt":
                note(st, "socket", s, None if s is None else s.a[1])
                return [st]
            out = []
            for w in ("Some", "None"):
                q = st.copy()
                note(q, "socket", s, w)
                if absint.set_var(q, s, w):
                    out.append(q)
            return out

        def count(st, what):
            return sum(1 for x in st.auto if x[0] == what)

        def item(n):
            return mk("tup", (mk("in", "destination", n), mk("in", "data", n)))

        def popf(I, st, fr, name, args, t, site):
            if not queue(fr, args[0]):
                return None
            n = count(st, "pop")
            seen = ("peek", n) in st.auto
            s2 = st.copy()
            note(s2, "empty")
            if n >= 2 and not seen:
                return [(s2, NONE)]
            note(st, "pop", n)
            return [(st, some(item(n)))] + ([] if seen else [(s2, NONE)])

        def front(I, st, fr, name, args, t, site):
            if not queue(fr, args[0]):
                return None
            n = count(st, "pop")
            empty = name.endswith("is_empty")
            seen = ("peek", n) in st.auto
            s2 = st.copy()
            note(s2, "empty")
            if n >= 2 and not seen:
                return [(s2, K(1) if empty else NONE)]
            if not seen:
                note(st, "peek", n)
            if empty:
                return [(st, K(0))] + ([] if seen else [(s2, K(1))])
            loc = (("G", f"front {n}"),)
            write(st, loc, item(n))
            return [(st, some(mk("ref", loc, 0)))] + ([] if seen else [(s2, NONE)])

        def back(I, st, fr, name, args, t, site):
            if queue(fr, args[0]):
                last = not name.endswith("push_front")
                if last and args[1].k == "in" and args[1].a[0] == "new datagram":
                    note(st, "queued one", args[1].a[1])
                else:
                    note(st, "put last" if last else "put back", args[1])
                return [(st, UNIT)]

        def sendto(I, st, fr, name, args, t, site):
            s2, s3 = st.copy(), st.copy()
            d, to = unref(st, args[1]), unref(st, args[2])
            d = d.a[0] if d.k == "sl" and d.a[1] is K(0) else d
            note(st, "sent", d, to)
            note(s2, "sent", d, to)
            note(s2, "send failed", "full")
            note(s3, "sent", d, to)
            note(s3, "send failed", "other")
            return [(st, ok(mk("in", "sent bytes"))), (s2, err(mk("in", "send error", "full"))), (s3, err(mk("in", "send error", "other")))]

        def kind(I, st, fr, name, args, t, site):
            e = unref(st, args[0])
            if e.k == "in" and e.a[0] == "send error":
                return [(st, mk("adt", "std::io::ErrorKind", "WouldBlock" if e.a[1] == "full" else "ConnectionRefused", (), ()))]

        def eqk(I, st, fr, name, args, t, site):
            xs = [unref(st, a) for a in args]
            if all(x.k == "adt" for x in xs):
                return [(st, K(int((xs[0].a[1] == xs[1].a[1]) == name.endswith("eq"))))]
        def bind(I, st, fr, name, args, t, site):
            x = unref(st, args[0])
            v = next(y[2] for y in st.auto if y[0] == "turn")
            asked = [pay(CMD, v, n) for n, ty in self.vs[v] if n != "resp" and ("bind" in n or "local" in n)] if v else []
            note(st, "bind", x, asked[0] if asked else None, st.var.get(asked[0]) if asked else None)
            return bound(I, st, fr, name, [x], t, site)
        bound = fork(lambda I, st, fr, a: mk("in", "bound", a[0]), None, "bind")
        H = [(re.compile(r"(std::future::Future|as std::future::Future>)::poll$"), poll)] + aio.hooks(done) + [
            (re.compile("^" + re.escape(QENG) + r"::\w+$"), eng), (re.compile(r"oneshot::Sender::<T>::send$"), send), (re.compile(r"mpsc::(bounded::)?Sender::<T>::send$"), event),
            (re.compile(r"UdpSocket::bind$"), bind),
            (re.compile(r"UdpSocket::set_nonblocking$"), fork(lambda *x: UNIT, None, "nonblocking")),
            (re.compile(r"std::net::UdpSocket::local_addr$"), fork(lambda I, st, fr, a: mk("in", "local address", unref(st, a[0])), None, "local address")),
            (re.compile(r"tokio::net::(udp::)?UdpSocket::from_std$"), fork(lambda I, st, fr, a: mk("in", "socket of", a[0]), None, "register")),
            (re.compile(r"tokio_quic_client::bind_addr_for_peer$"), None),
            (re.compile(r"Iterator(>|)::next$"), nxt), (re.compile(r"VecDeque<T, A> as std::iter::Extend<T>>::extend$|VecDeque::<T, A>::append$"), more), (re.compile(r"VecDeque::<T, A>::pop_front$"), popf), (re.compile(r"VecDeque::<T, A>::(front|is_empty)$"), front), (re.compile(r"VecDeque::<T, A>::(clear|truncate|drain|retain|retain_mut|remove|pop_back|split_off|swap|insert|rotate_left|rotate_right|resize|swap_remove_front|swap_remove_back|front_mut|back_mut|iter_mut|make_contiguous)$|std::mem::(take|replace)$"), other),
            (re.compile(r"VecDeque::<T, A>::push_(front|back)$"), back), (re.compile(r"UdpSocket::try_send_to$"), sendto), (re.compile(r"std::io::Error::kind$"), kind), (re.compile(r"ErrorKind as std::cmp::PartialEq>::(eq|ne)$"), eqk)]
        H = [h for h in H if h[1]]

        def prep(I, st, a):
            discr = I.discr
            I.discr = lambda st, v, ty: K(ERRNO[v.a[1]]) if v.k == "adt" and v.a[0] == "std::io::ErrorKind" else discr(st, v, ty)
            st.auto = ()
            a[0] = mk("clos", g.id, (mk("in", "engine"), mk("in", "commands"), mk("in", "events")))
        I, cl, a, st0, outs = engine.run(p, g, hooks=H, prep=prep, part=lambda I, st: (st.auto,), budget=2000000)
        for s, r in outs:
            o = ob("end")
            o.paths += 1
            o("it stops only when nobody listens", any(x[0] == "nobody listens" for x in s.auto or ()), str([x[:2] for x in s.auto or ()])[:120])
        ob("tick"), ob("datagram"), ob("sending"), ob("no datagram")
        for v in self.vs:
            ob("command " + v)
        for n, o in sorted(obs.items()):
            need = {"tick": ["the events are handed over in order"], "datagram": ["it reaches the engine whole"], "sending": ["what the engine produced is queued last", "each goes whole to where it belongs", "what cannot be sent yet stays first"]}.get(n, [])
            if n.startswith("command "):
                need = ["the caller gets the engine's result", "the engine is asked for it"] + (["the socket is bound where asked"] if n.split()[1] in self.ENGINE else [])
            o.close(*need)

    ENGINE = {"Connect": "connect", "Rebind": "notify_local_address_changed"}

    def turn(self, obs, st, CMD, LEN, FROM, BUF):
        tr = st.auto
        kind, v = tr[0][1:3]
        ob = obs("command " + v if v else kind)
        ob.paths += 1
        calls = [x for x in tr if x[0] == "engine" and x[1] != "take_outgoing_datagrams"]
        told = ", ".join(x[1] for x in calls) or "nothing"
        answers = [x for x in tr if x[0] == "answer"]
        if kind == "command":
            self.command(ob, st, v, CMD, tr, calls, answers, told)
        else:
            ob("nobody is answered without having asked", not answers, "")
        if kind == "datagram":
            good = len(calls) == 1 and calls[0][1] == "handle_datagram" and len(calls[0][2]) == 3
            ob("it reaches the engine whole", good and exact(calls[0][2][0], BUF, LEN), show(calls[0][2][0])[:100] if good else told)
            ob("it reaches the engine with its sender", good and calls[0][2][1] is FROM, show(calls[0][2][1])[:80] if good else told)
        elif kind == "tick":
            ob("the engine is told", [x[1] for x in calls] == ["handle_tick"], told)
            got = [x[1] for x in tr if x[0] == "event"]
            took = sum(1 for x in tr if x[0] == "next")
            ob("the events are handed over in order", got == [mk("in", "event", n) for n in range(took)] and any(x[0] == "end" for x in tr), f"{len(got)} of {took}, {', '.join(show(x)[:30] for x in got)}")
        elif kind == "no datagram":
            ob("the engine is not told", not calls, told)
        if kind != "tick":
            ob("no event is made up", not any(x[0] == "event" for x in tr), "")
        # sending
        ob = obs("sending")
        ob.paths += 1
        new = [x for x in tr if x[0] == "engine" and x[1] == "take_outgoing_datagrams"]
        queued = [x for x in tr if x[0] in ("queued", "queued one")]
        one = [x[1] for x in queued if x[0] == "queued one"]
        if one or ("no more datagrams",) in tr:
            good = one == list(range(sum(1 for x in tr if x[0] == "next datagram"))) and len(one) == len(queued)
        else:
            good = len(queued) == 1 and queued[0][1] is mk("in", "result of take_outgoing_datagrams")
        ob("what the engine produced is queued last", good and len(new) == 1 and not any(x[0] in ("pop", "peek") for x in tr[:tr.index(queued[-1]) if queued else 0]), f"{len(new)} taken, {len(queued)} queued")
        ob("none is lost", not any(x[0] == "taken away" for x in tr), "the queue is changed by " + ", ".join(x[1] for x in tr if x[0] == "taken away"))
        out, pend, over, pops, n = None, None, False, 0, None
        for x in tr:
            if x[0] == "pop":
                ob("none is lost", out is None, "one is taken before the last is dealt with")
                ob("what cannot be sent yet stays first", not over, "another one is sent before it")
                out, pend = (None if pend == x[1] else x[1]), None
                pops += 1
            elif x[0] == "sent":
                n = out if out is not None else pops
                ob("each goes whole to where it belongs", pend is None and x[1] is mk("in", "data", n) and x[2] is mk("in", "destination", n), f"{show(x[1])[:60]} to {show(x[2])[:60]}")
                ob("what cannot be sent yet stays first", not over, "another one is sent before it")
                out, pend = None, (n if out is None else None)
            elif x[0] == "send failed" and x[1] == "full":
                if pend is None:
                    out = n
                else:
                    pend, over = None, True
            elif x[0] in ("put back", "put last"):
                ob("what cannot be sent yet stays first", x[0] == "put back" and out is not None and x[1] is mk("tup", (mk("in", "destination", out), mk("in", "data", out))), x[0])
                out, over = None, True
            elif x[0] == "empty":
                over = True
        ob("none is lost", out is None, "it is taken from the queue and not sent")
        ob("each goes whole to where it belongs", pend is None, "it stays in the queue after it was sent")
        if not over:
            sock = next((x for x in tr if x[0] == "socket"), None)
            ob("everything is sent while there is a socket", sock is not None and sock[2] == "None", show(sock[1])[:80] if sock and sock[1] else "no socket")

    def socket(self, st):
        fr = self.frame[0]
        ls = sorted({l[0] for n, l in fr.fn.d.get("dbg") or () if l and len(l) == 1 and fr.fn.locals[l[0]] == self.SOCK})
        return read(st, (("L", fr.fid, ls[0]),)) if len(ls) == 1 else None

    def command(self, ob, st, v, CMD, tr, calls, answers, told):
        F = {n: pay(CMD, v, n) for n, t in self.vs[v]}
        tx = [F[n] for n, t in self.vs[v] if "oneshot::Sender<" in t]
        data = {n: F[n] for n, t in self.vs[v] if "oneshot::Sender<" not in t}
        ob("the caller is answered once", len(answers) == 1 and answers[0][1] is tx[0], f"{len(answers)} answers")
        if len(answers) != 1:
            return
        for x in tr:
            if x[0] == "bind":
                w = x[2]
                good = w is not None and (x[1] is w or x[3] == "Some" and x[1] is pay(w, "Some", "0") or x[3] == "None")
                ob("the socket is bound where asked", good, f"{show(x[1])[:100]} ({x[3]})")
        r = answers[0][2]
        m = self.ENGINE.get(v, v.lower())
        failed = [x[1] for x in tr if x[0] == "failed"]
        R = mk("in", "result of " + m)
        if r.k != "adt" or r.a[1] not in ("Ok", "Err"):
            ob("the caller gets the engine's result", False, show(r)[:80])
            return
        if calls:
            ob("the engine is asked for it", [x[1] for x in calls] == [m], told)
            args = calls[0][2]
            if v not in self.ENGINE:
                ob("the engine gets the arguments given", list(args) == list(data.values()), ", ".join(show(x)[:40] for x in args))
            elif v == "Connect":
                want = [n for n in data if "bind" not in n]
                ob("the engine gets the arguments given", len(args) >= len(want) and all(mentions(x, data[n], st) for n, x in zip(want, args)), ", ".join(show(x)[:40] for x in args))
            if v in self.ENGINE:
                s = next((x[1] for x in tr if x[0] == "socket"), None)
                ok_ = s is not None and s.k == "adt" and s.a[1] == "Some" and s.a[3][0].k == "in" and s.a[3][0].a[0] == "socket of"
                ob("the new socket is used", bool(ok_), show(s)[:80] if s else "")
            if m in failed:
                ob("a failure is handed on", r.a[1] == "Err" and mentions(r.a[3][0], fget(R, "err"), st), show(r)[:80])
            else:
                val = r.a[3][0]
                good = val is fget(R, "ok") or val is UNIT and v in ("Connect", "Disconnect") or v == "Rebind" and val.k == "in" and val.a[0] == "local address"
                ob("the caller gets the engine's result", r.a[1] == "Ok" and good, show(r)[:80])
        else:
            why = [n for n in data if "bind" in n]
            ob("nothing is left out without a reason", bool(failed) or v == "Connect" and why and possible(st, ("var", data[why[0]], "Some")), "the engine is not asked")
            ob("a failure is handed on", r.a[1] == "Err", show(r)[:80])


def again(st, r, R):
    """r is R, or put together from nothing but the parts of R"""
    if r is R or r.k == "vext" and r.a[0].k == "vnew" and r.a[1] is R:
        return True
    return r.k == "adt" and all(x is pay(R, r.a[1], n) for n, x in zip(r.a[2], r.a[3])) and (bool(r.a[3]) or st.var.get(R) == r.a[1])


def changed(fn):
    """the named variables of simple types that are not only set once"""
    pre, inside = set(), {}
    for i, b in enumerate(fn.blocks):
        seen, todo = set(), list(fn.succ(i))
        while todo:
            j = todo.pop()
            if j not in seen:
                seen.add(j)
                todo += fn.succ(j)
        t = b["t"]
        sets = [s[1][0] for s in b["s"] if s[0] == "=" and len(s[1]) == 1] + ([t["d"][0]] if t["t"] == "call" and len(t["d"]) == 1 else [])
        if i not in seen:
            pre |= set(sets)
            continue
        for x in sets + [s[2]["p"][0] for s in b["s"] if s[0] == "=" and s[2]["r"] == "ref" and s[2]["m"]]:
            inside[x] = 1
    return {x for x in pre if x in inside and x in fn.names and (fn.locals[x] in INTS or fn.locals[x] in ("bool", "std::time::Instant") or fn.locals[x].startswith("std::option::Option<"))}


def exact(x, buf, n):
    """the first n bytes"""
    for _ in range(6):
        if x.k in ("call", "pure") and str(x.a[0]).rsplit("::", 1)[-1] in ("to_vec", "into", "to_owned", "from") and isinstance(x.a[1], tuple) and x.a[1]:
            x = x.a[1][0]
    if x.k == "sl":
        return x.a[0] is buf and x.a[1] is K(0) and x.a[2] is n
    if x.k not in ("call", "pure") or not str(x.a[0]).endswith("::index") or x.a[1][0] is not buf:
        return False
    r = x.a[1][1]
    at = {n_: v for n_, v in zip(r.a[2], r.a[3])} if r.k == "adt" else {}
    return at.get("end") is n and at.get("start", K(0)) is K(0)


def split(s):
    """the type arguments of a list"""
    out, n, cur = [], 0, ""
    for ch in s:
        n += ch in "<([" 
        n -= ch in ">)]"
        if ch == "," and n == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]
