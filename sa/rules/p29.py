"""P29: the tokio client: a command reaches the engine, its answer reaches the caller that asked."""
import re
import absint, aio, engine
from absint import read, write
from engine import fget, pay, possible
from terms import *

RULE = ("Abstract interpretation of the worker of the tokio client for each command, each event and the loss of the connection, from an arbitrary state of the worker, with the engine's methods opaque: a command asks exactly the engine method of its name with exactly what was given; "
        "the sender of a synchronous command is answered once or kept under the packet identifier the engine returned for it, never both; a failure answers it with a failure and is told to the handler as it is; each event is told to the handler method of its name, answers the sender waiting for its identifier with that very result and nobody else; "
        "a lost connection closes the transport, tells the engine and the handler once, fails whoever waits for the connection, and schedules reconnecting as configured; a refused or new session leaves nobody waiting for what it discarded. "
        "Every public method of the client, on every path: it sends one command of its name with its own arguments and (synchronous ones) its own answer channel, and succeeds only with that answer, in the time limit that applies.")
THOROUGH_CONFIGS = ("default",)
MOD = "flowsdk::mqtt_client::tokio_async_client::"
ENG = engine.ENG
W = (("G", "worker"),)
# command -> method of the engine that carries it out
ENGINE = {"Connect": "connect", "ConnectSync": "connect", "Subscribe": "subscribe", "SubscribeSync": "subscribe", "Publish": "publish", "PublishSync": "publish",
          "Unsubscribe": "unsubscribe", "UnsubscribeSync": "unsubscribe", "Ping": "send_ping", "PingSync": "send_ping", "Disconnect": "disconnect", "Auth": "auth", "SendPacket": "enqueue_packet"}


def unref(st, v):
    n = 0
    while n < 8:
        n += 1
        if v.k == "ref":
            v = read(st, v.a[0])
        elif v.k in ("deref", "copyof"):
            v = v.a[0]
        else:
            break
    return v


def run(c):
    p = c.prog()
    ws = [a for a in p.adts if a.startswith(MOD) and any(t == ENG for t in engine.fields(p, a).values()) and any("command_rx" == n or "mpsc::Receiver<" in t for n, t in engine.fields(p, a).items())]
    cs = [a for a in p.adts if a.startswith(MOD) and {"ConnectSync", "PublishSync"} <= {v["n"] for v in p.adts[a]["vs"]}]
    if not any(a.startswith(MOD) for a in p.adts):
        return          # the client is not part of this configuration
    if not c.anchor("worker of the tokio client", ws, 1) or not c.anchor("commands of the tokio client", cs, 1):
        return
    k = Worker(c, p, ws[0], cs[0])
    k.commands()
    k.events()
    k.lost()
    api(c, p, k)


class Worker:
    def __init__(self, c, p, w, cmd):
        self.c, self.p, self.w, self.cmd = c, p, w, cmd
        self.judged = {}
        fs = engine.fields(p, w)
        self.eng = next(n for n, t in fs.items() if t == ENG)
        self.stream = [n for n, t in fs.items() if re.search(r"Option<.*::transport::Transport\b", t)]
        self.waits = {n: t for n, t in fs.items() if "oneshot::Sender<" in t}
        self.handler = [n for n, t in fs.items() if "dyn " in t and "EventHandler" in t]
        self.config = [n for n, t in fs.items() if t.endswith("::TokioAsyncClientConfig")]

    def find(self, test):
        return [f for f in self.p.fns.values() if f.id.startswith(self.w + "::") and "{closure" not in f.id and test(f)]

    def start(self, f, args, hooks=(), done=None, note_calls=()):
        """exits of an async method of the worker"""
        g = aio.body(self.p, f.id)
        p = self.p

        def note(st, *x):
            st.auto = (st.auto or ()) + (x,)
        self.note = note

        def eng(I, st, fr, name, args, t, site):
            m = name.rsplit("::", 1)[1]
            if args[0].k != "ref" or args[0].a[0] != W + ("f:" + self.eng,):
                return None
            ty = fr.fn.locals[t["d"][0]]
            if m in ("is_connected",):
                return [(st, fget(mk("in", "engine"), "connected"))]
            if m in ("options", "mqtt_version", "next_tick_at", "packet_id_in_use"):
                return [(st, mk("call", name, tuple(unref(st, a) for a in args[1:]), site))]
            vals = tuple(unref(st, a) for a in args[1:])
            note(st, "engine", m, vals)
            if ty.startswith("std::result::Result<"):
                s2 = st.copy()
                r = mk("in", "result of " + m)
                note(st, "ok")
                note(s2, "err")
                inner = ty[len("std::result::Result<"):].split(",")[0]
                v = I.typed(fget(r, "ok"), inner)
                return [(st, ok(v)), (s2, err(fget(r, "err")))]
            return [(st, mk("in", "result of " + m) if ty != "()" else UNIT)]

        def send(I, st, fr, name, args, t, site):
            note(st, "send", args[0], unref(st, args[1]))
            return [(st, ok(UNIT))]

        def insert(I, st, fr, name, args, t, site):
            if args[0].k == "ref" and args[0].a[0][:1] == W and len(args[0].a[0]) == 2 and args[0].a[0][1][2:] in self.waits:
                note(st, "insert", args[0].a[0][1][2:], unref(st, args[1]), args[2])
                return [(st, mk("in", "previous entry"))]

        def remove(I, st, fr, name, args, t, site):
            if args[0].k == "ref" and args[0].a[0][:1] == W and len(args[0].a[0]) == 2 and args[0].a[0][1][2:] in self.waits:
                fld = args[0].a[0][1][2:]
                s2 = st.copy()
                key = unref(st, args[1])
                note(st, "remove", fld, key)
                note(s2, "absent", fld, key)
                return [(st, some(mk("waiting", fld, key))), (s2, NONE)]

        def handler(I, st, fr, name, args, t, site):
            note(st, "handler", name.rsplit("::", 1)[1], tuple(unref(st, a) for a in args[1:]))
            return [(st, mk("in", "handled"))]

        def retain(I, st, fr, name, args, t, site):
            if args[0].k == "ref" and args[0].a[0][:1] == W and args[0].a[0][1][2:] in self.waits:
                note(st, "retain", args[0].a[0][1][2:], self.only_used(st, args[1]))
                return [(st, UNIT)]

        def clear(I, st, fr, name, args, t, site):
            if args[0].k == "ref" and args[0].a[0][:1] == W and args[0].a[0][1][2:] in self.waits:
                note(st, "clear", args[0].a[0][1][2:])
                return [(st, UNIT)]

        def fut(I, st, f_, ty, t, site):
            if done:
                r = done(I, st, f_, ty, t, site)
                if r is not None:
                    return r
            if f_.k == "clos" and "BoxedTransport" in ty or f_.k == "clos" and "dyn flowsdk::mqtt_client::transport" in ty:
                s2 = st.copy()
                note(st, "transport")
                note(s2, "no transport")
                return [(st, ok(mk("in", "transport"))), (s2, err(mk("in", "why not")))]
            return None

        def nodelay(I, st, fr, name, args, t, site):
            s2 = st.copy()
            note(s2, "no nodelay")
            return [(st, ok(UNIT)), (s2, err(mk("in", "nodelay error")))]
        H = list(hooks) + aio.hooks(fut) + [
            (re.compile("^" + re.escape(ENG) + r"::\w+$"), eng), (re.compile(r"oneshot::Sender::<T>::send$"), send),
            (re.compile(r"HashMap::<K, V, S.*>::insert$"), insert), (re.compile(r"HashMap::<K, V, S.*>::remove$"), remove), (re.compile(r"HashMap::<K, V, S.*>::retain$"), retain), (re.compile(r"HashMap::<K, V, S.*>::(clear|drain)$"), clear),
            (re.compile(r"TokioMqttEventHandler(>|)::on_\w+$"), handler), (re.compile(r"set_nodelay$"), nodelay)]

        def prep(I, st, a):
            st.auto = ()
            write(st, W, mk("in", "worker"))
            a[0] = mk("clos", g.id, (mk("ref", W, 1),) + tuple(args))
        old = engine.absint.PARTITION[0]
        return engine.run(p, g, hooks=H, prep=prep, part=lambda I, st: (st.auto,), budget=2000000)

    def wv(self, st, f):
        return fget(read(st, W), f)

    # -------------------------------------------------------- commands
    def commands(self):
        p = self.p
        f = self.find(lambda f: self.cmd in f.locals[1:f.nargs + 1])
        if not self.c.anchor("handling of commands", f, 1):
            return
        CMD = mk("in", "command")
        I, cl, a, st0, outs = self.start(f[0], [CMD])
        vs = {v["n"]: [(x[0], x[1]) for x in v["fs"]] for v in p.adts[self.cmd]["vs"]}
        obs = {v: engine.Agg(self.c, f"command {v}", engine.where(f[0])) for v in vs}
        for s, r in outs:
            v = s.var.get(CMD)
            if not isinstance(v, str) or v not in vs:
                self.c.ob("commands: each is handled for itself", False, f"{v}", engine.where(f[0]))
                continue
            ob = obs[v]
            ob.paths += 1
            self.command(ob, v, vs[v], CMD, s, r, st0)
        for v, ob in obs.items():
            need = ["the worker goes on"] if v != "Shutdown" else ["the worker stops"]
            if v in ENGINE:
                need.append("what is asked is done, as given")
            if v.endswith("Sync"):
                need.append("the caller is answered or kept waiting for its own answer")
            ob.close(*need)
        self.c.count("commands", len(vs))

    def command(self, ob, v, fs, CMD, s, r, st0):
        tr = s.auto or ()
        val = lambda n: absint.project(CMD, v, n) if hasattr(absint, "project") else mk("pr", CMD, v, n)
        F = {n: pay(CMD, v, n) for n, t in fs}
        tx = [F[n] for n, t in fs if "oneshot::Sender<" in t]
        txt = [t for n, t in fs if "oneshot::Sender<" in t]
        args = [F[n] for n, t in fs if "oneshot::Sender<" not in t]
        ob("the worker stops" if v == "Shutdown" else "the worker goes on", r is K(0 if v == "Shutdown" else 1), show(r)[:60])
        calls = [x for x in tr if x[0] == "engine" and x[1] != "schedule_reconnect"]
        sched = [x for x in tr if x[0] == "engine" and x[1] == "schedule_reconnect"]
        told = [x for x in tr if x[0] == "handler"]
        kinds = [x[0] for x in tr]
        stream0 = fget(mk("in", "worker"), self.stream[0])
        failed = None
        if v in ("Connect", "ConnectSync"):
            if "transport" in kinds:
                nv = self.wv(s, self.stream[0])
                ob("what is asked is done, as given", [x[1] for x in calls] == ["connect"] and nv.k == "adt" and nv.a[1] == "Some" and nv.a[3][0] is mk("in", "transport"), f"{calls} stream = {show(nv)[:60]}"[:160])
                ob("an open connection is not replaced", not possible(s, ("var", stream0, "Some")), "a second transport is opened")
            else:
                ob("no CONNECT is queued without a transport", not calls, f"{calls}"[:100])
                if "no transport" in kinds:
                    failed = mk("in", "why not")
                    auto = fget(fget(mk("in", "worker"), self.config[0]), "auto_reconnect")
                    ob("the next attempt is scheduled as configured", not possible(s, ("eq", auto, 0)) if sched else not possible(s, ("ne", auto, 0)), "scheduled" if sched else "not scheduled")
                else:
                    ob("nothing is opened only while a connection is open", not possible(s, ("var", stream0, "None")), "")
        elif v in ENGINE:
            ob("what is asked is done, as given", len(calls) == 1 and calls[0][1] == ENGINE[v] and len(calls[0][2]) == len(args) and all(x is y for x, y in zip(calls[0][2], args)), "; ".join(f"{x[1]}({', '.join(show(y)[:60] for y in x[2])})" for x in calls) or "nothing is done")
            if "err" in kinds:
                failed = fget(mk("in", "result of " + ENGINE[v]), "err")
        else:
            ob("nothing is asked of the engine", not calls, f"{calls}"[:100])
            if v == "SetAutoReconnect":
                x = fget(self.wv(s, self.config[0]), "auto_reconnect")
                ob("the setting is the one given", x is args[0], show(x)[:60])
        errs = [x[2][0] for x in told if x[1] == "on_error"]
        if failed is not None:
            ob("a failure is reported, once, as it is", len(errs) == 1 and errs[0] is failed, ", ".join(show(e)[:50] for e in errs) or "nothing is reported")
        else:
            ob("no failure is reported without one", not errs or "no nodelay" in kinds and len(errs) == 1, ", ".join(show(e)[:50] for e in errs))
        ob("no success is reported to the handler", all(x[1] == "on_error" for x in told), ", ".join(x[1] for x in told))
        if v in ("Connect", "ConnectSync") and failed is None or v not in ("Connect", "ConnectSync"):
            ob("no reconnect is scheduled", not sched, "scheduled")
        if not tx:
            return
        S = tx[0]
        sent = [x for x in tr if x[0] == "send"]
        ins = [x for x in tr if x[0] == "insert"]
        kept = [n for n, t in self.waits.items() if "HashMap" not in t and self.wv(s, n).k == "adt" and self.wv(s, n).a[1] == "Some" and self.wv(s, n).a[3][0] is S]
        mine = [x for x in sent if x[1] is S] + [x for x in ins if x[3] is S] + kept
        ob("the caller is answered or kept waiting for its own answer", len(mine) == 1 and len(sent) + len(ins) + len(kept) == 1, f"{len(sent)} answers, {len(ins) + len(kept)} kept")
        if len(mine) != 1:
            return
        for x in ins:
            ok_ = fget(mk("in", "result of " + ENGINE[v]), "ok")
            key = x[2]
            ob("it waits under the identifier of its own request", "ok" in kinds and (key is ok_ or key is pay(ok_, "Some")), show(key)[:80])
            ob("it waits among requests of its kind", txt[0] in self.waits[x[1]], x[1])
        for n in kept:
            ob("it waits among requests of its kind", txt[0] in self.waits[n], n)
            if v == "ConnectSync":
                ob("it waits only while a connection is open", "transport" in kinds or not possible(s, ("var", stream0, "None")), "")
        for x in sent:
            y = x[2]
            if failed is not None:
                ob("a failure is answered with failure", self.failure(y, failed), show(y)[:120])
            elif v == "ConnectSync":
                conn = fget(mk("in", "engine"), "connected")
                if self.failure(y, None):
                    ob("refused only while another connect is under way", not possible(s, ("ne", conn, 0)), "")
                else:
                    ob("success is answered only when connected", not possible(s, ("eq", conn, 0)), "a connection that is not established is reported as such")
            else:
                ok_ = fget(mk("in", "result of " + ENGINE[v]), "ok")
                ob("success is answered at once only when nothing is to be waited for", not possible(s, ("var", ok_, "Some")) and "ok" in kinds and s.var.get(ok_) == "None" and not self.failure(y, None), show(y)[:100])

    def failure(self, y, e):
        """does the answer say that the request failed (with this error)?"""
        if y.k != "adt":
            return False
        if y.a[1] in ("Ok", "Err"):
            return y.a[1] == "Err" and (e is None or y.a[3][0] is e)
        for n, v in zip(y.a[2], y.a[3]):
            if n == "success":
                return v is K(0)
            if n == "reason_code":
                v = v.a[3][0] if v.k == "adt" and v.a[1] == "Some" else v
                return v.k == "k" and v.a[0] >= 128
            if n == "reason_codes":
                return v.k == "arr" and len(v.a[0]) > 0 and all(x.k == "k" and x.a[0] >= 128 for x in v.a[0])
        return False

    # -------------------------------------------------------- events
    def events(self):
        p = self.p
        ev = next(a for a in p.adts if a.endswith("::engine::MqttEvent"))
        f = self.find(lambda f: any(t == f"std::vec::Vec<{ev}>" for t in f.locals[1:f.nargs + 1]))
        if not self.c.anchor("dispatch of events", f, 1):
            return
        lost = self.lost_fn()
        EV = mk("in", "event")
        vs = {v["n"]: [(x[0], x[1]) for x in v["fs"]] for v in p.adts[ev]["vs"]}

        def into(I, st, fr, name, args, t, site):
            if args[0] is mk("in", "events"):
                return [(st, mk("in", "iterator"))]

        def nxt(I, st, fr, name, args, t, site):
            if not fr.fn.locals[t["d"][0]].endswith("MqttEvent>"):
                return None
            if any(x[0] == "event" for x in st.auto):
                return [(st, NONE)]
            out = [(st.copy(), NONE)]
            for n in sorted(vs):
                s2 = st.copy()
                if absint.set_var(s2, EV, n):
                    self.note(s2, "event", n)
                    todo = [s2]
                    for k, (kind, x) in enumerate(about(n)):
                        nxt_ = []
                        for q in todo:
                            for fact in ("Some", "None") if kind == "option" else (True, False):
                                q2 = q.copy()
                                if know(q2, kind, x, fact):
                                    self.note(q2, "know", k, fact)
                                    nxt_.append(q2)
                        todo = nxt_
                    out += [(q, some(EV)) for q in todo]
            return out

        def know(st, kind, x, fact):
            return absint.set_var(st, x, fact) if kind == "option" else absint.assume(st, x, fact)

        def about(n):
            """what decides how an event is handled: loops forget it, so it is kept in the trace"""
            out = []
            if n == "ReconnectNeeded":
                out.append(("option", fget(mk("in", "worker"), self.stream[0])))
            if len(vs[n]) == 1:
                x, t = pay(EV, n, vs[n][0][0]), vs[n][0][1]
                out += [("option", fget(mk("in", "worker"), w)) for w, wt in self.waits.items() if "HashMap" not in wt and t in wt]
                for m, mt in engine.fields(p, t).items() if t in p.adts else ():
                    if mt == "std::option::Option<u16>":
                        out.append(("option", fget(x, m)))
                    if n == "Connected" and m == "session_present":
                        out.append(("if", ranged(fget(x, m), 0, 1)))
                    if n == "Connected" and m == "reason_code":
                        out.append(("if", eq0(ranged(fget(x, m), 0, 255))))
            return out

        def done(I, st, fut, ty, t, site):
            if fut.k == "clos" and fut.a[0].startswith(self.w + "::"):
                self.note(st, "worker", fut.a[0][len(self.w) + 2:].split("::")[0], fut.a[1][1:])
                return [(st, UNIT)]
        I, cl, a, st0, outs = self.start(f[0], [mk("in", "events")], hooks=[(re.compile(r"IntoIterator(>|)::into_iter$"), into), (re.compile(r"Iterator(>|)::next$"), nxt)], done=done)
        obs = {v: engine.Agg(self.c, f"event {v}", engine.where(f[0])) for v in vs}
        tr_ = next((a for a in p.adts if a.endswith("EventHandler")), None)
        for s, r in outs:
            n = [x[1] for x in s.auto if x[0] == "event"]
            if n:
                for x in s.auto:
                    if x[0] == "know":
                        know(s, *about(n[0])[x[1]], x[2])
                obs[n[0]].paths += 1
                self.event(obs[n[0]], n[0], vs[n[0]], EV, s, lost, st0)
        need = {"Connected": ["the handler is told what happened"], "Published": ["the handler is told what happened", "the caller waiting for it gets the result"], "Subscribed": ["the caller waiting for it gets the result"], "Unsubscribed": ["the caller waiting for it gets the result"],
                "PingResponse": ["the caller waiting for it gets the result"], "MessageReceived": ["the handler is told what happened"]}
        for v, ob in obs.items():
            ob.close(*need.get(v, []))
        self.c.count("events", len(vs))

    TOLD = {"Connected": "on_connected", "Disconnected": "on_disconnected", "Published": "on_published", "Subscribed": "on_subscribed", "Unsubscribed": "on_unsubscribed", "MessageReceived": "on_message_received", "PingResponse": "on_ping_response", "Error": "on_error", "ReconnectScheduled": "on_reconnect_attempt"}

    def event(self, ob, v, fs, EV, s, lost, st0):
        tr = [x for x in (s.auto or ()) if x[0] not in ("event", "know")]
        told = [x for x in tr if x[0] == "handler"]
        vals = {n: pay(EV, v, n) for n, t in fs}
        want = self.TOLD.get(v)
        if want:
            good = len(told) == 1 and told[0][1] == want and (not fs or any(told[0][2] and told[0][2][0] is x for n, x in vals.items()))
            ob("the handler is told what happened", good, "; ".join(f"{x[1]}({', '.join(show(y)[:50] for y in x[2])})" for x in told) or "it is not told")
        else:
            ob("the handler is told nothing else", not told, ", ".join(x[1] for x in told))
        # callers waiting for this
        pt = fs[0][1] if len(fs) == 1 else None
        mine = [n for n, t in self.waits.items() if pt and re.search(r"Sender<(std::result::Result<)?" + re.escape(pt) + r"[,>]", t)]
        sends = [x for x in tr if x[0] == "send"]
        if not mine:
            ob("no caller waiting for something else is answered", not sends and not any(x[0] in ("remove", "insert", "clear") for x in tr) and all(self.wv(s, n) is fget(mk("in", "worker"), n) for n in self.waits), f"{[x[0] for x in tr]}"[:100])
        else:
            w, res = mine[0], fget(EV, "?") if False else vals[fs[0][0]]
            if "HashMap" in self.waits[w]:
                rm = [x for x in tr if x[0] in ("remove", "absent")]
                ids = [n for n, t in engine.fields(self.p, pt).items() if re.search(r"\bu16\b", t)]
                ident = fget(res, ids[0]) if ids else None
                opt = ids and engine.fields(self.p, pt)[ids[0]].startswith("std::option::Option")
                if rm:
                    ob("the caller waiting for it gets the result", len(rm) == 1 and rm[0][1] == w and (rm[0][2] is (pay(ident, "Some") if opt else ident)), f"{rm[0][1]} under {show(rm[0][2])[:60]}")
                else:
                    ob("the caller waiting for it gets the result", opt and not possible(s, ("var", ident, "Some")), "it is not looked for")
                who = [mk("waiting", x[1], x[2]) for x in rm if x[0] == "remove"]
            else:
                o = fget(mk("in", "worker"), w)
                ob("it no longer waits", not possible(s, ("var", self.wv(s, w), "Some")), show(self.wv(s, w))[:60])
                who = [pay(o, "Some")] if sends or not possible(s, ("var", o, "None")) else []
                if not sends:
                    ob("the caller waiting for it gets the result", not possible(s, ("var", o, "Some")), "it is not answered")
            ob("the caller waiting for it gets the result", len(sends) == len(who) and all(x[1] is y and (x[2] is res or x[2].k == "adt" and x[2].a[1] == "Ok" and x[2].a[3][0] is res) for x, y in zip(sends, who)), "; ".join(f"{show(x[1])[:40]} <- {show(x[2])[:60]}" for x in sends) or "it is not answered")
            others = [x for x in tr if x[0] in ("remove", "absent", "insert", "clear") and x[1] != w]
            ob("no caller waiting for something else is answered", not others, ", ".join(x[1] for x in others))
        if v == "Connected":
            self.discarded(ob, s, tr, vals)
        else:
            ob("no caller is given up", not any(x[0] in ("retain", "clear") for x in tr), "")
        wk = [x for x in tr if x[0] == "worker"]
        if v == "Disconnected":
            ob("the connection is given up", [x[1] for x in wk] == [lost], ", ".join(x[1] for x in wk))
        elif v == "ReconnectNeeded":
            st_ = fget(mk("in", "worker"), self.stream[0])
            names = [x[1] for x in wk]
            con = self.connect_fn()
            ob("reconnecting gives up an open connection, else opens one", len(names) == 1 and (names[0] == lost and not possible(s, ("var", st_, "None")) or names[0] == con and not possible(s, ("var", st_, "Some"))), ", ".join(names) or "nothing")
        else:
            ob("the connection is kept", not wk, ", ".join(x[1] for x in wk))

    def discarded(self, ob, s, tr, vals):
        """a session the server does not have: who waits for a request of it is not left waiting"""
        res = list(vals.values())[0]
        present, reason = fget(res, "session_present"), fget(res, "reason_code")
        maps = sorted(n for n, t in self.waits.items() if "HashMap" in t)
        if possible(s, ("eq", present, 0), ("eq", reason, 0)):
            kept = {x[1]: x for x in tr if x[0] == "retain"}
            for n in maps:
                ok_ = n in kept and kept[n][2]
                ob("callers whose requests went with the session are not left waiting", ok_ , f"{n} is left as it was" if n not in kept else f"{n} keeps something else")
        if possible(s, ("ne", present, 0)) or possible(s, ("ne", reason, 0)):
            pass

    def only_used(self, st, clos):
        """keeps exactly the entries whose identifier the engine still uses"""
        if clos.k != "clos" or any(not self.is_engine(st, x) for x in clos.a[1]):
            return False
        if clos.a[0] not in self.judged:
            self.judged[clos.a[0]] = self.keeps_used(clos)
        return self.judged[clos.a[0]]

    def is_engine(self, st, x):
        """the engine of the worker or a reference to it (or the worker itself)"""
        for _ in range(3):
            if x.k == "ref" and x.a[0] in (W, W + ("f:" + self.eng,)):
                return True
            x = unref(st, x)
        return False

    def keeps_used(self, clos):
        g = self.p.fns.get(clos.a[0])
        KEY = mk("in", "identifier")

        def used(I, st, fr, name, args, t, site):
            x = unref(st, args[1])
            return [(st, ranged(mk("used", x), 0, 1))]

        def prep(I, st, a):
            write(st, W, mk("in", "worker"))
            write(st, (("G", "env"),), clos)
            write(st, (("G", "key"),), KEY)
            a[0] = mk("ref", (("G", "env"),), 1) if g.locals[1].startswith("&") else clos
            a[1] = mk("ref", (("G", "key"),), 0)
        I, cl, a, st0, outs = engine.run(self.p, g, hooks=[(re.compile("^" + re.escape(ENG) + r"::packet_id_in_use$"), used)], prep=prep)
        return bool(outs) and all(r is mk("used", KEY) for s, r in outs)

    # -------------------------------------------------------- loss
    def lost_fn(self):
        fs = [f for f in self.find(lambda f: f.nargs == 1) if any(t["t"] == "call" and isinstance(t.get("f"), dict) and str(t["f"]["f"]) == ENG + "::handle_connection_lost" for b in (aio.body(self.p, f.id) or f).blocks for t in [b["t"]])]
        return fs[0].id.rsplit("::", 1)[1] if len(fs) == 1 else None

    def connect_fn(self):
        fs = [f for f in self.find(lambda f: f.nargs == 1) if any(t["t"] == "call" and isinstance(t.get("f"), dict) and str(t["f"]["f"]) == ENG + "::connect" for b in (aio.body(self.p, f.id) or f).blocks for t in [b["t"]])]
        return fs[0].id.rsplit("::", 1)[1] if len(fs) == 1 else None

    def lost(self):
        n = self.lost_fn()
        if not self.c.anchor("loss of the connection", [n] if n else []):
            return
        f = self.p.fns[self.w + "::" + n]
        I, cl, a, st0, outs = self.start(f, [])
        ob = engine.Agg(self.c, "connection lost", engine.where(f))
        auto = fget(fget(mk("in", "worker"), self.config[0]), "auto_reconnect")
        for s, r in outs:
            ob.paths += 1
            tr = s.auto or ()
            ob("the transport is closed", not possible(s, ("var", self.wv(s, self.stream[0]), "Some")), show(self.wv(s, self.stream[0]))[:60])
            calls = [x[1] for x in tr if x[0] == "engine"]
            ob("the engine is told", calls.count("handle_connection_lost") == 1, ", ".join(calls))
            ob("reconnecting is scheduled as configured", not possible(s, ("eq", auto, 0)) if "schedule_reconnect" in calls else not possible(s, ("ne", auto, 0)), "scheduled" if "schedule_reconnect" in calls else "not scheduled")
            ob("nothing else is asked of the engine", set(calls) <= {"handle_connection_lost", "schedule_reconnect"} and calls.count("schedule_reconnect") <= 1, ", ".join(calls))
            told = [x[1] for x in tr if x[0] == "handler"]
            ob("the handler is told", told == ["on_connection_lost"], ", ".join(told))
            sends = {x[1]: x[2] for x in tr if x[0] == "send"}
            for w, t in self.waits.items():
                if "HashMap" in t:
                    continue        # they outlive the connection: the engine resends what the session allows
                o = fget(mk("in", "worker"), w)
                S = pay(o, "Some")
                ob("who waits for the connection itself gets a failure", S in sends and self.failure(sends[S], None) or not possible(s, ("var", o, "Some")), f"{w}: {show(sends[S])[:60] if S in sends else 'not answered'}")
                ob("nobody goes on waiting for it", not possible(s, ("var", self.wv(s, w), "Some")), w)
                sends.pop(S, None)
            ob("nobody else is answered", not sends, ", ".join(show(x)[:60] for x in sends))
        ob.close("the transport is closed", "the engine is told", "the handler is told", "who waits for the connection itself gets a failure", "reconnecting is scheduled as configured")


# ---------------------------------------------------------------- what the application calls
OPS = ("auth", "connect", "disconnect", "ping", "publish", "send_packet", "set_auto_reconnect", "shutdown", "subscribe", "unsubscribe")


def camel(n):
    return "".join(w.capitalize() for w in n.split("_"))


def mentions(v, x, st=None, n=6):
    for t in subterms(v):
        if t is x:
            return True
        if t.k == "ref" and st is not None and n and mentions(read(st, t.a[0]), x, st, n - 1):
            return True
    return False


def names_of(f):
    return {l[0]: n for n, l in f.d.get("dbg") or () if l and 1 <= l[0] <= f.nargs}


def api(c, p, k):
    chan = f"tokio::sync::mpsc::Sender<{k.cmd}>"
    cl_ = [a for a in p.adts if a.startswith(MOD) and chan in engine.fields(p, a).values()]
    if not c.anchor("the client", cl_, 1):
        return
    cl_ = cl_[0]
    cfg = [n for n, t in engine.fields(p, cl_).items() if t.endswith("::TokioAsyncClientConfig")]
    vs = {v["n"]: [(x[0], x[1]) for x in v["fs"]] for v in p.adts[k.cmd]["vs"]}
    done_ = set()
    nm = 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if not f.id.startswith(cl_ + "::") or "{closure" in f.id or f.d.get("vis") != "Public" or f.nargs < 1 or f.locals[1] not in (cl_, "&" + cl_):
            continue
        g = aio.body(p, f.id)
        if g is None:
            continue
        m = f.id.rsplit("::", 1)[1]
        op = [o for o in OPS if m == o or m.startswith(o + "_")]
        if not op:
            c.ob(f"{m}: is one of the operations known", False, m, engine.where(f))
            continue
        op = max(op, key=len)
        sync = "sync" in m[len(op):].split("_")
        variant = camel(op) + ("Sync" if sync else "")
        nm += 1
        done_.add(variant)
        try:
            one(c, p, k, f, g, m, op, sync, variant, vs, cl_, cfg)
        except absint.Limit as e:
            c.ob(f"{m}: followed", False, str(e), engine.where(f))
    c.count("methods of the client", nm)
    c.ob("every command can be asked for", done_ >= set(vs) and nm >= 20, ", ".join(sorted(set(vs) - done_)), "src/mqtt_client/tokio_async_client.rs")


def one(c, p, k, f, g, m, op, sync, variant, vs, cl_, cfg):
    ob = engine.Agg(c, f"client.{m}", engine.where(f))
    names = names_of(f)
    names = {i: names.get(i, f"{i}") for i in range(2, f.nargs + 1)}
    ARG = {i: mk("in", "argument", names[i]) for i in names}
    for i in ARG:
        if f.locals[i] in INTS:
            ranged(ARG[i], *INTS[f.locals[i]])
    ME = (("G", "client"),)
    TX, RX, ANS = mk("in", "answer sender"), mk("in", "answer receiver"), mk("in", "answer")

    def note(st, *x):
        st.auto = (st.auto or ()) + (x,)

    def chan(I, st, fr, name, args, t, site):
        note(st, "channel")
        return [(st, mk("tup", (TX, RX)))]

    def send(I, st, fr, name, args, t, site):
        return [(st, mk("sending", args[1]))]

    def timeout(I, st, fr, name, args, t, site):
        return [(st, mk("limited", args[0], args[1]))]

    def millis(I, st, fr, name, args, t, site):
        return [(st, mk("millis", args[0]))]

    def ctor(I, st, fr, name, args, t, site):
        if fr.fn.locals[t["d"][0]].startswith("flowsdk::mqtt_client::commands::"):
            h = p.fns.get(name)
            return [(st, mk("made", name, tuple(args), tuple(sorted(names_of(h).items())) if h else ()))]

    def done(I, st, fut, ty, t, site):
        if fut.k == "sending":
            s2 = st.copy()
            note(st, "cmd", fut.a[0])
            note(s2, "gone")
            return [(st, ok(UNIT)), (s2, err(mk("in", "worker gone")))]
        if fut is RX:
            s2 = st.copy()
            note(st, "answer")
            note(s2, "no answer")
            if op == "connect":
                s3 = st.copy()
                note(s3, "refused")
                return [(st, ok(ok(ANS))), (s3, ok(err(mk("in", "why not")))), (s2, err(mk("in", "closed")))]
            return [(st, ok(ANS)), (s2, err(mk("in", "closed")))]
        if fut.k == "limited":
            s2 = st.copy()
            note(st, "limit", fut.a[0])
            note(s2, "limit", fut.a[0])
            note(s2, "late")
            inner = fut.a[1]
            if inner.k != "clos":
                return None
            r = I.invoke(None, st, site, inner, [mk("in", "task context")], t, 0)
            return [(s, ok(v.a[3][0] if v.k == "adt" and v.a[0] == "std::task::Poll" else v)) for s, v in r] + [(s2, err(mk("in", "elapsed")))]
    H = aio.hooks(done) + [(re.compile(r"oneshot::channel$"), chan), (re.compile(r"mpsc::(bounded::)?Sender::<T>::send$"), send), (re.compile(r"tokio::time::(timeout::)?timeout$"), timeout), (re.compile(r"Duration::from_millis$"), millis),
                           (re.compile(r"^flowsdk::mqtt_client::commands::\w+Command::\w+$"), ctor)]

    def prep(I, st, a):
        st.auto = ()
        write(st, ME, mk("in", "client"))
        me = mk("ref", ME, 0) if f.locals[1].startswith("&") else mk("in", "client")
        a[0] = mk("clos", g.id, (me,) + tuple(ARG[i] for i in sorted(ARG)))
    I, cl, a, st0, outs = engine.run(p, g, hooks=H, prep=prep, part=lambda I, st: (st.auto,))
    limit = [n for n in engine.fields(p, next(x for x in p.adts if x.endswith("::TokioAsyncClientConfig"))) if n.startswith(op + "_") and n.endswith("timeout_ms")]
    given = [x for i, x in ARG.items() if "timeout" in names[i]]
    conf = fget(fget(mk("in", "client"), cfg[0]), limit[0]) if limit and cfg else None
    for s, r in outs:
        ob.paths += 1
        tr = s.auto or ()
        kinds = [x[0] for x in tr]
        cmds = [x[1] for x in tr if x[0] == "cmd"]
        good = r.k == "adt" and r.a[1] in ("Ok", "Err")
        ob("it succeeds or fails", good, show(r)[:80])
        if not good:
            continue
        fine = r.a[1] == "Ok"
        at_once = False
        for x in cmds:
            v = x.a[1] if x.k == "adt" else None
            if sync and v == camel(op) and op == "publish":
                # nothing is to be waited for at QoS 0
                pl = x.a[3][0]
                q = fget(pl, "qos") if pl.k != "made" else None
                qs = [q] if q is not None else []
                qs += [t for t in s.eqs if False]
                ob("waiting is left out only at QoS 0", q is None and zero_qos(s, pl) or q is not None and not possible(s, ("ne", q, 0)), show(pl)[:100])
                at_once = True
            else:
                ob("the command of its name is sent", v == variant, show(x)[:80])
            if x.k == "adt":
                payload(ob, p, s, op, x, ARG, names, given, TX, vs.get(v, []))
        ob("one command is sent", len(cmds) == 1 or not cmds and ("gone" in kinds or "late" in kinds), f"{len(cmds)}")
        if fine:
            ob("success means that the command was taken", len(cmds) == 1 and "gone" not in kinds and "late" not in kinds, ", ".join(kinds))
            if sync and not at_once:
                ob("the result is the answer to this very request", "answer" in kinds and "refused" not in kinds and r.a[3][0] is ANS, show(r)[:100])
            elif sync:
                x = r.a[3][0]
                rc = fget(x, "reason_code")
                ob("the result says that it was sent", not k.failure(x, None) and fget(x, "packet_id") is NONE, show(x)[:100])
        else:
            ob("failure only if the worker is gone, did not answer, refused, or was late", any(x in kinds for x in ("gone", "no answer", "refused", "late")), ", ".join(kinds))
        lims = [x[1] for x in tr if x[0] == "limit"]
        if sync:
            if lims:
                d = lims[0]
                want = given[0] if given else pay(conf, "Some") if conf is not None else None
                ob("it waits as long as it was told to", len(lims) == 1 and d.k == "millis" and d.a[0] is want, show(d)[:100])
            else:
                ob("it waits as long as it was told to", not given and conf is not None and not possible(s, ("var", conf, "Some")), "without limit")
        else:
            ob("it does not wait", not lims and "channel" not in kinds, "")
    ob.close("one command is sent", "the command of its name is sent", "success means that the command was taken", *(["the result is the answer to this very request", "it waits as long as it was told to", "its answer comes back to it"] if sync else []), *(["the arguments are those given"] if ARG and len(given) < len(ARG) else []))


def zero_qos(st, pl):
    """is the QoS of a command made elsewhere known to be 0?"""
    q = fget(pl, "qos")
    return not possible(st, ("ne", q, 0))


def payload(ob, p, s, op, x, ARG, names, given, TX, fs):
    tx = [t for t in x.a[3] if t is TX]
    decl = [n for n, t in fs if "oneshot::Sender<" in t]
    if decl:
        ob("its answer comes back to it", fget(x, decl[0]) is TX, show(fget(x, decl[0]))[:60])
    rest = [v for n, v in zip(x.a[2], x.a[3]) if n not in decl]
    mine = {i: a for i, a in ARG.items() if a not in given}
    if not mine:
        return
    whole_ = [v for v in rest]
    for i, a in mine.items():
        ok_, why = any(mentions(v, a, s) for v in whole_), f"{names[i]} is not in it"
        for v in whole_:
            if v.k == "made":
                for n, (loc, nm) in enumerate(v.a[2]):
                    if nm in names.values() and n < len(v.a[1]):
                        j = next(q for q in names if names[q] == nm)
                        if not mentions(v.a[1][n], ARG[j], s):
                            ok_, why = False, f"{nm} is {show(v.a[1][n])[:60]}"
        ob("the arguments are those given", ok_, why)
    for n, v in zip(x.a[2], x.a[3]):
        hit = [ARG[j] for j in names if names[j] == n]
        if hit:
            ob("the arguments are those given", v is hit[0] or mentions(v, hit[0], s), f"{n} = {show(v)[:60]}")
