"""The C interface: what is asked of the engine, and what is reported back."""
import re
import absint, engine, ffi, codec
from absint import read, len_of
from engine import fget, pay, possible
from terms import *

RULE = ("Abstract interpretation of every hand-written extern \"C\" function with the engines' methods replaced by recording stubs of arbitrary result. Obligations: with no null argument the function calls exactly the engine method it is named after, once, on the engine behind its handle, "
        "with its own arguments in their places (strings as their text, pointer and length as the bytes, milliseconds as time since the handle was made), and returns the method's result (identifier, 0 for none, -1 for an error); with a null argument it calls nothing that needs it. "
        "Events: for one arbitrary event of every kind the engine reports, the stored, listed and serialised list is what was stored before plus that event with every field in its place; taking leaves nothing behind, and no other function touches the list. "
        "Getters: for every kind of event at the index, the field named, or the default. Constructors: every option reaches the engine's field of that name.")
THOROUGH_CONFIGS = ("default",)
FN = re.compile(r"^mqtt_(tls_|quic_)?engine_(\w+)$")
ENGINES = {None: "MqttEngine", "tls_": "TlsMqttEngine", "quic_": "QuicMqttEngine"}
# events no binding can represent
SILENT = {"PublishReceived", "PubRelReceived", "TransportClosed", "ZeroRttStatusChanged"}
ALIAS = {"topic": "topic_name"}
TAGS = ["Connected", "Disconnected", "MessageReceived", "Published", "Subscribed", "Unsubscribed", "PingResponse", "Error", "ReconnectNeeded", "ReconnectScheduled", "StreamClosed", "StreamReset", "StreamStopped"]
GETTERS = {  # name: (default, [(variant, path)])
    "tag": (0, [(v, None) for v in TAGS]),
    "connected_rc": (0, [("Connected", ("0", "reason_code"))]),
    "message_topic": (None, [("MessageReceived", ("0", "topic"))]),
    "message_payload": (None, [("MessageReceived", ("0", "payload"))]),
    "published_pid": (-1, [("Published", ("0", "packet_id"))]),
    "subscribed_pid": (-1, [("Subscribed", ("0", "packet_id"))]),
    "error_message": (None, [("Error", ("message",))]),
    "stream_id": (0, [(v, ("stream_id",)) for v in ("StreamClosed", "StreamReset", "StreamStopped")]),
    "stream_error_code": (0, [(v, ("error_code",)) for v in ("StreamReset", "StreamStopped")]),
    "stream_close_reason": (None, [("StreamClosed", ("reason",))]),
    "stream_closed_by_peer": (-1, [("StreamClosed", ("by_peer",))]),
}
METHODS = {"connect", "disconnect", "is_connected", "publish", "subscribe", "unsubscribe", "handle_incoming", "handle_tick", "handle_connection_lost", "next_tick_ms", "get_version", "auth", "take_outgoing",
           "take_events", "take_events_list", "handle_socket_data", "take_socket_data", "handle_datagram", "take_outgoing_datagrams"}
CALLED = {"next_tick_ms": "next_tick_at", "get_version": "mqtt_version", "take_events_list": "take_events"}
WRAP = ("into_owned", "to_string_lossy", "to_string", "to_owned", "into", "from", "as_bytes", "to_vec", "as_str", "into_bytes", "into_string", "deref")


def plain(v):
    """a value without what only changes its type"""
    while True:
        if v.k in ("call", "pure") and v.a[0].rsplit("::", 1)[-1] in WRAP and v.a[1]:
            v = v.a[1][0]
        elif v.k == "sl" and v.a[1] is K(0) and v.a[2] is len_of(v.a[0]):
            v = v.a[0]
        elif v.k == "cast" and v.a[0] in ("i64", "u64"):
            v = v.a[1]          # milliseconds: not past 292 million years
        elif v.k in ("text", "cstring"):
            v = v.a[0]
        elif v.k in ("call", "pure") and v.a[0].endswith("<impl str>::replace") and v.a[1][1] is K(0):
            v = v.a[1][0]       # a C string cannot hold NUL
        else:
            return v


def eq(s, a, b):
    if a is b:
        return True
    if a.k == "phi" or b.k == "phi":
        return False
    try:
        d = lsub(a, b)
    except Exception:
        return False
    return absint.isnum(a) and absint.isnum(b) and absint.prove(s, d) and absint.prove(s, lmul(d, -1))


def run(c):
    p = c.prog()
    fs = {ffi.name(f): f for f in ffi.externs(p)}
    src = next((f.locals[1] for f in p.fns.values() if f.file.startswith("flowsdk_ffi") and f.nargs == 1 and re.search(r"::MqttEvent$", f.locals[1]) and "Option<" in f.locals[0]), None)
    dst = next((a for a in p.adts if a.startswith("flowsdk_ffi") and a.endswith("::MqttEventFFI")), None)
    if dst:
        kept = {v["n"] for v in p.adts[dst]["vs"]}
        src = src and next((a for a in p.adts if a.startswith("flowsdk::") and a.endswith("::MqttEvent") and kept <= {v["n"] for v in p.adts[a]["vs"]}), None)
    if not c.anchor("C functions", fs) or not c.anchor("event conversion", src and dst and [src]):
        return
    D = Desc(p, src, dst)
    ncalls = nout = 0
    todo = {(e, m) for e in ENGINES for m in ("connect", "disconnect", "is_connected", "publish", "subscribe", "unsubscribe", "handle_tick", "take_events_list")}
    kinds = {}
    for n, f in sorted(fs.items()):
        m = FN.match(n)
        if not m or m.group(2) not in METHODS:
            continue
        e, meth = m.groups()
        todo.discard((e, meth))
        cl = ffi.Ffi(p)
        aggs = []
        cl.on_agg = lambda I, st, fr, r, ops, ln, A=aggs: A.append((r["adt"], dict(zip(r["fs"], ops)))) if fr.fn.file.startswith("flowsdk_ffi") and r.get("adt", "").endswith("DatagramC") else None
        a, b, outs = [], [], []
        kinds.setdefault(n, set())
        ins = [i for i in range(f.nargs) if f.locals[i + 1].startswith("*") and ("MqttEngineFFI" in f.locals[i + 1] or f.locals[i + 1].startswith("*const")) and "Options" not in f.locals[i + 1]]
        for nul in [None] + ins:
            def prep(I, st, args):
                for i, x in enumerate(args):
                    if x.k == "ptr" and (i in ins or "Options" in x.a[2]):
                        absint.assume(st, ffi.null(x), i == nul or "Options" in x.a[2])
            try:
                cl, I, args, os_ = ffi.run(p, f, cl, prep)
            except absint.Limit as x:
                c.ob(f"{n}: followed", False, str(x), f.file)
                continue
            x, y = delegation(D, n, meth, ENGINES[e], f, args, os_, kinds[n])
            a, b, outs = a + x, b + y + events(D, n, meth, f, args, os_, kinds[n]), outs + os_
            nout += len(os_)
        ncalls += cl.calls
        c.ob(f"{n}: asks the engine", not a, "; ".join(sorted(set(a))[:3]) or f"{len(outs)} outcomes", f.file)
        if meth == "take_outgoing_datagrams":
            b += datagrams(aggs)
        c.ob(f"{n}: reports", not b, "; ".join(sorted(set(b))[:3]) or f"{len(outs)} outcomes", f.file)
    c.ob("the operations of every engine", not todo, ", ".join(f"mqtt_{e or ''}engine_{m}" for e, m in sorted(todo, key=str)) + " not found", "flowsdk_ffi/src/engine.rs")
    want = {v["n"] for v in p.adts[src]["vs"]}
    for n, ks in sorted(kinds.items()):
        if re.search(r"handle_tick$|handle_incoming$|take_events", n):
            c.ob(f"{n}: every kind of event", want <= ks, f"not seen: {', '.join(sorted(want - ks)[:3])}", fs[n].file)
    ng = 0
    for g, (dflt, cases) in GETTERS.items():
        f = fs.get("mqtt_event_list_get_" + g)
        if not c.anchor(f"getter {g}", f and [f]):
            continue
        bad, k = getter(p, D, f, g, dflt, dict(cases))
        ng += k
        c.ob(f"mqtt_event_list_get_{g}: the field of the event at the index", not bad, "; ".join(sorted(set(bad))[:3]) or f"{k} cases", f.file)
    f = fs.get("mqtt_event_list_len")
    if c.anchor("list length", f and [f]):
        cl, I, args, outs = ffi.run(p, f)
        bad = []
        for s, r in outs:
            want = len_of(read(s, (("T", args[0]), "f:" + D.listfield)))
            if not isnull(s, args[0]) and not eq(s, r, want):
                bad.append(f"{show(r)[:80]} is returned")
        c.ob("mqtt_event_list_len: the number of events", not bad, "; ".join(bad[:2]) or "its length", f.file)
    nopt = constructors(c, p, fs)
    c.count("engine calls", ncalls)
    c.count("outcomes", nout)
    c.count("getter cases", ng)
    c.count("options", nopt)
    c.ob("enough was looked at", len(kinds) >= 30 and ncalls >= 30 and ng >= 60 and nopt >= 30, f"{len(kinds)} functions, {ncalls} calls, {ng} getter cases, {nopt} options")


def isnull(s, a):
    return absint.prove(s, ladd(ffi.null(a), K(-1)))


class Desc:
    """how an engine event looks in C"""

    def __init__(self, p, src, dst):
        self.p, self.src, self.dst = p, src, dst
        self.dvs = {v["n"]: v for v in p.adts[dst]["vs"]}
        self.svs = {v["n"]: v for v in p.adts[src]["vs"]}
        self.listfield, self.held = None, {}
        for a, d in p.adts.items():
            if not a.startswith("flowsdk_ffi"):
                continue
            for v in d["vs"]:
                for g in v["fs"]:
                    if g[1] == f"std::vec::Vec<{dst}>" and a.endswith("MqttEventListFFI"):
                        self.listfield = g[0]
                    if re.search(rf"Mutex<std::vec::Vec<{re.escape(dst)}>>$", g[1]):
                        self.held[a] = g[0]

    def path(self, ptr):
        ty = re.sub(r"^\*(const|mut) ", "", ptr.a[2])
        return (("T", ptr), "f:" + self.held[ty], "f:$data") if ty in self.held else None

    def start(self, h, ts):
        """the moment the handle was made, where terms mention it"""
        ad = self.p.adts[re.sub(r"^\*(const|mut) ", "", h.a[2])]
        names = {"f:" + g[0] for g in ad["vs"][0]["fs"] if g[1] == "std::time::Instant"}
        return [read(absint.St(), (("T", h), n)) for n in names if any(read(absint.St(), (("T", h), n)) in subterms(t) for t in ts if isinstance(t, T))]

    def fault(self, s, v, ev, x):
        """does x represent event ev of variant v?  '' or what is wrong"""
        if x is None:
            return "" if v in SILENT else f"{v} is dropped"
        if x.k != "adt" or x.a[0] != self.dst:
            return f"{v} becomes {show(x)[:60]}"
        if x.a[1] != v:
            return f"{v} becomes {x.a[1]}"

        def leaves(vd, t):
            for g in vd["fs"]:
                if g[0] == "0" and g[1] in self.p.adts and not self.p.adts[g[1]]["enum"]:
                    yield from leaves(self.p.adts[g[1]]["vs"][0], fget(t, "0"))
                else:
                    yield g[0], fget(t, g[0])

        srcl = dict(leaves(self.svs[v], absint.project(ev, "v:" + v)))
        for n, got in leaves(self.dvs[v], x):
            want = srcl.get(n, srcl.get(ALIAS.get(n)))
            if want is None and len(srcl) == 1:
                want = srcl.get("0")
            ms = n.endswith("_ms") and srcl.get(n[:-3])
            if ms is not None and ms is not False:
                g = plain(got)
                if not (g.k == "bin" and g.a[0] == "Div" and plain(g.a[1]) is plain(ms) and g.a[2] is K(1000000)):
                    return f"{v}.{n} is {show(got)[:60]}"
            elif want is None:
                return f"{v}.{n} has no source"
            elif v == "Error":
                if want not in subterms(got) and not mentions(s, got, want):
                    return f"{v}.{n} does not come from the error"
            elif plain(got) is not plain(want) and not eq(s, got, want):
                return f"{v}.{n} is {show(got)[:60]}"
        return ""


def mentions(s, t, want):
    """a formatted text carries its arguments as an opaque site"""
    return any(x.k in ("fmt", "call", "pure") for x in subterms(t))


def sequence(D, s, v, ptr):
    """(held before?, elements) of a list of events"""
    v = plain(v)
    if v is read_initial(D, ptr):
        return True, []
    if v.k == "cat":
        h, xs = sequence(D, s, v.a[0], ptr)
        h2, ys = sequence(D, s, v.a[1], ptr)
        if h2 and (h or xs):
            raise ValueError(f"{show(v)[:80]}")
        return h or h2, xs + ys
    if v.k == "coll":
        e = [e for e in ffi.trace(s, "eachc") if e[1] is v]
        if not e:
            raise ValueError(f"{show(v)[:80]}")
        return False, [] if e[0][2] is None else [e[0][2]]
    if v.k in ("vnew",) or v.k == "arr" and not v.a[0]:
        return False, []
    if v.k == "arr":
        return False, list(v.a[0])
    if v.k in ("vpush", "push"):
        h, xs = sequence(D, s, v.a[0], ptr)
        return h, xs + [v.a[1]]
    raise ValueError(f"{show(v)[:80]}")


def read_initial(D, ptr):
    return read(absint.St(), D.path(ptr))


def delegation(D, n, meth, eng, f, args, outs, kinds):
    bad, rep = [], []
    call = CALLED.get(meth, meth)
    h = args[0]
    nums = [a for a in args[1:] if a.k != "ptr"]
    ptrs = [a for a in args[1:] if a.k == "ptr" and a.a[2].startswith("*const")]
    for s, r in outs:
        cs = ffi.trace(s, "call")
        nulls = [a for a in [h] + ptrs if a.k == "ptr" and "Options" not in a.a[2] and isnull(s, a)]
        if nulls:
            if cs and h in nulls:
                bad.append("the engine is called through a null handle")
            if not cs:
                if f.locals[0] == "i32" and r is not K(-1 if meth not in ("is_connected",) else 0):
                    rep.append(f"{show(r)[:40]} is returned for a null argument")
                continue
        if len(cs) != 1:
            if not cs and meth in ("handle_datagram", "connect") and any(x.k in ("call", "pure") and x.a[0].endswith("::parse") and not possible(s, ("var", x, "Ok")) for x in s.var):
                if f.locals[0] == "i32" and r is not K(-1):
                    rep.append(f"{show(r)[:40]} is returned although the address is not one")
                continue
            if not cs and meth == "connect" and r is K(-1) and any(not possible(s, ("var", x, "Ok")) for x in s.var if x.k in ("call", "pure")):
                continue    # the certificate is refused
            bad.append(f"{len(cs)} calls")
            continue
        _, ty, cm, vals, self_ = cs[0]
        if (ty, cm) != (eng, call):
            bad.append(f"{ty}::{cm} is called")
            continue
        root = self_.a[0] if self_ is not None and self_.k == "ref" else None
        if not root or root[0] != ("T", h):
            bad.append("another engine is called")
        # ---- arguments
        if meth in ("connect",) and eng == "QuicMqttEngine":
            addr, name = (plain(v) for v in vals[:2])
            if not (len(ptrs) >= 2 and any(y is mk("cstr", ptrs[0]) for y in subterms(addr)) and any(x.k in ("call", "pure") and x.a[0].endswith("::parse") for x in subterms(addr))):
                bad.append(f"the address is {show(vals[0])[:60]}")
            if name is not mk("cstr", ptrs[1]):
                bad.append(f"the server name is {show(vals[1])[:60]}")
        elif meth == "publish":
            want = {"topic_name": mk("cstr", ptrs[0]), "payload": mk("cbytes", ptrs[1], nums[0]), "qos": nums[1]}
            bad += command(s, vals[0], want, {"retain": K(0), "dup": K(0), "packet_id": NONE})
        elif meth == "subscribe":
            sub = one(fget(vals[0], "subscriptions"))
            bad += command(s, vals[0], {}, {"packet_id": NONE})
            bad += command(s, sub, {"topic_filter": mk("cstr", ptrs[0]), "qos": nums[0]}, {"no_local": K(0), "retain_as_published": K(0), "retain_handling": K(0)}) if sub is not None else ["not one subscription"]
        elif meth == "unsubscribe":
            lists = [v for v in vals[0].a[3] if one(v) is not None] if vals[0].k == "adt" else []
            if len(lists) != 1 or plain(one(lists[0])) is not mk("cstr", ptrs[0]):
                bad.append(f"{show(vals[0])[:80]} is unsubscribed")
            bad += command(s, vals[0], {}, {"packet_id": NONE})
        elif meth in ("handle_incoming", "handle_socket_data"):
            if plain(vals[0]) is not mk("cbytes", ptrs[0], nums[0]):
                bad.append(f"{show(vals[0])[:80]} is handed over")
        elif meth == "handle_datagram":
            if plain(vals[0]) is not mk("cbytes", ptrs[0], nums[0]):
                bad.append(f"{show(vals[0])[:80]} is handed over")
            if mk("cstr", ptrs[1]) not in subterms(vals[1]):
                bad.append(f"the address is {show(vals[1])[:60]}")
        elif meth == "handle_tick":
            st = D.start(h, [vals[0]])
            if len(st) != 1 or not eq(s, vals[0], ladd(st[0], lmul(nums[0], 1000000))):
                bad.append(f"the time is {show(vals[0])[:80]}")
        elif meth == "auth":
            if vals[0] is not nums[0]:
                bad.append(f"the reason code is {show(vals[0])[:60]}")
        elif vals:
            bad.append(f"{len(vals)} arguments")
        # ---- result
        res = [x for x in s.var if x.k == "in" and x.a[:2] == ("result", call)]
        R = mk("in", "result", call, 1)
        if meth in ("publish", "subscribe", "unsubscribe"):
            k = {v: possible(s, ("var", R, v)) for v in ("Ok", "Err")}
            if k["Err"] and r is not K(-1):
                rep.append(f"{show(r)[:60]} is returned for an error")
            if k["Ok"]:
                x = pay(R, "Ok")
                if meth == "publish":
                    if possible(s, ("var", R, "Ok"), ("var", x, "None")) and r is not K(0):
                        rep.append(f"{show(r)[:60]} is returned for a publish without identifier")
                    if possible(s, ("var", R, "Ok"), ("var", x, "Some")) and plain(r) is not pay(x, "Some"):
                        rep.append(f"{show(r)[:60]} is returned instead of the identifier")
                elif plain(r) is not x:
                    rep.append(f"{show(r)[:60]} is returned instead of the identifier")
        elif meth == "connect" and f.locals[0] == "i32":
            if possible(s, ("var", R, "Ok")) and r is not K(0) or possible(s, ("var", R, "Err")) and r is not K(-1):
                rep.append(f"{show(r)[:60]} is returned")
        elif meth == "is_connected":
            if not (eq(s, plain(r), R) or r is K(1) and not possible(s, ("eq", R, 0)) or r is K(0) and not possible(s, ("eq", R, 1))):
                rep.append(f"{show(r)[:60]} is returned")
        elif meth == "get_version":
            if plain(r) is not R:
                rep.append(f"{show(r)[:60]} is returned")
        elif meth == "next_tick_ms":
            if possible(s, ("var", R, "None")) and r is not K(-1):
                rep.append(f"{show(r)[:60]} is returned when there is nothing to wait for")
            if possible(s, ("var", R, "Some")):
                at, x = pay(R, "Some"), plain(r)
                stt = D.start(h, [at, r] + [y for y in s.cons])
                good = x.k == "bin" and x.a[0] == "Div" and x.a[2] is K(1000000) and any(x.a[1] is lsub(at, y) for y in stt)
                past = r is K(0) and stt and not any(possible_ge(s, ladd(lsub(at, y), K(-1000000))) for y in stt)
                if not good and not past:
                    rep.append(f"{show(r)[:60]} is returned for the wake-up time")
        elif meth in ("take_outgoing", "take_socket_data"):
            if r.k == "raw":
                if r.a[1] is not R:
                    rep.append(f"{show(r)[:60]} is handed out")
            elif possible_ge(s, ladd(len_of(R), K(-1))):
                rep.append("bytes taken from the engine are lost")
        elif meth == "take_outgoing_datagrams":
            if r.k != "raw" and possible_ge(s, ladd(len_of(R), K(-1))) and ffi.trace(s, "each"):
                if not is_empty_case(s, R):
                    rep.append("datagrams taken from the engine are lost")
    return bad, rep


def is_empty_case(s, R):
    return not possible(s, ("ne", len_of(R), 0))


def possible_ge(s, e):
    t = s.copy()
    return absint.add_ge(t, e) and not engine.refuted(t)


def one(v):
    return v.a[0][0] if v.k == "arr" and len(v.a[0]) == 1 else None


def command(s, v, want, fixed):
    if v.k != "adt":
        return [f"{show(v)[:60]} is requested"]
    out = []
    for k, w in want.items():
        got = dict(zip(v.a[2], v.a[3])).get(k)
        if got is None or plain(got) is not w and not eq(s, got, w):
            out.append(f"{k} is {show(got)[:60]}")
    for k, w in fixed.items():
        got = dict(zip(v.a[2], v.a[3])).get(k)
        if got is not w:
            out.append(f"{k} is {show(got)[:60]}")
    return out


def events(D, n, meth, f, args, outs, kinds):
    bad = []
    ptr = args[0]
    path = D.path(ptr)
    if path is None:
        return [f"no events in {ptr.a[2]}"]
    for s, r in outs:
        if isnull(s, ptr):
            continue
        cs = ffi.trace(s, "call")
        fin = read(s, path)
        reports = meth in ("handle_incoming", "handle_tick")
        takes = meth in ("take_events", "take_events_list")
        try:
            h, xs = sequence(D, s, fin, ptr)
            if takes:
                if h or xs:
                    bad.append("events stay behind")
                if meth == "take_events":
                    if r.k == "raw" and r.a[1].k == "cstring" and r.a[1].a[0].k == "s":
                        continue        # serialisation failed
                    v = [x for x in subterms(r) if x.k in ("call", "pure") and x.a[0].startswith("serde_json::")]
                    if len(v) != 1:
                        bad.append(f"{show(r)[:60]} is returned")
                        continue
                    v = v[0].a[1][0]
                    while v.k == "ref":
                        v = read(s, v.a[0])
                else:
                    v = r.a[1].a[0] if r.k == "raw" and r.a[1].k == "boxed" else r
                    if v.k != "adt":
                        bad.append(f"{show(r)[:60]} is returned")
                        continue
                    v = fget(v, D.listfield)
                h, xs = sequence(D, s, plain(v), ptr)
        except ValueError as e:
            bad.append(f"the list of events is {e}")
            continue
        if not h:
            bad.append("events stored before are lost")
        if meth == "handle_socket_data":
            R = mk("in", "result", meth, 1)
            ok, err = (possible(s, ("var", R, v)) for v in ("Ok", "Err"))
            if not (cs and R in s.var):
                ok, err = True, bool(cs)
            if err and f.locals[0] == "()" and not (len(xs) == 1 and one_of(s, xs[0], "Error")):
                bad.append("a failure of the transport is not reported")
            if ok and xs:
                bad.append("an event is made up")
            continue
        if not (reports or takes):
            if xs:
                bad.append("an event is made up")
            continue
        ev = [e[1] for e in ffi.trace(s, "each") if e[1].k == "in" and e[1].a[0] == "result"]
        if not ev:
            if xs:
                bad.append("an event is made up")
            continue
        if len(xs) > 1:
            bad.append("an event is reported twice")
            continue
        x = mk("each", ev[0])
        vs = [v for v in D.svs if possible(s, ("var", x, v))]
        for v in vs:
            kinds.add(v)
            w = D.fault(s, v, x, xs[0] if xs else None)
            if w:
                bad.append(w)
    return bad


def one_of(s, x, v):
    return x.a[1] == v if x.k == "adt" else not [1 for k in (s.var.get(x) or ()) if k != v] and possible(s, ("var", x, v))


def datagrams(aggs):
    bad = []
    seen = 0
    for ad, fs in aggs:
        seen += 1
        addr, data = fs.get("addr"), fs.get("data")
        x = [y for y in subterms(data) if y.k == "each"]
        if len(x) != 1 or data.k != "raw" or data.a[1] is not fget(x[0], "1"):
            bad.append(f"the data is {show(data)[:60]}")
        elif addr.k != "raw" or plain(addr.a[1]) is not fget(x[0], "0"):
            bad.append(f"the address is {show(addr)[:60]}")
    return bad if seen else ["no datagram is handed out"]


def getter(p, D, f, g, dflt, cases):
    bad, n = [], 0
    for where in ["null", "past"] + sorted(D.dvs):
        ev = []

        def prep(I, st, a):
            absint.assume(st, ffi.null(a[0]), where == "null")
            if where != "null":
                L = read(st, (("T", a[0]), "f:" + D.listfield))
                e = lsub(len_of(L), ladd(a[1], K(1)))
                absint.add_ge(st, e if where != "past" else ladd(lmul(e, -1), K(-1)))
                if where != "past":
                    ev[:] = [mk("elem", L, a[1])]
                    absint.set_var(st, ev[0], where)

        cl, I, args, outs = ffi.run(p, f, None, prep)
        if not outs:
            bad.append(f"{where}: no outcome")
        for s, r in outs:
            n += 1
            if where in ("null", "past") or where not in cases:
                good = r.k == "nullptr" if dflt is None else r is K(dflt)
            elif g == "tag":
                good = r is K(TAGS.index(where) + 1)
            else:
                w = absint.project(ev[0], "v:" + where)
                for k in cases[where]:
                    w = fget(w, k)
                got = plain(r.a[1]) if r.k == "raw" else plain(r)
                if g == "published_pid":
                    good = not (possible(s, ("var", w, "None")) and r is not K(0) or possible(s, ("var", w, "Some")) and got is not pay(w, "Some"))
                else:
                    good = got is w or r is K(1) and not possible(s, ("eq", w, 0)) or r is K(0) and not possible(s, ("eq", w, 1))
            if not good:
                bad.append(f"{where}: {show(r)[:50]} is returned")
    return bad, n


def constructors(c, p, fs):
    n = 0
    copt = next((a for a in p.adts if a.endswith("::MqttOptionsC")), None)
    ropt = next((a for a in p.adts if a.endswith("::MqttOptionsFFI")), None)
    if not c.anchor("option structs", copt and ropt and [copt]):
        return 0

    def options(s):
        e = [e for e in ffi.trace(s, "call") if e[2] == "new"]
        return e[0][3][0] if len(e) == 1 and e[0][3] and e[0][3][0].k == "adt" else None

    # from C
    for nm, f in sorted(fs.items()):
        m = re.match(r"^mqtt_(tls_|quic_)?engine_new(_with_opts)?$", nm)
        if not m:
            continue
        flds = []
        if m.group(2):
            for g in p.adts[copt]["vs"][0]["fs"]:
                flds.append((g[0], lambda a, g=g: absint.project(mk("deref", a[0]), "f:" + g[0]), g[1].startswith("*")))
        else:
            flds = [("client_id", lambda a: a[0], True), ("mqtt_version", lambda a: a[1], False)]
        for fld, get, isptr in flds:
            for nul in ((False, True) if isptr else (False,)):
                def prep(I, st, a, get=get, nul=nul, isptr=isptr):
                    if m.group(2):
                        absint.assume(st, ffi.null(a[0]), False)
                    if isptr:
                        absint.assume(st, ffi.null(get(a)), nul)
                cl, I, args, outs = ffi.run(p, f, None, prep)
                bad = []
                made = 0
                for s, r in outs:
                    o = options(s)
                    if o is None:
                        continue
                    made += 1
                    got, want = fget(o, fld), get(args)
                    if isptr and fld != "client_id":
                        good = got is NONE if nul else got.k == "adt" and got.a[1] == "Some" and plain(got.a[3][0]) is mk("cstr", want)
                    elif isptr:
                        good = (nul and got.k == "s" and got.a[0] != "") or plain(got) is mk("cstr", want)
                    else:
                        good = got is want or eq(s, got, want)
                    if not good:
                        bad.append(f"it is {show(got)[:80]}")
                n += 1
                c.ob(f"{nm}: {fld}{' not given' if nul else ''} reaches the engine", made and not bad, "; ".join(sorted(set(bad))[:2]) or f"{made} outcomes", f.file)
    # from the bindings
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if not f.file.startswith("flowsdk_ffi/src") or f.d["mac"] or not f.nargs or f.locals[1] != ropt or "{closure" in f.id:
            continue
        nm = "::".join(f.id.rsplit("::", 2)[1:])
        for g in p.adts[ropt]["vs"][0]["fs"]:
            fld = g[0]
            src = []
            for var in (("None", "Some") if "Option<" in g[1] else (None,)):
                def prep(I, st, a, fld=fld, var=var):
                    src[:] = [fget(a[0] if a[0].k != "ref" else read(st, a[0].a[0]), fld)]
                    if var:
                        absint.set_var(st, src[0], var)
                try:
                    cl, I, args, outs = ffi.run(p, f, None, prep)
                except absint.Limit as e:
                    c.ob(f"{nm}: {fld}: followed", False, str(e), f.file)
                    continue
                bad, made = [], 0
                for s, r in outs:
                    o = options(s)
                    if o is None:
                        continue
                    made += 1
                    got, want = fget(o, fld), src[0]
                    if var:
                        good = got is want or (got is NONE if var == "None" else got.k == "adt" and got.a[1] == "Some" and plain(got.a[3][0]) in (pay(want, "Some"), mk("s", "")) or plain(got) is want)
                        if var == "Some" and got.k == "adt" and got.a[1] == "Some":
                            good = plain(got.a[3][0]) is pay(want, "Some")
                    else:
                        good = plain(got) is want or eq(s, got, want)
                    if not good:
                        bad.append(f"it is {show(got)[:80]}")
                n += 1
                c.ob(f"{nm}: {fld}{' ' + var if var else ''} reaches the engine", made and not bad, "; ".join(sorted(set(bad))[:2]) or f"{made} outcomes", f.file)
    return n
