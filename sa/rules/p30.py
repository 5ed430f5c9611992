"""What the user sets is what is asked for: builders, constructors, CONNECT and the other requests."""
import re
import absint, builders as bld, effects, engine
from absint import read, write, len_of
from engine import fget, pay, possible, same
from terms import *

RULE = ("Abstract interpretation of every public setter and constructor of options, configurations, commands and packets, for arbitrary values: the field (or MQTT 5 property) of its name becomes the value given, on every path that returns, and every other field is left as it was; a builder finishes with exactly what was set. "
        "The CONNECT the engine sends carries each option in the field of its name, the MQTT 5 properties exactly when their option is set, under both protocol versions; DISCONNECT and AUTH carry what they were called with; topic filters and QoS of a v3 SUBSCRIBE are the command's, in order. "
        "Every public field of the options and client configurations is read by some function other than its own setters and derived traits.")
THOROUGH_CONFIGS = ("default", "lax")
NOISE = {"with", "add", "set", "no", "enable", "disable", "from", "pem", "file", "list", "clear", "new"}
SAME = {"topic": "subscription", "filter": "topic", "id": "identifier", "auth": "authentication", "prop": "property", "propertie": "property", "rap": "retain_as_published"}


def words(n):
    out = set()
    for w in re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "_", n).lower().split("_"):
        w = w[:-1] if len(w) > 3 and w.endswith("s") and not w.endswith("ss") else w
        if w not in NOISE:
            out.add(w)
    return out


def like(a, b):
    """do two words mean the same?"""
    return a == b or len(a) >= 3 and b.startswith(a) or len(b) >= 3 and a.startswith(b) or SAME.get(a) == b or SAME.get(b) == a or a == "id" and b.startswith("identif") or b == "id" and a.startswith("identif")


def overlap(a, b):
    return sum(1 for x in words(a) if any(like(x, y) for y in words(b)))


def unref(st, v):
    for _ in range(6):
        if v.k != "ref":
            break
        v = read(st, v.a[0])
    return v


def run(c):
    p = c.prog()
    setters(c, p)
    constructors(c, p)
    connect(c, p)
    others(c, p)
    unread(c, p)


# ---------------------------------------------------------------- builders
def found(p):
    """(builder type, finishing method or None, finished type)"""
    out = list(bld.find(p))
    for f in p.fns.values():
        # a type that is its own builder
        if f.nargs == 1 and f.d.get("vis") == "Public" and f.id.endswith("::build") and f.locals[0] == f.locals[1] and f.locals[0] in p.adts and f.id.startswith(f.locals[0] + "::"):
            out.append((f.locals[0], f, f.locals[0]))
    return sorted(out, key=lambda x: x[0])


def methods(p, b):
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.id.startswith(b + "::") and "{closure" not in f.id and f.d.get("vis") == "Public" and f.nargs >= 1 and f.locals[1] == b and not f.id.endswith("::build"):
            if f.locals[0] == b or f.locals[0].startswith("std::result::Result<" + b + ","):
                yield f.id.rsplit("::", 1)[1], f


def mentions_any(v, pred):
    return any(pred(s) for s in subterms(v))


def deep(st, v, n=6):
    out = [v]
    for s in list(subterms(v)):
        if s.k == "ref" and n:
            out += deep(st, read(st, s.a[0]), n - 1)
    return out


def reaches(st, v, x):
    return any(s is x for w in deep(st, v) for s in subterms(w))


def is_arg(st, v, x):
    """the value given, as it is, wrapped, or converted by what only changes its type"""
    while True:
        if v is x:
            return True
        if v.k == "adt" and v.a[1] in ("Some", "Ok") and len(v.a[3]) == 1:
            v = v.a[3][0]
        elif v.k in ("call", "pure") and re.search(r"(Into|From)(<.*>)?(>|)::(into|from)$|::(to_string|to_owned|to_vec|into_boxed_str|into_bytes|clone)$", v.a[0]) and v.a[1]:
            v = v.a[1][0]
        elif v.k == "sl" and v.a[1] is K(0) and v.a[2] is len_of(v.a[0]):
            v = v.a[0]
        elif v.k == "copyof":
            v = v.a[0]
        elif v.k == "ref":
            v = read(st, v.a[0])
        else:
            return False


def pushed(new, old):
    """elements pushed onto old, or None"""
    b, els = engine.items(new)
    return els if b is old and els else None


def setters(c, p):
    n = 0
    for b, fin, cty in found(p):
        short = b.rsplit("::", 1)[1]
        flds = engine.fields(p, cty)
        for nm, m in methods(p, b):
            where_ = engine.where(m)
            key = f"{short}::{nm}"
            if last(c, p, key, b, m, nm):
                n += 1
                continue
            ch, a = bld.changes(p, fin, cty, m)
            if not c.ob(f"{key}: followed", ch is not None, "its effect is not understood", where_):
                continue
            n += 1
            args = a[1:]
            s0 = None
            if nm in flds:
                extra = [x for x in ch if x != nm and not ("tls" in nm and "tls" in x)]
                vs = ch.get(nm, [])
                good = bool(vs) and all(v is not None and args and is_arg(s, v, args[0]) for s, _, v in vs)
                c.ob(f"{key}: sets {nm} to the value given", good, f"{show(vs[0][2])[:100] if vs and vs[0][2] is not None else 'left as it was'}", where_)
                c.ob(f"{key}: changes nothing else", not extra, ", ".join(extra), where_)
                continue
            score = {x: overlap(nm, x) for x in flds}
            props = [x for x in ch if x == "properties" or "Property" in flds[x]]
            if props and len(ch) == 1:
                vs = ch[props[0]]
                good, why = True, ""
                for s, old, new in vs:
                    els = pushed(new, old) if new is not None else None
                    if not els or len(els) != 1:
                        good, why = False, show(new)[:100] if new is not None else "none on some path"
                        continue
                    e = els[0]
                    if e.k == "adt" and e.a[0].endswith("::Property"):
                        w = words(e.a[1])
                        if not all(any(like(x, y) for y in w) for x in words(nm)) or len(w) != len(words(nm)):
                            good, why = False, f"it adds {e.a[1]}"
                        elif len(e.a[3]) != len(args) or not all(is_arg(s, x, y) for x, y in zip(e.a[3], args)):
                            good, why = False, show(e)[:100]
                    elif not (len(args) == 1 and is_arg(s, e, args[0])):
                        good, why = False, show(e)[:100]
                c.ob(f"{key}: adds the property of its name with the value given", good, why, where_)
                continue
            best = max(score.values() or [0])
            c.ob(f"{key}: changes the field of its name", best > 0 and any(score[x] == best for x in ch), f"{', '.join(sorted(ch)) or 'nothing'} instead", where_)
            c.ob(f"{key}: changes nothing else", all(score[x] for x in ch), ", ".join(sorted(x for x in ch if not score[x])), where_)
            for x, vs in ch.items():
                if not score[x]:
                    continue
                for s, old, new in vs:
                    if new is None:
                        continue
                    foreign = [t.a[1] for t in subterms(new) if t.k == "in" and t.a[0] == "builder" and len(t.a) > 1 and not same_field(p, b, t.a[1], x)]
                    c.ob(f"{key}: the value is made of what is given", not foreign, f"{x} is made of {', '.join(foreign)}", where_)
                    els = pushed(new, old)
                    if els is not None and re.match("add_", nm):
                        for e in els:
                            element(c, p, key, m, s, e, args, where_)
                    elif args:
                        c.ob(f"{key}: the value given is used", new.k == "phi" or any(reaches(s, new, y) for y in args), f"{x} = {show(new)[:80]}", where_)
                    elif re.match("(no|disable|clear)_", nm):
                        c.ob(f"{key}: turns it off", new is NONE or new is K(0) or new.k == "vnew", f"{x} = {show(new)[:80]}", where_)
                    elif re.match("enable_", nm):
                        c.ob(f"{key}: turns it on", new is not NONE and new is not K(0), f"{x} = {show(new)[:80]}", where_)
    c.count("setters", n)
    c.ob("setters found", n >= 70, f"{n}", "src/mqtt_client")


def same_field(p, b, x, y):
    return x == y or overlap(x, y) > 0


def argnames(m):
    d = {}
    for nm, pl in m.d["dbg"]:
        if len(pl) == 1 and 1 <= pl[0] <= m.nargs:
            d.setdefault(pl[0] - 1, nm)
    return d


def element(c, p, key, m, st, e, args, where_):
    """an element added from several arguments: each in the field of its name"""
    if len(args) == 1:
        c.ob(f"{key}: adds what is given", is_arg(st, e, args[0]) or reaches(st, e, args[0]), show(e)[:100], where_)
        return
    named(c, key, m, st, e, {i: v for i, v in enumerate(args, 1)}, where_)


def named(c, key, m, st, v, args, where_):
    """each argument in the field of its name; {index: term}"""
    nms = argnames(m)
    if v.k != "adt":
        c.ob(f"{key}: followed", False, show(v)[:100], where_)
        return 0
    fields = v.a[2]
    n = 0
    for i, x in args.items():
        nm = nms.get(i)
        if nm is None:
            continue
        sc = {f: (overlap(nm, f), f == nm) for f in fields}
        best = max(sc.values(), key=lambda t: (t[1], t[0]), default=(0, False))
        if best[0] == 0 and not best[1]:
            c.ob(f"{key}: {nm} is used", any(reaches(st, y, x) for y in v.a[3]), "it is not", where_)
            continue
        to = [f for f in fields if (sc[f][1], sc[f][0]) == (best[1], best[0])]
        n += 1
        got = [fget(v, f) for f in to]
        c.ob(f"{key}: {nm} is what was given", any(is_arg(st, g, x) or not sc[f][1] and reaches(st, g, x) for f, g in zip(to, got)), f"{to[0]} = {show(got[0])[:80]}", where_)
    return n


def last(c, p, key, b, m, nm):
    """setters of the options of the topic added last"""
    whole = bld.whole(p, b)
    if whole is None:
        return False
    hit = []
    LAST = (("G", "last element"),)

    def lastmut(I, st, fr, name, args, t, site):
        v = unref(st, args[0])
        src = [s for s in subterms(v) if s.k == "in" and s.a[0] == "builder"]
        hit.append(src[0] if src else None)
        ty = fr.fn.locals[t["d"][0]]
        g = re.search(r"&mut ([\w:]+)", ty)
        el = g.group(1) if g else None
        e = adt(el, el.rsplit("::", 1)[1], tuple(engine.fields(p, el)), tuple(mk("in", "element", n) for n in engine.fields(p, el))) if el in p.adts else None
        if e is None:
            return None
        write(st, LAST, e)
        s2 = st.copy()
        return [(st, some(mk("ref", LAST, 1))), (s2, NONE)]
    I, cl, a, st0, outs = engine.run(p, m, args={0: whole}, hooks=[(re.compile(r"::last_mut$"), lastmut)], part=lambda I, st: ())
    if not hit:
        return False
    good, why, n = True, "", 0
    for st, r in outs:
        e = read(st, LAST)
        if e.k not in ("adt", "upd"):
            good, why = False, "no element is changed on some path that returns"
            continue
        n += 1
        el = [x for x in p.adts if e.k == "adt" and x == e.a[0]]
        for f in engine.fields(p, el[0]) if el else ():
            v, old = fget(e, f), mk("in", "element", f)
            want = f if overlap(nm, f) == max(overlap(nm, g) for g in engine.fields(p, el[0])) else None
            if want:
                if not is_arg(st, v, a[1]):
                    good, why = False, f"{f} = {show(v)[:60]}"
            elif v is not old:
                good, why = False, f"{f} is changed too"
        for f in engine.fields(p, b):
            v = fget(r, f)
            if f != "topics" and hit[0] is not mk("in", "builder", f) and v is not mk("in", "builder", f):
                good, why = False, f"{f} of the builder is changed"
    c.ob(f"{key}: sets the option of its name of the topic added last", good and n > 0, why or "no path", engine.where(m))
    return True


# ---------------------------------------------------------------- constructors
def constructors(c, p):
    n = k = 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.d.get("vis") != "Public" or "{closure" in f.id or f.d["mac"] or not f.nargs or not re.match(r"flowsdk::(mqtt_client::commands|mqtt_serde::mqttv[35])::", f.id) or "::tests::" in f.id:
            continue
        r = f.locals[0]
        if r not in p.adts or not f.id.startswith(r + "::") or f.locals[1] == r or f.locals[1] == "&" + r:
            continue
        short = "::".join(f.id.rsplit("::", 3)[1:])
        if not argnames(f):
            continue
        try:
            I, cl, a, st0, outs = engine.run(p, f, part=lambda I, st: ())
        except absint.Limit as e:
            c.ob(f"{short}: followed", False, str(e), engine.where(f))
            continue
        n += 1
        for st, v in outs:
            vals = {i: unref(st, x) for i, x in enumerate(a)}
            vals = {i: (x.a[0] if x.k == "sl" else x) for i, x in vals.items()}
            k += named(c, short, f, st, v, vals, engine.where(f))
    c.count("constructors", n)
    c.count("constructor arguments", k)
    c.ob("constructors found", n >= 25 and k >= 60, f"{n} with {k} arguments", "src/mqtt_serde")


# ---------------------------------------------------------------- CONNECT
def connect(c, p):
    f = engine.method(p, "connect")
    if not c.anchor("MqttEngine::connect", [f] if f else []):
        return
    ob = engine.Agg(c, "CONNECT", engine.where(f))
    oty = next(a for a in p.adts if a.endswith("::MqttClientOptions"))
    me = [a for a in p.adts if a.endswith("::engine::MqttEngine")]
    of = [n for n, ty in engine.fields(p, me[0]).items() if ty == oty] if me else []
    if not c.anchor("options of the engine", of, 1):
        return
    R = engine.roles(p)
    sent = []
    PROPS = {"session_expiry_interval": "SessionExpiryInterval", "maximum_packet_size": "MaximumPacketSize", "request_response_information": "RequestResponseInformation", "request_problem_information": "RequestProblemInformation"}
    A = {}

    def prep(I, st, a):
        st.auto = ()
        A["o"] = fget(read(st, a[0].a[0]), of[0])

    def enc(I, st, fr, name, args, t, site):
        x = unref(st, args[0])
        sent.append(x)
        judge(st, x)
        s2 = st.copy()
        return [(st, ok(mk("encoded", x))), (s2, err(mk("in", "too large")))]

    def judge(st, x):
        o = A["o"]
        O = lambda n: fget(o, n)
        v5 = not possible(st, ("ne", O("mqtt_version"), 5))
        v3 = not possible(st, ("eq", O("mqtt_version"), 5))
        ob("the CONNECT is of the version configured", x.k == "adt" and (x.a[1] == "Connect5" and v5 or x.a[1] == "Connect3" and v3), show(x)[:60])
        if x.k != "adt" or not x.a[1].startswith("Connect"):
            return
        b = x.a[3][0]
        is5 = x.a[1].endswith("5")
        for fl, opt in (("client_id", "client_id"), ("username", "username"), ("password", "password"), ("keep_alive", "keep_alive"), ("clean_start" if is5 else "clean_session", "clean_start")):
            g = fget(b, fl)
            w = O(opt)
            ob(f"{opt} is the option", g is w or same(st, g, w) or g is NONE and not possible(st, ("var", w, "Some")) or g.k == "adt" and g.a[1] == "Some" and is_arg(st, g.a[3][0], pay(w, "Some")) and not possible(st, ("var", w, "None")), f"{fl} = {show(g)[:80]}")
        g, w = fget(b, "will"), O("will")
        if is5:
            ob("will is the option", g is w or g is NONE and not possible(st, ("var", w, "Some")) or g.k == "adt" and g.a[1] == "Some" and whole(g.a[3][0], pay(w, "Some")) and not possible(st, ("var", w, "None")), f"{show(g)[:100]}")
        elif g is NONE:
            ob("will is the option", not possible(st, ("var", w, "Some")), "it is left out")
        else:
            ww = pay(w, "Some")
            good = g.k == "adt" and g.a[1] == "Some" and not possible(st, ("var", w, "None"))
            ob("will is the option", good, show(g)[:100])
            if good:
                y = g.a[3][0]
                for d, s in (("retain", "will_retain"), ("qos", "will_qos"), ("topic", "will_topic"), ("message", "will_message")):
                    z = fget(y, d)
                    ob(f"{s} is the option's", z is fget(ww, s) or same(st, z, fget(ww, s)), f"{d} = {show(z)[:80]}")
        if is5:
            base, els = engine.items(fget(b, "properties"))
            ob("the properties are those configured", base.k == "vnew", show(base)[:80])
            have = {}
            for e in els:
                if e.k == "adt":
                    ob("each property is sent once", e.a[1] not in have, e.a[1])
                    have[e.a[1]] = e.a[3][0]
                else:
                    ob("the properties are those configured", False, show(e)[:80])
            for opt, pr in PROPS.items():
                if pr in have:
                    val, w = have.pop(pr), pay(O(opt), "Some")
                    ob(f"{opt} is sent as configured", not possible(st, ("var", O(opt), "None")) and (val is w or same(st, val, w) or mentions_any(val, lambda s: s is w)), show(val)[:80])
                else:
                    ob(f"{opt} is sent as configured", not possible(st, ("var", O(opt), "Some")), "it is left out")
            ob("the properties are those configured", not have, ", ".join(sorted(have)))

    def part(I, st):
        o = A.get("o")
        return (st.auto,) + tuple(str(st.var.get(fget(o, n))) for n in list(PROPS) + ["will"]) if o is not None else ()
    I, cl, a, st0, outs = engine.run(p, f, hooks=[(re.compile(r"MqttPacket(::| as .*>::)to_bytes$"), enc)], prep=prep, part=part, budget=2000000)
    ob.paths += len(outs)
    ob.close("the CONNECT is of the version configured", "client_id is the option", "username is the option", "password is the option", "keep_alive is the option", "clean_start is the option", "will is the option", "the properties are those configured",
             *[f"{s} is the option's" for s in ("will_retain", "will_qos", "will_topic", "will_message")], *[f"{o} is sent as configured" for o in PROPS])


def whole(y, w):
    return y is w or y.k == "adt" and all(fget(y, n) is fget(w, n) for n in y.a[2])


# ---------------------------------------------------------------- other requests
def others(c, p):
    for nm in ("auth", "subscribe", "subscribe_encoded", "disconnect", "try_disconnect"):
        f = engine.method(p, nm)
        if f is None:
            if nm in ("auth", "subscribe"):
                c.anchor(f"MqttEngine::{nm}", [])
            continue
        ob = engine.Agg(c, f"MqttEngine::{nm}", engine.where(f))
        cty = next((f.locals[i + 1] for i in range(f.nargs) if f.locals[i + 1].endswith("::SubscribeCommand")), None)
        A = {}
        pre = {}
        if cty:
            ts = next(a for a in p.adts if a.endswith("mqttv5::subscribe::TopicSubscription"))
            el = lambda k: adt(ts, "TopicSubscription", tuple(engine.fields(p, ts)), tuple(mk("in", f"topic {k}", n) for n in engine.fields(p, ts)))
            cmd = adt(cty, "SubscribeCommand", tuple(engine.fields(p, cty)), tuple(mk("vpush", mk("vpush", mk("vnew"), el(1)), el(2)) if n == "subscriptions" else mk("in", "command", n) for n in engine.fields(p, cty)))
            i = [i for i in range(f.nargs) if f.locals[i + 1] == cty][0]
            pre[i] = cmd

        def prep(I, st, a):
            A["a"] = a
            I.force_unroll = 6

        def enc(I, st, fr, name, args, t, site):
            x = unref(st, args[0])
            a = A["a"]
            if x.k == "adt" and nm == "auth":
                b = x.a[3][0]
                ob("reason and properties are those given", x.a[1] == "Auth" and is_arg(st, fget(b, "reason_code"), a[1]) and is_arg(st, fget(b, "properties"), a[2]), show(b)[:100])
            elif x.k == "adt" and "disconnect" in nm:
                b = x.a[3][0]
                ob("it is a DISCONNECT without a reason to keep the will", x.a[1] == "Disconnect3" or x.a[1] == "Disconnect5" and fget(b, "reason_code") is K(0), show(b)[:100])
            elif x.k == "adt" and x.a[1] == "Subscribe3":
                base, els = engine.items(fget(x.a[3][0], "subscriptions"))
                good = len(els) == 2 and all(is_arg(st, fget(e, "topic_filter"), mk("in", f"topic {k}", "topic_filter")) and is_arg(st, fget(e, "qos"), mk("in", f"topic {k}", "qos")) for k, e in enumerate(els, 1))
                ob("a v3 SUBSCRIBE asks for the command's topics and QoS, in order", good, show(fget(x.a[3][0], "subscriptions"))[:160])
            elif x.k == "adt" and x.a[1] == "Subscribe5":
                b = x.a[3][0]
                ob("a v5 SUBSCRIBE asks for the command's topics and options", fget(b, "subscriptions") is fget(cmd, "subscriptions"), show(fget(b, "subscriptions"))[:160])
            s2 = st.copy()
            return [(st, ok(mk("encoded", x))), (s2, err(mk("in", "too large")))]
        def collect(I, st, fr, name, args, t, site):
            v, fns = unref(st, args[0]), []
            while v.k in ("call", "pure"):
                if v.a[0].endswith("::map") and len(v.a[1]) == 2:
                    fns.append(v.a[1][1])
                    v = v.a[1][0]
                elif re.search(r"::(into_iter|iter|cloned|copied)$", v.a[0]):
                    v = unref(st, v.a[1][0])
                else:
                    return None
            if v.k == "listit":
                els = list(v.a[0])
            else:
                base, els = engine.items(v)
                if base.k != "vnew" or not els:
                    return None
            out = [(st, mk("vnew"))]
            for e in els:
                for g in fns[::-1]:
                    nxt = []
                    for s, acc in out:
                        for s2, r in I.invoke(fr, s, site, g, [e], t, 0) or []:
                            nxt.append((s2, mk("vpush", acc, r)))
                    out = nxt
            return out if len(fns) <= 1 else None

        def intoiter(I, st, fr, name, args, t, site):
            base, els = engine.items(unref(st, args[0]))
            return [(st, mk("listit", tuple(els)))] if base.k == "vnew" and els else None

        def nxt(I, st, fr, name, args, t, site):
            if args[0].k != "ref":
                return None
            v = read(st, args[0].a[0])
            if v.k != "listit":
                return None
            if not v.a[0]:
                return [(st, NONE)]
            write(st, args[0].a[0], mk("listit", v.a[0][1:]))
            return [(st, some(v.a[0][0]))]
        try:
            I, cl, a, st0, outs = engine.run(p, f, args=pre, hooks=[(re.compile(r"^<std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter$"), intoiter), (re.compile(r"Iterator(>|)::next$"), nxt), (re.compile(r"Iterator(>|)::collect$"), collect), (re.compile(r"MqttPacket(::| as .*>::)to_bytes$"), enc)], prep=prep, part=lambda I, st: (st.auto,))
        except absint.Limit as e:
            c.ob(f"MqttEngine::{nm}: followed", False, str(e), engine.where(f))
            continue
        ob.paths += len(outs)
        ob.close(*{"auth": ["reason and properties are those given"], "disconnect": ["it is a DISCONNECT without a reason to keep the will"], "try_disconnect": ["it is a DISCONNECT without a reason to keep the will"]}.get(nm, ["a v3 SUBSCRIBE asks for the command's topics and QoS, in order", "a v5 SUBSCRIBE asks for the command's topics and options"]))


# ---------------------------------------------------------------- options that nobody reads
def unread(c, p):
    if c.config != "all":
        return          # without a feature its options have no effect
    ix = effects.index(p)
    n = 0
    for a in sorted(p.adts):
        if not re.search(r"::(MqttClientOptions|TokioAsyncClientConfig|AsyncClientConfig|QuicConfig|RustlsTlsConfig|TlsConfig|QuicZeroRttConfig|PublishCommand|SubscribeCommand|UnsubscribeCommand)$", a) or not a.startswith("flowsdk::"):
            continue
        setters_ = {m.id for b, f, r in found(p) if r == a for _, m in methods(p, b)} | {f.id for b, f, r in found(p)}
        for fl in engine.fields(p, a):
            us = [u[0].id for u in ix.get((a, fl), ()) if u[1] in ("read", "move", "shared", "mut")]
            us = [x for x in us if x not in setters_ and not re.match(rf"<{re.escape(a)} as std::(fmt|clone|cmp|default|hash)::", x) and "::_::<impl" not in x and "serde::" not in x and not x.startswith("<" + a.rsplit("::", 1)[0] + "::_")]
            n += 1
            c.ob(f"{a.rsplit('::', 1)[1]}.{fl} has an effect", bool(us), "nothing reads it", "src/mqtt_client")
    c.count("options", n)
    c.ob("options found", n >= 60, f"{n}", "src/mqtt_client")
