"""Packet identifiers the client allocates are non-zero and not in use."""
import engine, effects, absint, re
from engine import possible, self_field, fget, pay, same
from terms import *

RULE = ("Abstract interpretation of the identifier allocation: every identifier returned is non-zero, the counter steps through all of them before one comes again, and the engine returns one only after finding it neither among the unacknowledged "
        "nor among the waiting packets. Who-may-call analysis: requests take their identifier from there or from the caller.")
THOROUGH_CONFIGS = ("default",)
SES = "flowsdk::mqtt_session::client_session::ClientSession"


def run(c):
    p = c.prog()
    R = engine.roles(p)
    if not engine.need(c, R, "inflight", "entries", "prio"):
        return
    counter(c, p)
    allocate(c, p, R)
    users(c, p)


def counter(c, p):
    f = p.fns.get(SES + "::next_packet_id")
    if not c.anchor("identifier counter", [f] if f else []):
        return
    ob = engine.Agg(c, "counter", engine.where(f))
    fs = [n for n, t in engine.fields(p, SES).items() if t == "u16"]
    if not c.anchor("state of the counter", fs if len(fs) == 1 else []):
        return
    n = fs[0]
    I, cl, a, st0, outs = engine.run(p, f)
    for s, r in outs:
        ob.paths += 1
        n0, n1 = self_field(st0, a, n), self_field(s, a, n)
        ob("an identifier is never zero", not possible(s, ("eq", r, 0)), show(r)[:80])
        ob("the counter remembers the identifier it gave", same(s, n1, r), show(n1)[:80])
        if possible(s, ("eq", n0, 65535)):
            ob("after the last identifier comes the first", not possible(s, ("eq", n0, 65535), ("ne", r, 1)), show(r)[:80])
        mid = ("if", ge0(lsub(K(65534), n0)), True)
        if possible(s, mid):
            ob("otherwise the next one", not possible(s, mid, ("if", eq0(lsub(r, ladd(n0, K(1)))), False)), show(r)[:80])
    ob.close("an identifier is never zero", "the counter remembers the identifier it gave", "after the last identifier comes the first", "otherwise the next one")
    for g, k, ln, rest in effects.users(p, SES, n, ("write", "mut")):
        c.ob(f"only allocation moves the counter: {g.id.rsplit('::', 1)[-1]}", g.id == f.id, g.id, f"{g.file}:{ln}")


def allocate(c, p, R):
    f = engine.method(p, "next_packet_id")
    if not c.anchor("identifier allocation of the engine", [f] if f else []):
        return
    ob = engine.Agg(c, "allocation", engine.where(f))
    ID = absint.ranged(mk("in", "id"), 1, 65535)
    calls = []

    def nxt(I, st, fr, name, args, t, site):
        calls.append(site)
        st.auto = ()
        return [(st, ID)]
    tests = {}

    def look(I, st, fr, name, args, t, site):
        """a membership test: both outcomes, remembered"""
        src = [I.deref_val(st, x) for x in args]
        ts = [y for x in src for y in fl.terms(x)]
        which = None
        for role in ("entries", "prio"):
            if any(y.k == "ld" and "f:" + R[role] in y.a[1] for y in ts):
                which = role
        if which is None:
            return None
        n = name.rsplit("::", 1)[-1]
        cl = [x for x in src if x.k == "clos"]
        about = any(same(st, x, ID) for x in src) or any(absint.read(st, y.a[0]) is ID if y.k == "ref" else y is ID for x in cl for y in x.a[1]) or any(ID in subterms(I.deref_val(st, y)) for x in cl for y in x.a[1])
        if not about:
            return None
        neg = n == "all"
        s2 = st.copy()
        if which == "prio":
            for v in [x["n"] for x in p.adts[engine.PKT]["vs"] if x["n"].startswith("Publish")]:
                pk = engine.packet(p, v)
                at = (("G", "waiting", v),)
                s3 = st.copy()
                engine.write(s3, at, pk)
                engine.write(s3, at + ("v:" + v, "f:0", "f:" + engine.pid_field(p, v)), some(ID))
                rs = I.invoke(fr, s3, site, args[1], [mk("ref", at, 0)], t, 0) if len(args) > 1 else []
                for s4, r in rs:
                    ob(f"a waiting {v} with the identifier is recognised", not possible(s4, ("if", r, neg)), show(r)[:80])
                if not rs:
                    ob(f"a waiting {v} with the identifier is recognised", False, "no test")
        tests.setdefault(which, []).append((name, cl))
        st.auto = tuple(sorted(set(st.auto or ()) | {(which, "used")}))
        s2.auto = tuple(sorted(set(s2.auto or ()) | {(which, "free")}))
        return [(st, K(0 if neg else 1)), (s2, K(1 if neg else 0))]
    cf = SES + "::next_packet_id"
    look_rx = re.compile(r"(HashMap::<K, V.*>::contains_key|Iterator>?::(any|all))$")
    with engine.Flow() as fl:
        I, cl, a, st0, outs = engine.run(p, f, hooks=[(re.compile("^" + re.escape(cf) + "$"), nxt), (look_rx, look)], part=lambda I, st: engine.by_input(I, st))
    for s, r in outs:
        ob.paths += 1
        if r.k != "adt" or r.a[1] != "Ok":
            continue
        ob("the identifier comes from the counter", r.a[3][0] is ID, show(r)[:80])
        last = s.auto or ()
        ob("it is not the identifier of an unacknowledged packet", ("entries", "free") in last and ("entries", "used") not in last, "returned without looking or although it is in use")
        ob("it is not the identifier of a waiting packet", ("prio", "free") in last and ("prio", "used") not in last, "returned without looking or although it is in use")
    ob.close("the identifier comes from the counter", "it is not the identifier of an unacknowledged packet", "it is not the identifier of a waiting packet", "a waiting Publish5 with the identifier is recognised", "a waiting Publish3 with the identifier is recognised")
    # the test on waiting packets recognises every PUBLISH carrying the identifier
    preds = {x.id: x for n, cs in tests.get("prio", ()) for x in cs}
    c.anchor("test on waiting packets", preds)


def users(c, p):
    """requests take their identifier from the allocation, or from the caller"""
    f = engine.method(p, "next_packet_id")
    ID = absint.ranged(mk("in", "id"), 1, 65535)

    def nxt(I, st, fr, name, args, t, site):
        s2 = st.copy()
        return [(st, ok(ID)), (s2, err(mk("in", "exhausted")))]
    hs = [engine.ENC, (re.compile("^" + re.escape(f.id) + "$"), nxt)] + engine.pq_hooks(p)
    mv = engine.mover(p)
    hs += [engine.stub(mv)] if mv else []
    n = 0
    cs = sorted({g.id for g, ln in effects.callers(p, f.id)})
    for i in cs:
        g = p.fns[i]
        if not i.startswith(engine.ENG + "::"):
            continue
        n += 1
        ob = engine.Agg(c, i.rsplit("::", 1)[-1], engine.where(g))
        with engine.Flow() as fl:
            I, cl, a, st0, outs = engine.run(p, g, hooks=hs)
            for s, r in outs:
                ob.paths += 1
                if r.k != "adt" or r.a[1] != "Ok":
                    continue
                v = r.a[3][0]
                v = v.a[0][0] if v.k == "tup" else v
                if v is NONE or not possible(s, ("var", v, "Some")) and v.k != "adt" and g.locals[0].startswith("std::result::Result<std::option::Option"):
                    continue
                v = v.a[3][0] if v.k == "adt" and v.a[1] == "Some" else v
                own = [pay(fget(x, "packet_id"), "Some") for x in a[1:]]
                ob("the identifier given to the caller is an allocated one or the caller's own", all(x is ID or any(x is y for y in own) or x is NONE or x.k == "adt" and x.a[1] == "Some" and (x.a[3][0] is ID or x.a[3][0] in own) or x in [fget(y, "packet_id") for y in a[1:]] for x in fl.leaves(v)), show(v)[:100])
        ob.close("the identifier given to the caller is an allocated one or the caller's own")
    c.anchor("requests that allocate an identifier", range(n), 6)
