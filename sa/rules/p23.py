"""The queue of waiting messages: highest priority first, oldest first within a priority, bounded, nothing lost."""
import engine, effects, absint, re
from engine import possible, self_field, fget, pay, same
from terms import *

RULE = ("Abstract interpretation of every method of the priority queue over an abstract ordered map (first and last entry, entry of a key, one FIFO per entry); the operations performed on each path are compared with the contract "
        "and the element counter with the elements added and removed; no other code writes the queue.")
THOROUGH_CONFIGS = ("default",)
PQ = "flowsdk::priority_queue::PriorityQueue"
G = lambda *n: (("G",) + n,)


def hooks(p, events):
    def log(st, *x):
        st.auto = (st.auto or ()) + (x,)

    def is_map(I, st, a):
        return a.k == "ref" and a.a[0][-1:] == ("f:" + events["map"],)

    def slot(I, st, args, name, t, fr):
        n = name.rsplit("::", 1)[-1]
        if n in ("last_entry", "first_entry", "last_key_value", "first_key_value", "pop_last", "pop_first"):
            if not is_map(I, st, args[0]):
                return None
            end = "last" if "last" in n else "first"
            s2 = st.copy()
            known = [x[2] for x in st.auto or () if x[0] == "any" and x[1] == end]
            out = []
            log(st, "any", end, True)
            log(s2, "any", end, False)
            key = mk("in", "key", end)
            engine.write(st, G("key", end), key) if engine.read(st, G("key", end)) is not key else None
            if n.endswith("_entry"):
                v = some(mk("occ", end))
            elif n.startswith("pop"):
                log(st, "popall", end)
                v = some(mk("tup", (key, engine.read(st, G("dq", end)))))
            else:
                v = some(mk("tup", (mk("ref", G("key", end), 0), mk("ref", G("dq", end), 0))))
            return [(st, v), (s2, NONE)]
        if n == "entry":
            if not is_map(I, st, args[0]):
                return None
            return [(st, mk("slot", args[1]))]
        return None

    def onmap(I, st, fr, name, args, t, site):
        return slot(I, st, args, name, t, fr)

    def occ(I, st, fr, name, args, t, site):
        e = I.deref_val(st, args[0])
        if e.k != "occ":
            return None
        n, end = name.rsplit("::", 1)[-1], e.a[0]
        engine.write(st, G("key", end), mk("in", "key", end))
        if n == "key":
            return [(st, mk("ref", G("key", end), 0))]
        if n in ("get_mut", "get", "into_mut"):
            return [(st, mk("ref", G("dq", end), 0 if n == "get" else 1))]
        if n in ("remove", "remove_entry"):
            log(st, "rmkey", end)
            return [(st, mk("in", "removed", end))]
        log(st, "other", n)
        return [(st, mk("call", name, (e,), site))]

    def ent(I, st, fr, name, args, t, site):
        e = I.deref_val(st, args[0])
        if e.k != "slot":
            return None
        log(st, "slot", e.a[0])
        return [(st, mk("ref", G("dq", "at"), 1))]

    def dq(I, st, fr, name, args, t, site):
        if args[0].k != "ref" or args[0].a[0][0][:2] != ("G", "dq"):
            return None
        n, end = name.rsplit("::", 1)[-1], args[0].a[0][0][2]
        if n == "push_back":
            log(st, "push", end, args[1])
            return [(st, UNIT)]
        if n in ("pop_front", "front"):
            s2 = st.copy()
            x = mk("in", "front", end)
            log(st, n, end, True)
            log(s2, n, end, False)
            if n == "front":
                engine.write(st, G("front", end), x)
                x = mk("ref", G("front", end), 0)
            return [(st, some(x)), (s2, NONE)]
        if n == "is_empty":
            s2 = st.copy()
            log(st, "empty", end, True)
            log(s2, "empty", end, False)
            return [(st, K(1)), (s2, K(0))]
        if n == "len":
            v = mk("in", "len", end, len(st.auto or ()))
            log(st, "len", end, v)
            return [(st, absint.ranged(v, 0, None))]
        log(st, "other", n)
        return [(st, mk("call", name, (args[0],), site))]
    return [(re.compile(r"BTreeMap::<K, V.*>::(\w+)$"), onmap), (re.compile(r"OccupiedEntry::<.*>::(\w+)$"), occ), (re.compile(r"btree_map::Entry::<.*>::(or_default|or_insert_with|or_insert)$"), ent),
            (re.compile(r"VecDeque::<T, A>::(\w+)$"), dq)]


def plain(t):
    while t.k == "call" and t.a[0].endswith("clone"):
        t = t.a[1][0]
    return t


def run(c):
    p = c.prog()
    fs = {n: t for n, t, *_ in p.adts[PQ]["vs"][0]["fs"]} if PQ in p.adts else {}
    ev = {"map": next((n for n, t in fs.items() if "BTreeMap" in t), None)}
    us = [n for n, t in fs.items() if t == "usize"]
    ms = {i.rsplit("::", 1)[-1]: f for i, f in p.fns.items() if i.startswith(PQ + "::<P, T>::") and "{" not in i.rsplit("::", 1)[-1]}
    if not (c.anchor("priority queue over an ordered map", [ev["map"]] if ev["map"] else []) and c.anchor("methods of the queue", [x for x in ("new", "enqueue", "dequeue", "peek", "len", "is_empty", "clear") if x in ms], 7)):
        return
    # which counter is which: the constructor stores its argument as the capacity
    I, cl, a, st0, outs = engine.run(p, ms["new"])
    cap = [n for n in us for s, r in outs if fget(r, n) is a[0]]
    size = [n for n in us if n not in cap]
    if not (c.anchor("capacity of the queue", cap if len(cap) == 1 else []) and c.anchor("element counter of the queue", size if len(size) == 1 else [])):
        return
    cap, size = cap[0], size[0]
    ob = engine.Agg(c, "new", engine.where(ms["new"]))
    for s, r in outs:
        ob.paths += 1
        ob("a new queue is empty", same(s, fget(r, size), K(0)) and fget(r, ev["map"]).k in ("vnew", "call", "adt"), show(r)[:100])
    ob.close("a new queue is empty")
    for n in (ev["map"], size, cap):
        for f, k, ln, rest in effects.users(p, PQ, n, ("write", "mut", "move")):
            c.ob(f"only the queue writes its {n if n != ev['map'] else 'map'}: {f.id.rsplit('::', 1)[-1]}", f.id.startswith(PQ + "::<P, T>::") or "_::" in f.id, f.id, f"{f.file}:{ln}")
            c.ob(f"the capacity is fixed", n != cap, f"{f.id} changes it", f"{f.file}:{ln}") if n == cap else None
    H = hooks(p, ev)

    def go(name):
        f = ms[name]
        ob = engine.Agg(c, name, engine.where(f))

        def prep(I, st, a):
            for e in ("last", "first"):
                engine.write(st, G("key", e), mk("in", "key", e))
                engine.write(st, G("front", e), mk("in", "front", e))
            for e in ("last", "first", "at"):
                engine.write(st, G("dq", e), mk("in", "dq", e))
        I, cl, a, st0, outs = engine.run(p, f, hooks=H, prep=prep, part=lambda I, st: (st.auto,) + engine.by_input(I, st))
        return f, ob, a, st0, outs
    tr = lambda s, k: [x for x in s.auto or () if x[0] == k]

    def taken(ob, s, end, popped):
        """one element popped from the end; its entry goes exactly when it is empty"""
        pops = tr(s, "pop_front")
        ok = len(pops) == 1 and pops[0][1:] == (end, True) if popped else not [x for x in pops if x[2]]
        ob("exactly one element is taken" if popped else "nothing is taken", ok and not tr(s, "popall") and not tr(s, "other"), str(s.auto)[:160])
        if popped and ok:
            after = (s.auto or ())[(s.auto or ()).index(pops[0]) + 1:]
            e = [x for x in after if x[0] == "empty" and x[1] == end]
            ls = [x for x in after if x[0] == "len" and x[1] == end]
            if e:
                emp = e[-1][2]
            elif ls:
                emp = None if possible(s, ("eq", ls[-1][2], 0)) and possible(s, ("ne", ls[-1][2], 0)) else possible(s, ("eq", ls[-1][2], 0))
            else:
                emp = None
            rm = [x for x in tr(s, "rmkey")]
            ob("an entry is removed exactly when its last element is taken", emp is not None and (len(rm) == 1 and rm[0][1] == end) == emp, "kept although empty" if emp else "removed although elements remain" if emp is False else "removed or kept without looking")

    f, ob, a, st0, outs = go("dequeue")
    for s, r in outs:
        ob.paths += 1
        n0, n1 = self_field(st0, a, size), self_field(s, a, size)
        if r is NONE or r.k == "adt" and r.a[1] == "None":
            reason = not possible(s, ("ne", n0, 0)) or any(not x[2] for x in tr(s, "any") + tr(s, "pop_front"))
            ob("nothing is returned only by an empty queue", reason, str(s.auto)[:100])
            ob("an empty queue stays as it is", same(s, n0, n1) and not tr(s, "rmkey") and not [x for x in tr(s, "pop_front") if x[2]], show(n1)[:60])
            continue
        x = pay(r, "Some")
        ob("the element is the oldest of the highest priority", same(s, fget(x, "1"), mk("in", "front", "last")), show(fget(x, "1"))[:80])
        ob("its priority is returned", same(s, plain(fget(x, "0")), mk("in", "key", "last")), show(fget(x, "0"))[:80])
        taken(ob, s, "last", True)
        ob("the counter goes down by one", same(s, n1, ladd(n0, K(-1))), show(n1)[:60])
    ob.close("the element is the oldest of the highest priority", "its priority is returned", "the counter goes down by one", "an entry is removed exactly when its last element is taken")

    f, ob, a, st0, outs = go("peek")
    for s, r in outs:
        ob.paths += 1
        if r is NONE or r.k == "adt" and r.a[1] == "None":
            ob("nothing is shown only by an empty queue", any(not x[2] for x in tr(s, "any") + tr(s, "front")), str(s.auto)[:100])
            continue
        x = pay(r, "Some")
        v = [engine.read(s, y.a[0]) if y.k == "ref" else y for y in (fget(x, "0"), fget(x, "1"))]
        ob("it shows what would be taken next", v[0] is mk("in", "key", "last") and v[1] is mk("in", "front", "last"), f"{show(v[0])[:60]}, {show(v[1])[:60]}")
    ob.close("it shows what would be taken next")

    f, ob, a, st0, outs = go("enqueue")
    for s, r in outs:
        ob.paths += 1
        n0, n1, m = self_field(st0, a, size), self_field(s, a, size), self_field(st0, a, cap)
        pu, sl = tr(s, "push"), tr(s, "slot")
        ob("the element is added last in the queue of its priority", len(pu) == 1 and pu[0][1] == "at" and pu[0][2] is a[2] and len(sl) == 1 and sl[0][1] is a[1], str(pu)[:100])
        over = ("if", ge0(lsub(n0, m)), True)
        fits = ("if", ge0(lsub(n0, m)), False)
        if any(not x[2] for x in tr(s, "any") + tr(s, "pop_front")):
            continue    # no entry to take from, although one was just added: not possible
        if [x for x in tr(s, "pop_front") if x[2]] or tr(s, "popall") or tr(s, "rmkey"):
            ob("an element is given up only when the queue is full", not possible(s, fits), "given up with room left")
            taken(ob, s, "first", True)
            ob("the counter counts", same(s, n1, n0), show(n1)[:60])
            if f.locals[0].startswith("std::option::Option"):
                ob("the element given up is returned", same(s, r, some(mk("in", "front", "first"))), show(r)[:80])
        else:
            ob("a full queue gives up one element of the lowest priority", not possible(s, over), "grows beyond its capacity")
            ob("the counter counts", same(s, n1, ladd(n0, K(1))), show(n1)[:60])
            if f.locals[0].startswith("std::option::Option"):
                ob("nothing is returned when nothing is given up", same(s, r, NONE), show(r)[:80])
    ob.close("the element is added last in the queue of its priority", "a full queue gives up one element of the lowest priority", "an element is given up only when the queue is full", "the counter counts")

    for name in ("len", "is_empty", "clear"):
        f, ob, a, st0, outs = go(name)
        for s, r in outs:
            ob.paths += 1
            n0, n1 = self_field(st0, a, size), self_field(s, a, size)
            if name == "len":
                ob("it is the number of elements", same(s, r, n0), show(r)[:60])
            elif name == "is_empty":
                ob("it is true exactly when there are no elements", not possible(s, ("eq", n0, 0), ("if", r, False)) and not possible(s, ("ne", n0, 0), ("if", r, True)), show(r)[:60])
            else:
                ob("nothing remains", same(s, n1, K(0)) and self_field(s, a, ev["map"]).k in ("vnew",), show(self_field(s, a, ev["map"]))[:60])
        ob.close()
    for n, f in sorted(ms.items()):
        if n not in ("new", "enqueue", "dequeue", "peek", "len", "is_empty", "clear") and f.nargs and f.locals[1].startswith("&mut "):
            cs = [g.id for g, ln in effects.callers(p, f.id)]
            c.ob(f"other mutating methods are internal: {n}", bool(cs) and all(x.startswith(PQ) for x in cs), "not analysed on its own", engine.where(f))
