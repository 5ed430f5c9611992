"""Async functions: an await is the completion of its future (a future that stays pending is not a step)."""
import re
from absint import read
from terms import *


def hooks(done=None):
    """done(I, st, fut, ty, t, site) -> [(st, value)] or None: what a future completes with"""
    def same(I, st, fr, name, args, t, site):
        return [(st, args[0])]

    def pin(I, st, fr, name, args, t, site):
        return [(st, args[0])]

    def ctx(I, st, fr, name, args, t, site):
        return [(st, mk("in", "task context"))]

    def poll(I, st, fr, name, args, t, site):
        fut = args[0]
        for _ in range(4):
            if fut.k != "ref":
                break
            fut = read(st, fut.a[0])
        ty = fr.fn.locals[t["d"][0]]
        inner = ty[len("std::task::Poll<"):-1] if ty.startswith("std::task::Poll<") else ""
        r = done(I, st, fut, inner, t, site) if done else None
        if r is None and fut.k == "clos":
            # an async function of the crate
            r = I.invoke(fr, st, site, fut, [mk("in", "task context")], t, 0)
            if r is not None:
                return [(s, v if v.k == "adt" and v.a[0] == "std::task::Poll" else mk("adt", "std::task::Poll", "Ready", ("0",), (v,))) for s, v in r]
        if r is None:
            r = [(st, mk("done", fut))]
        return [(s, mk("adt", "std::task::Poll", "Ready", ("0",), (v,))) for s, v in r]
    return [(re.compile(r"(std::future::IntoFuture|as std::future::IntoFuture>)::into_future$"), same), (re.compile(r"std::pin::Pin::<Ptr>::(new_unchecked|as_mut)$"), pin),
            (re.compile(r"std::future::get_context$"), ctx), (re.compile(r"(std::future::Future|as std::future::Future>)::poll$"), poll)]


def body(p, fid):
    """the coroutine of an async function"""
    return p.fns.get(fid + "::{closure#0}")
