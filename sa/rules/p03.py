"""A frame that has not fully arrived is "need more", a frame that has is not."""
import os, re, time
import absint, frames, panics
from absint import prove
from frames import limits
from terms import *
from rules.p01 import parsers, version_known
from rules.p02 import decoders, is_top

RULE = ("Abstract interpretation of every frame decoder and of the incremental parser's polling methods with an arbitrary buffer.  On each path: an error is returned only "
        "if the frame is provably complete, or its length field malformed, or the path puts no upper bound on the amount of data (more data cannot change it), or - for plain "
        "decoders - the error kind says that more bytes are needed; 'need more' is returned only when the frame is provably incomplete.")
THOROUGH_CONFIGS = ("default", "lax")
PASSES = ((12, 40, 24, 8), (40, 200, 200, 40))


def classify(r):
    if r.k != "adt" or r.a[1] not in ("Ok", "Err") or not r.a[3] or r.a[3][0].k != "adt":
        return None, None
    return r.a[1], r.a[3][0]


def run(c):
    p = c.prog()
    oc = frames.outcome_types(p)
    ds = [(f, o) for f, o in decoders(p) if is_top(f)]
    own = parsers(p)
    polls = [f for f in p.fns.values() if f.nargs == 1 and f.locals[1].startswith("&mut ") and f.locals[1][5:] in own
             and re.match(r"std::result::Result<std::option::Option<flowsdk::mqtt_serde::", f.locals[0])]
    rds = frames.readers(p)
    if not (c.anchor("frame decoders", ds, 30) & c.anchor("polling methods of the incremental parser", polls, 2) & c.anchor("length-field reader", rds)):
        return
    prep0 = version_known(p, own)
    res, info, cnt = {}, {}, {}
    absint.SUM_LIMIT.update({i: 8 for i in panics.int_readers(p)})
    absint.SUM_LIMIT.update({f.id: 3 for f in p.fns.values() if f.nargs == 1 and f.locals[1] == "u8"})
    absint.PARTITION[0] = frames.partition(rds)
    for lim in PASSES:
        reset()
        with limits(*lim):
            ps = panics.Pass(p)
            for f, o in [(f, o) for f, o in ds] + [(f, None) for f in polls]:
                if f.id in res and all(res[f.id].values()):
                    continue
                base, t0 = [], time.time()
                if o is None:
                    reset()
                    ps = panics.Pass(p)

                def prep(I, st, args):
                    if o is None:
                        pre = prep0(f)
                        if pre:
                            pre(I, st, args)
                        q = [n for n, t, *_ in p.adts[f.locals[1][5:]]["vs"][0]["fs"] if "BytesMut" in t][0]
                        base.append(absint.read(st, args[0].a[0] + ("f:" + q,)))
                    else:
                        base.append(frames.base_of(I, st, args, f))
                try:
                    _, outs = ps.run(f, prep)
                except absint.Limit:
                    continue
                b = base[0]
                L = frames.base_len(b)
                got, cn = {}, {}
                for s, r in outs:
                    side, v = classify(r)
                    if side is None:
                        key, good = "outcome recognised", False
                    elif side == "Err":
                        kind = v.a[1]
                        key = f"error {kind} is final"
                        good = any(frames.complete(ps.last, rd, b, s) for rd in rds)
                        if not good:
                            good = kind in frames.SHORT if o is not None else False
                        if not good and kind not in frames.SHORT:
                            good = not frames.bounded_above(s, L)
                    elif o is None and v.a[1] == "None" or o is not None and v.a[1] == o[1]:
                        key = "need-more only when incomplete"
                        good = any(frames.incomplete(ps.last, rd, b, s) for rd in rds)
                        if o is not None:
                            hint = v.a[3][0]
                            k2 = "the shortage reported is positive and not too large"
                            h = prove(s, ladd(hint, K(-1)))
                            if h and not prove(s, ladd(K(1), hint, -1)):
                                ins = [frames.vbi_instances(ps.last, rd, b, s) for rd in rds]
                                h = any(i is not None and all(k != "ok" or prove(s2, lsub(lsub(E, L), hint)) for s2, k, E in i) for i in ins)
                            got[k2] = got.get(k2, True) and h
                    else:
                        key, good = "packet only when complete", any(frames.complete(ps.last, rd, b, s) for rd in rds)
                        if v.a[1] in ("TopicName",):
                            continue
                    cn[key] = cn.get(key, 0) + 1
                    got[key] = got.get(key, True) and good
                    if not good:
                        info[(f.id, key)] = show(r)[:200]
                cnt[f.id] = sum(cn.values())
                if os.environ.get("SA_DEBUG"):
                    print(f.id, lim, [k for k in got if not got[k]], round(time.time() - t0, 1))
                # an outcome must be right, or not exist, according to one of the (sound) passes
                old = res.get(f.id)
                res[f.id] = dict(got) if old is None else {k: old.get(k, True) or got.get(k, True) for k in set(old) | set(got)}
    for f in [f for f, _ in ds] + polls:
        if f.id not in res:
            c.ob(f"{f.id} analysable", False, "the analysis gave up", f.file)
            continue
        for k, v in res[f.id].items():
            c.ob(f"{f.id}: {k}", v, f"violated by an outcome such as {info.get((f.id, k), '')}" if not v else "holds on every path", f"{f.file}:{f.line}")
    c.count("outcomes (path classes) checked", sum(cnt.values()))
    c.ob("outcomes found", sum(cnt.values()) >= 200, f"{sum(cnt.values())} path classes")
