"""Models of library calls used by the abstract interpreter."""
import re
from terms import *
import absint as A

TABLE = {}
RX = []


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def lookup(name, orig):
    m = TABLE.get(name) or TABLE.get(orig)
    if m:
        return m
    for rx, f in RX:
        if rx.search(name):
            TABLE[name] = f
            return f
    return None


def rx(p):
    def deco(f):
        RX.append((re.compile(p), f))
        return f
    return deco


def dv(I, st, t):
    return I.deref_val(st, t)


# ------------------------------------------------ variants
def split(I, st, t, adtname, variants):
    """[(state, variant, payload)] for the feasible variants of t; variants: {name: arity}"""
    if t.k == "adt":
        return [(st, t.a[1], t.a[3][0] if t.a[3] else None)]
    out = []
    names = list(variants)
    for n in names:
        s = st.copy()
        if not A.set_var(s, t, n):
            continue
        pay = A.project(A.project(t, "v:" + n), "f:0") if variants[n] else None
        out.append((s, n, pay))
    return out


OPT = {"Some": 1, "None": 0}
RES = {"Ok": 1, "Err": 1}


def sopt(I, st, t):
    return split(I, st, t, "Option", OPT)


def sres(I, st, t):
    return split(I, st, t, "Result", RES)


def isv(t, v):
    if t.k == "adt":
        return TRUE if t.a[1] == v else FALSE
    return mk("isv", t, v)


@model("std::option::Option::<T>::is_some", "std::option::Option::<T>::is_none", "std::result::Result::<T, E>::is_ok", "std::result::Result::<T, E>::is_err")
def m_is(I, st, fr, args, t, site, f, bb):
    n = f["o"].rsplit("::", 1)[-1]
    v = dv(I, st, args[0])
    want = {"is_some": "Some", "is_none": "Some", "is_ok": "Ok", "is_err": "Ok"}[n]
    neg = n in ("is_none", "is_err")
    out = []
    for s, var, _ in (sopt if want == "Some" else sres)(I, st, v):
        out.append((s, TRUE if (var == want) != neg else FALSE))
    return out


@model("std::option::Option::<T>::is_some_and", "std::option::Option::<T>::is_none_or", "std::result::Result::<T, E>::is_ok_and")
def m_is_some_and(I, st, fr, args, t, site, f, bb):
    n = f["o"].rsplit("::", 1)[-1]
    out = []
    for s, var, pay in (sres if n == "is_ok_and" else sopt)(I, st, dv(I, st, args[0])):
        if var in ("Some", "Ok"):
            out += I.invoke(fr, s, site, args[1], [pay], t, bb)
        else:
            out.append((s, TRUE if n == "is_none_or" else FALSE))
    return out


@model("<std::result::Result<T, E> as std::ops::Try>::branch", "<std::option::Option<T> as std::ops::Try>::branch")
def m_branch(I, st, fr, args, t, site, f, bb):
    CF = "std::ops::ControlFlow"
    out = []
    if "option" in f["f"].split(" as ")[0]:
        for s, v, p in sopt(I, st, args[0]):
            out.append((s, adt(CF, "Continue", ("0",), (p,)) if v == "Some" else adt(CF, "Break", ("0",), (NONE,))))
    else:
        for s, v, p in sres(I, st, args[0]):
            out.append((s, adt(CF, "Continue", ("0",), (p,)) if v == "Ok" else adt(CF, "Break", ("0",), (err(p),))))
    return out


@rx(r"as std::ops::FromResidual<.*>::from_residual$")
def m_from_residual(I, st, fr, args, t, site, f, bb):
    r = args[0]
    if "std::option::Option<T> as" in f["f"]:
        return [(st, NONE)]
    out = []
    for s, v, p in (sres(I, st, r) if r.k != "adt" or r.a[0].endswith("Result") else sopt(I, st, r)):
        if v == "Err":
            out += convert_err(I, s, fr, p, t, site, f, bb)
    return out


def convert_err(I, st, fr, p, t, site, f, bb):
    # target error type: generic args of the impl
    g = f["g"]
    # Result<T, F> from Result<!, E>: From<E> for F
    if len(g) >= 3 or (len(g) == 2 and "Result" in g[0]):
        pass
    dst = fr.fn.locals[t["d"][0]] if len(t["d"]) == 1 else ""
    m = re.match(r"std::result::Result<(.*)>$", dst)
    src = g[1] if len(g) == 2 else ""
    F = A.split_tuple(m.group(1))[-1] if m else None
    E = None
    m2 = re.match(r"std::result::Result<!, (.*)>$", src)
    if m2:
        E = m2.group(1)
    elif len(g) == 3:
        E = g[1]
        F = g[2]
    if F and E and F != E:
        it = f"<{F} as std::convert::From<{E}>>::from"
        fn = I.p.fns.get(it)
        if fn and I.inline(it):
            return [(s, err(r)) for s, r in I.call_fn(fn, [p], st, mk("conv", site))]
        return [(st, err(mk("into", p, F)))]
    return [(st, err(p))]


@model("std::option::Option::<T>::ok_or", "std::option::Option::<T>::ok_or_else")
def m_ok_or(I, st, fr, args, t, site, f, bb):
    out = []
    for s, v, p in sopt(I, st, args[0]):
        if v == "Some":
            out.append((s, ok(p)))
        elif f["o"].endswith("ok_or"):
            out.append((s, err(args[1])))
        else:
            out += [(s2, err(r)) for s2, r in I.invoke(fr, s, site, args[1], [], t, bb)]
    return out


@model("std::result::Result::<T, E>::map_err")
def m_map_err(I, st, fr, args, t, site, f, bb):
    out = []
    for s, v, p in sres(I, st, args[0]):
        if v == "Ok":
            out.append((s, ok(p)))
        else:
            out += [(s2, err(r)) for s2, r in I.invoke(fr, s, site, args[1], [p], t, bb)]
    return out


@model("std::result::Result::<T, E>::map", "std::result::Result::<T, E>::and_then")
def m_rmap(I, st, fr, args, t, site, f, bb):
    out = []
    for s, v, p in sres(I, st, args[0]):
        if v == "Ok":
            for s2, r in I.invoke(fr, s, site, args[1], [p], t, bb):
                out.append((s2, ok(r) if f["o"].endswith("::map") else r))
        else:
            out.append((s, err(p)))
    return out


@model("std::option::Option::<T>::map", "std::option::Option::<T>::and_then", "std::option::Option::<T>::filter", "std::option::Option::<T>::inspect")
def m_omap(I, st, fr, args, t, site, f, bb):
    out = []
    n = f["o"].rsplit("::", 1)[-1]
    for s, v, p in sopt(I, st, args[0]):
        if v == "None":
            out.append((s, NONE))
            continue
        if n == "filter":
            root = ("B", site, "flt")
            s.mem[root] = {(): p}
            for s2, r in I.invoke(fr, s, site, args[1], [mk("ref", (root,), 0)], t, bb):
                a = s2.copy()
                if A.assume(a, r, True):
                    out.append((a, some(p)))
                if A.assume(s2, r, False):
                    out.append((s2, NONE))
            continue
        for s2, r in I.invoke(fr, s, site, args[1], [p], t, bb):
            out.append((s2, some(r) if n == "map" else r))
    return out


@model("std::option::Option::<T>::map_or", "std::option::Option::<T>::map_or_else", "std::result::Result::<T, E>::map_or")
def m_map_or(I, st, fr, args, t, site, f, bb):
    out = []
    n = f["o"].rsplit("::", 1)[-1]
    for s, v, p in (sres if "Result" in f["o"] else sopt)(I, st, args[0]):
        if v in ("Some", "Ok"):
            out += I.invoke(fr, s, site, args[2], [p], t, bb)
        elif n == "map_or":
            out.append((s, args[1]))
        else:
            out += I.invoke(fr, s, site, args[1], [], t, bb)
    return out


@model("std::option::Option::<T>::unwrap_or", "std::result::Result::<T, E>::unwrap_or", "std::option::Option::<T>::unwrap_or_else", "std::result::Result::<T, E>::unwrap_or_else",
       "std::option::Option::<T>::unwrap_or_default", "std::result::Result::<T, E>::unwrap_or_default", "std::option::Option::<T>::or", "std::option::Option::<T>::or_else")
def m_unwrap_or(I, st, fr, args, t, site, f, bb):
    out = []
    n = f["o"].rsplit("::", 1)[-1]
    isr = "result::Result" in f["o"]
    for s, v, p in (sres if isr else sopt)(I, st, args[0]):
        if v in ("Some", "Ok"):
            out.append((s, args[0] if n in ("or", "or_else") and False else (some(p) if n in ("or", "or_else") else p)))
        elif n in ("unwrap_or", "or"):
            out.append((s, args[1]))
        elif n in ("unwrap_or_else", "or_else"):
            out += I.invoke(fr, s, site, args[1], [p] if isr else [], t, bb)
        else:
            ty = fr.fn.locals[t["d"][0]] if len(t["d"]) == 1 else ""
            out.append((s, default_of(ty, site)))
    return out


def default_of(ty, site):
    if ty in INTS:
        return K(0)
    if ty.startswith("std::option::Option"):
        return NONE
    if ty.startswith("std::vec::Vec") or ty == "std::string::String":
        return mk("vnew")
    return mk("default", ty)


@model("std::option::Option::<T>::unwrap", "std::option::Option::<T>::expect", "std::result::Result::<T, E>::unwrap", "std::result::Result::<T, E>::expect",
       "std::result::Result::<T, E>::unwrap_err", "std::result::Result::<T, E>::expect_err")
def m_unwrap(I, st, fr, args, t, site, f, bb):
    isr = "result::Result" in f["o"]
    want = "Err" if f["o"].endswith("_err") else "Ok" if isr else "Some"
    out = []
    bad = False
    for s, v, p in (sres if isr else sopt)(I, st, args[0]):
        if v == want:
            out.append((s, p))
        else:
            bad = True
    if not I.quiet and hasattr(I.cl, "on_panic_site"):
        I.cl.on_panic_site(I, st, fr, bb, f["o"].split("::")[-1] + ":" + ("Result" if isr else "Option"), not bad, t["ln"])
    return out


@model("std::result::Result::<T, E>::ok", "std::result::Result::<T, E>::err")
def m_ok(I, st, fr, args, t, site, f, bb):
    w = "Ok" if f["o"].endswith("::ok") else "Err"
    return [(s, some(p) if v == w else NONE) for s, v, p in sres(I, st, args[0])]


@model("std::option::Option::<T>::as_ref", "std::option::Option::<T>::as_mut", "std::option::Option::<T>::as_deref", "std::option::Option::<T>::as_deref_mut", "std::result::Result::<T, E>::as_ref", "std::result::Result::<T, E>::as_mut")
def m_as_ref(I, st, fr, args, t, site, f, bb):
    isr = "result::Result" in f["o"]
    mut = 1 if "mut" in f["o"].rsplit("::", 1)[-1] else 0
    a = args[0]
    v0 = dv(I, st, a)
    out = []
    for s, v, p in (sres if isr else sopt)(I, st, v0):
        if v == "None":
            out.append((s, NONE))
            continue
        if a.k == "ref":
            base = a.a[0]
            cur = I_read(s, a)
            # follow to the place that holds the Option
            pth = base
            while A.read(s, pth).k == "ref":
                pth = A.read(s, pth).a[0]
            r = mk("ref", pth + ("v:" + v, "f:0"), mut)
        else:
            r = mk("refv", p)
        w = some(r) if not isr else (ok(r) if v == "Ok" else err(r))
        if "as_deref" in f["o"]:
            pv = dv(I, s, r)
            if pv.k == "ref" or pv.k == "sl":
                w = some(pv)
        out.append((s, w))
    return out


def I_read(st, a):
    return A.read(st, a.a[0])


@model("std::option::Option::<T>::take", "std::mem::take", "std::option::Option::<T>::replace", "std::mem::replace", "std::option::Option::<T>::insert")
def m_take(I, st, fr, args, t, site, f, bb):
    a = args[0]
    if a.k != "ref":
        return None
    old = A.read(st, a.a[0])
    n = f["o"]
    if n == "std::mem::take":
        g = f["g"][0]
        new = default_of(g, site)
    elif n.endswith("Option::<T>::take"):
        new = NONE
    elif n.endswith("Option::<T>::replace") or n.endswith("insert"):
        new = some(args[1])
    else:
        new = args[1]
    if hasattr(I.cl, "on_write"):
        I.cl.on_write(I, st, fr, a.a[0], new, t["ln"], None)
    A.write(st, a.a[0], new)
    if n.endswith("insert"):
        return [(st, mk("ref", a.a[0] + ("v:Some", "f:0"), 1))]
    return [(st, old)]


@model("std::option::Option::<&T>::cloned", "std::option::Option::<&T>::copied", "std::option::Option::<&mut T>::copied", "std::option::Option::<&mut T>::cloned")
def m_cloned(I, st, fr, args, t, site, f, bb):
    return [(s, NONE if v == "None" else some(clone(dv(I, s, p)))) for s, v, p in sopt(I, st, args[0])]


@model("std::option::Option::<std::option::Option<T>>::flatten")
def m_flatten(I, st, fr, args, t, site, f, bb):
    out = []
    for s, v, p in sopt(I, st, args[0]):
        if v == "None":
            out.append((s, NONE))
        else:
            out.append((s, p))
    return out


def clone(v):
    return v


@rx(r"(as std::clone::Clone>::clone|<impl std::clone::Clone for .*>::clone)$")
def m_clone(I, st, fr, args, t, site, f, bb):
    return [(st, clone(dv(I, st, args[0])))]


@rx(r"(std::borrow::ToOwned.*::to_owned|std::string::ToString>::to_string|std::slice::<impl \[T\]>::to_vec|core::slice::<impl \[T\]>::to_vec|std::str::<impl str>::to_string|String::as_str|String::as_bytes|str>::as_bytes|String::into_bytes|String::as_mut_str)$")
def m_copy(I, st, fr, args, t, site, f, bb):
    v = dv(I, st, args[0])
    if f["o"].endswith("as_str") or f["o"].endswith("as_bytes"):
        return [(st, A.base_slice(v))]
    if v.k == "sl":
        return [(st, mk("copyof", v))]
    return [(st, v)]


@rx(r"^bytes::BytesMut::(resize|truncate)$|std::vec::Vec::<T, A>::resize$")
def m_resize(I, st, fr, args, t, site, f, bb):
    a = args[0]
    if a.k != "ref":
        return None
    v = A.read(st, a.a[0])
    while v.k == "ref":
        a = v
        v = A.read(st, a.a[0])
    n = args[1]
    if f["o"].endswith("truncate"):
        out = []
        x = st.copy()
        if A.assume(x, ge0(lsub(A.len_of(v), n)), True):
            vec_write(I, x, fr, a, mk("vtrunc", v, n), t)
            out.append((x, UNIT))
        if A.assume(st, ge0(lsub(A.len_of(v), n)), False):
            out.append((st, UNIT))
        return out
    vec_write(I, st, fr, a, mk("vlen", mk("resized", v, n, site), n), t)
    return [(st, UNIT)]


@rx(r"^std::io::Read::read$|as std::io::Read>::read$|AsyncReadExt::read$")
def m_read(I, st, fr, args, t, site, f, bb):
    """std::io::Read: on Ok(n), n <= buf.len() (documented contract)"""
    if len(t["d"]) != 1 or "Result<usize" not in fr.fn.locals[t["d"][0]]:
        return None
    I.havoc_arg(st, args[0], site)
    s = dv(I, st, args[1])
    n = ranged(mk("readn", site), 0, LENMAX)
    x = st.copy()
    out = [(st, err(mk("ioerr", site)))]
    if s.k == "sl":
        A.add_ge(x, lsub(s.a[2], n))
    else:
        I.havoc_arg(x, args[1], site)
    out.append((x, ok(n)))
    return out


@rx(r"(as std::ops::Deref>::deref|as std::ops::DerefMut>::deref_mut|as std::convert::AsRef<.*>>::as_ref|as std::borrow::Borrow<.*>>::borrow|Vec::<T, A>::as_slice|Vec::<T, A>::as_mut_slice|<impl std::convert::AsRef<.*> for .*>::as_ref)$")
def m_deref(I, st, fr, args, t, site, f, bb):
    a = args[0]
    rt = fr.fn.locals[t["d"][0]] if len(t["d"]) == 1 else ""
    # smart pointers: Box / Pin / Arc: same pointer
    ty = f["g"][0] if f["g"] else f["f"]
    if re.search(r"^&?\[|^&?(mut )?\[u8\]|^&str$", rt) or rt.startswith("&[") or rt.startswith("&str") or rt.startswith("&mut ["):
        v = dv(I, st, a)
        if rt.startswith("&mut"):
            if a.k != "ref":
                return None
            n = A.len_of(v)
            p = a.a[0]
            while A.read(st, p).k == "ref":
                p = A.read(st, p).a[0]
            A.write(st, p, mk("vlen", mk("mutated", v, site), n))
            return [(st, mk("sl", mk("view", v, site), K(0), n))]
        return [(st, A.base_slice(v))]
    v = dv(I, st, a)
    if v.k == "guard":
        return [(st, mk("ref", v.a[0] + ("f:$data",), 1 if "mut" in f["o"] else 0))]
    if v.k in ("ref", "sl"):
        return [(st, v)]
    if a.k == "ref":
        # opaque smart pointer: a stable place behind it
        return [(st, mk("ref", (("T", v),), 1 if f["o"].endswith("_mut") else 0))]
    return None


@rx(r"(std::sync::Mutex::<T>::lock|std::sync::RwLock::<T>::(read|write)|parking_lot::.*::lock)$")
def m_lock(I, st, fr, args, t, site, f, bb):
    a = args[0]
    p = None
    if a.k == "ref":
        p = a.a[0]
    else:
        p = (("T", a),)
    return [(st, ok(mk("guard", p)))]


# ------------------------------------------------ slices and vectors
@model("core::slice::<impl [T]>::len", "std::vec::Vec::<T, A>::len", "core::str::<impl str>::len", "std::string::String::len", "bytes::Bytes::len", "bytes::BytesMut::len", "std::collections::VecDeque::<T, A>::len")
def m_len(I, st, fr, args, t, site, f, bb):
    return [(st, len_of(I, st, args[0]))]


def len_of(I, st, a):
    v = dv(I, st, a)
    if v.k == "copyof":
        v = v.a[0]
    return A.len_of(v)


@model("core::slice::<impl [T]>::is_empty", "std::vec::Vec::<T, A>::is_empty", "core::str::<impl str>::is_empty", "std::string::String::is_empty", "bytes::Bytes::is_empty", "bytes::BytesMut::is_empty",
       "std::collections::VecDeque::<T, A>::is_empty")
def m_is_empty(I, st, fr, args, t, site, f, bb):
    return [(st, eq0(len_of(I, st, args[0])))]


def rng(I, st, r, n):
    """(start, end, inclusive-extra) of a range term over length n"""
    r = dv(I, st, r)
    if r.k != "adt":
        if r.k in ("k", "lin") or r.lo is not None:
            return None
        return None
    k = r.a[0].split("::")[-1]
    g = dict(zip(r.a[2], r.a[3]))
    if k == "Range":
        return g["start"], g["end"]
    if k == "RangeFrom":
        return g["start"], n
    if k == "RangeTo":
        return K(0), g["end"]
    if k == "RangeFull":
        return K(0), n
    if k == "RangeInclusive":
        return g["start"], ladd(g["end"], K(1))
    if k == "RangeToInclusive":
        return K(0), ladd(g["end"], K(1))
    return None


@model("std::ops::RangeInclusive::<Idx>::new")
def m_rinc(I, st, fr, args, t, site, f, bb):
    return [(st, adt("std::ops::RangeInclusive", "RangeInclusive", ("start", "end"), tuple(args)))]


def seq_of(I, st, a):
    v = dv(I, st, a)
    return A.base_slice(v)


@rx(r"(slice::index::<impl std::ops::Index<I> for \[T\]>::index|<std::vec::Vec<T, A> as std::ops::Index<I>>::index|str::traits::<impl std::ops::Index<I> for str>::index|<std::string::String as std::ops::Index<I>>::index)$")
def m_index(I, st, fr, args, t, site, f, bb):
    s = seq_of(I, st, args[0])
    n = s.a[2]
    r = rng(I, st, args[1], n)
    isstr = "str" in f["f"].split("Index<I>")[-1] or "String" in f["f"]
    if r is None:
        i = args[1]
        if A.isnum(i) or i.k in ("k", "lin"):
            good = A.prove(st, ladd(lsub(n, i), K(-1)))
            panic(I, st, fr, bb, "index", good, t)
            if not good and not A.add_ge(st, ladd(lsub(n, i), K(-1))):
                return []
            return [(st, mk("ref", (("T", s), ("i", i)), 0))]
        panic(I, st, fr, bb, "index", False, t)
        return None
    a, b = r
    g1 = A.prove(st, lsub(b, a))
    g2 = A.prove(st, lsub(n, b))
    panic(I, st, fr, bb, "slice", g1 and g2 and not isstr, t)
    if not (g1 or A.add_ge(st, lsub(b, a))) or not (g2 or A.add_ge(st, lsub(n, b))):
        return []
    return [(st, mk("sl", s.a[0], ladd(s.a[1], a), lsub(b, a)))]


@rx(r"(slice::index::<impl std::ops::IndexMut<I> for \[T\]>::index_mut|<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut)$")
def m_index_mut(I, st, fr, args, t, site, f, bb):
    s = seq_of(I, st, args[0])
    n = s.a[2]
    r = rng(I, st, args[1], n)
    if r is None:
        i = args[1]
        good = A.isnum(i) and A.prove(st, ladd(lsub(n, i), K(-1)))
        panic(I, st, fr, bb, "index", good, t)
        if args[0].k == "ref":
            return [(st, mk("ref", args[0].a[0] + (("i", i),), 1))]
        return None
    a, b = r
    g = A.prove(st, lsub(b, a)) and A.prove(st, lsub(n, b))
    panic(I, st, fr, bb, "slice", g, t)
    if not A.add_ge(st, lsub(b, a)) or not A.add_ge(st, lsub(n, b)):
        return []
    return [(st, mk("sl", mk("view", s, site), ladd(s.a[1], a), lsub(b, a)))]


def panic(I, st, fr, bb, kind, good, t):
    if not I.quiet and hasattr(I.cl, "on_panic_site"):
        I.cl.on_panic_site(I, st, fr, bb, kind, bool(good), t["ln"])


@model("core::slice::<impl [T]>::get", "core::str::<impl str>::get")
def m_get(I, st, fr, args, t, site, f, bb):
    s = seq_of(I, st, args[0])
    n = s.a[2]
    r = rng(I, st, args[1], n)
    out = []
    if r is None:
        i = args[1]
        if not (A.isnum(i)):
            return None
        c = ge0(ladd(lsub(n, i), K(-1)))
        x = st.copy()
        if A.assume(x, c, True):
            out.append((x, some(mk("ref", (("T", s), ("i", i)), 0))))
        if A.assume(st, c, False):
            out.append((st, NONE))
        return out
    a, b = r
    c1, c2 = ge0(lsub(b, a)), ge0(lsub(n, b))
    x = st.copy()
    if A.assume(x, c1, True) and A.assume(x, c2, True):
        sl = mk("sl", s.a[0], ladd(s.a[1], a), lsub(b, a))
        out.append((x, some(sl)))
    y = st.copy()
    if A.assume(y, c1, False):
        out.append((y, NONE))
    if A.assume(st, c1, True) and A.assume(st, c2, False):
        out.append((st, NONE))
    return out


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last")
def m_first(I, st, fr, args, t, site, f, bb):
    s = seq_of(I, st, args[0])
    n = s.a[2]
    c = ge0(ladd(n, K(-1)))
    out = []
    x = st.copy()
    i = K(0) if f["o"].endswith("first") else ladd(n, K(-1))
    if A.assume(x, c, True):
        out.append((x, some(mk("ref", (("T", s), ("i", i)), 0))))
    if A.assume(st, c, False):
        out.append((st, NONE))
    return out


@model("core::slice::<impl [T]>::split_at")
def m_split_at(I, st, fr, args, t, site, f, bb):
    s = seq_of(I, st, args[0])
    n, m = s.a[2], args[1]
    g = A.prove(st, lsub(n, m))
    panic(I, st, fr, bb, "split_at", g, t)
    if not A.add_ge(st, lsub(n, m)):
        return []
    return [(st, mk("tup", (mk("sl", s.a[0], s.a[1], m), mk("sl", s.a[0], ladd(s.a[1], m), lsub(n, m)))))]


@rx(r"::(from_be_bytes|from_le_bytes)$")
def m_from_be(I, st, fr, args, t, site, f, bb):
    ty = re.search(r"impl (\w+)>", f["o"]).group(1)
    v = args[0]
    el = v.a[0] if v.k == "arr" else (v,)
    return [(st, ranged(mk("be" if "from_be" in f["o"] else "le", ty, tuple(el)), *INTS[ty]))]


@rx(r"::(to_be_bytes|to_le_bytes)$")
def m_to_be(I, st, fr, args, t, site, f, bb):
    ty = re.search(r"impl (\w+)>", f["o"]).group(1)
    n = {"u8": 1, "u16": 2, "u32": 4, "u64": 8}.get(ty, 8)
    return [(st, mk("arr", tuple(ranged(mk("byteof", "be" if "to_be" in f["o"] else "le", ty, args[0], i), 0, 255) for i in range(n))))]


@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::string::String::new", "bytes::BytesMut::new", "bytes::BytesMut::with_capacity", "<std::vec::Vec<T> as std::default::Default>::default",
       "std::collections::VecDeque::<T>::new", "std::string::String::with_capacity", "<std::string::String as std::default::Default>::default", "std::vec::Vec::<T, A>::with_capacity_in", "<bytes::BytesMut as std::default::Default>::default", "std::collections::VecDeque::<T>::with_capacity")
def m_vnew(I, st, fr, args, t, site, f, bb):
    return [(st, mk("vnew"))]


def vec_write(I, st, fr, a, new, t):
    if hasattr(I.cl, "on_write"):
        I.cl.on_write(I, st, fr, a.a[0], new, t["ln"], None)
    A.write(st, a.a[0], new)


@model("std::vec::Vec::<T, A>::push", "bytes::BufMut::put_u8", "std::collections::VecDeque::<T, A>::push_back", "std::string::String::push")
def m_push(I, st, fr, args, t, site, f, bb):
    a = args[0]
    if a.k != "ref":
        return None
    v = A.read(st, a.a[0])
    while v.k == "ref":
        a = v
        v = A.read(st, a.a[0])
    vec_write(I, st, fr, a, mk("vpush", v, args[1]), t)
    return [(st, UNIT)]


@rx(r"(Vec::<T, A>::extend_from_slice|BytesMut::extend_from_slice|Vec<T, A> as std::iter::Extend<.*>>::extend|BufMut.*::put_slice|std::string::String::push_str|Vec::<T, A>::append|VecDeque<T, A> as std::iter::Extend<.*>>::extend)$")
def m_extend(I, st, fr, args, t, site, f, bb):
    a = args[0]
    if a.k != "ref":
        return None
    v = A.read(st, a.a[0])
    while v.k == "ref":
        a = v
        v = A.read(st, a.a[0])
    x = dv(I, st, args[1])
    while x.k == "adt" and x.a[0] in ("std::iter::Copied", "std::iter::Cloned"):
        x = x.a[3][0]
    if x.k == "adt" and x.a[0] == IT:
        sq, pos = x.a[3]
        x = sq if pos is K(0) else mk("sl", sq.a[0], ladd(sq.a[1], pos), lsub(sq.a[2], pos)) if sq.k == "sl" else x
    if f["o"].endswith("::append"):
        vec_write(I, st, fr, args[1], mk("vnew"), t)
    opt = [g for g in (f.get("g") or ()) if isinstance(g, str) and re.match(r"(std|core)::option::Option<", g)]
    if x.k == "adt" and x.a[1] in ("Some", "None") and "Option" in x.a[0] or opt and f["o"].endswith("::extend") and x.k != "sl":
        out = []
        for s, w, y in sopt(I, st, x):
            if w == "Some":
                vec_write(I, s, fr, a, mk("vpush", v, y), t)
            out.append((s, UNIT))
        return out
    vec_write(I, st, fr, a, mk("vext", v, x), t)
    return [(st, UNIT)]


@rx(r"(Vec::<T, A>::clear|BytesMut::clear|String::clear|VecDeque::<T, A>::clear|BinaryHeap::<T, A>::clear|HashMap::<K, V, S.*>::clear|HashSet::<T, S.*>::clear|BTreeMap::<K, V.*>::clear)$")
def m_clear(I, st, fr, args, t, site, f, bb):
    a = args[0]
    if a.k != "ref":
        return None
    vec_write(I, st, fr, a, mk("vnew"), t)
    return [(st, UNIT)]


@model("bytes::BytesMut::split_to", "bytes::Bytes::split_to")
def m_split_to(I, st, fr, args, t, site, f, bb):
    a = args[0]
    if a.k != "ref":
        return None
    v = A.read(st, a.a[0])
    n = args[1]
    s = A.base_slice(v)
    g = A.prove(st, lsub(s.a[2], n))
    panic(I, st, fr, bb, "split_to", g, t)
    if not A.add_ge(st, lsub(s.a[2], n)):
        return []
    vec_write(I, st, fr, a, mk("slv", mk("sl", s.a[0], ladd(s.a[1], n), lsub(s.a[2], n))), t)
    return [(st, mk("slv", mk("sl", s.a[0], s.a[1], n)))]


@rx(r"as bytes::Buf>::advance$")
def m_advance(I, st, fr, args, t, site, f, bb):
    a = args[0]
    if a.k != "ref":
        return None
    v = A.read(st, a.a[0])
    n = args[1]
    s = A.base_slice(v)
    g = A.prove(st, lsub(s.a[2], n))
    panic(I, st, fr, bb, "advance", g, t)
    if not A.add_ge(st, lsub(s.a[2], n)):
        return []
    vec_write(I, st, fr, a, mk("slv", mk("sl", s.a[0], ladd(s.a[1], n), lsub(s.a[2], n))), t)
    return [(st, UNIT)]


@rx(r"Bytes::slice$")
def m_bslice(I, st, fr, args, t, site, f, bb):
    s = seq_of(I, st, args[0])
    n = s.a[2]
    r = rng(I, st, args[1], n)
    if r is None:
        panic(I, st, fr, bb, "slice", False, t)
        return None
    a, b = r
    g = A.prove(st, lsub(b, a)) and A.prove(st, lsub(n, b))
    panic(I, st, fr, bb, "slice", g, t)
    if not (A.add_ge(st, lsub(b, a)) and A.add_ge(st, lsub(n, b))):
        return []
    return [(st, mk("slv", mk("sl", s.a[0], ladd(s.a[1], a), lsub(b, a))))]


@rx(r"(BytesMut::freeze|<bytes::Bytes as std::convert::From<.*>>::from|Bytes::copy_from_slice|<std::vec::Vec<T> as std::convert::From<&.*>>::from|<T as std::convert::Into<U>>::into|<T as std::convert::From<T>>::from|std::convert::Into::into|<std::boxed::Box<T> as std::convert::From<T>>::from|<std::string::String as std::convert::From<.*>>::from|std::string::String::from_utf8_lossy|Cow<'_, B>::into_owned|std::hint::must_use|std::convert::identity|<I as std::iter::IntoIterator>::into_iter|<T as std::borrow::ToOwned>::to_owned)$")
def m_ident(I, st, fr, args, t, site, f, bb):
    n = f["o"]
    if n in ("std::convert::Into::into", "std::convert::From::from") and len(f["g"]) >= 2:
        src, dst = (f["g"][0], f["g"][1]) if n.endswith("into") else (f["g"][1], f["g"][0])
        if src != dst:
            it = f"<{dst} as std::convert::From<{src}>>::from"
            fn = I.p.fns.get(it)
            if fn and I.inline(it) and it not in I.stack:
                return I.call_fn(fn, args, st, mk("conv", site))
            v = dv(I, st, args[0])
            if src in INTS and dst in INTS:
                return [(st, v)]
            if "Vec<u8>" in dst or dst in ("std::string::String", "bytes::Bytes", "bytes::BytesMut") or dst.startswith("std::boxed::Box<"):
                return [(st, mk("copyof", v) if v.k == "sl" else v)]
            if dst == f"std::option::Option<{src}>":
                return [(st, some(args[0]))]
            return [(st, mk("into", v, dst))]
    v = args[0]
    if v.k == "ref" and not n.endswith("into_iter"):
        v = dv(I, st, v)
    return [(st, mk("copyof", v) if v.k == "sl" and not n.endswith("into_iter") else v)]


@rx(r"(std::boxed::Box::<T>::new|std::sync::Arc::<T>::new|std::boxed::Box::<T>::pin|std::sync::Mutex::<T>::new|std::pin::Pin::<Ptr>::new_unchecked|std::pin::Pin::<Ptr>::new|std::rc::Rc::<T>::new)$")
def m_box(I, st, fr, args, t, site, f, bb):
    n = f["o"]
    if "Pin" in n or "Mutex" in n:
        return [(st, args[0])]
    root = ("B", site, "box")
    st.mem[root] = {(): args[0]}
    return [(st, mk("ref", (root,), 1))]


@model("std::boxed::Box::<T>::new_uninit")
def m_box_uninit(I, st, fr, args, t, site, f, bb):
    root = ("B", site, "box")
    st.mem[root] = {(): UNDEF}
    return [(st, mk("ref", (root,), 1))]


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_box_vec(I, st, fr, args, t, site, f, bb):
    """vec![...]: the array written into the box"""
    a = args[0]
    if a.k != "ref":
        return None
    d = st.mem.get(a.a[0][0], {})
    for n in (("f:value", "f:value"), ("f:value",), ()):
        if a.a[0][1:] + n in d:
            v = d[a.a[0][1:] + n]
            return [(st, v)] if v.k in ("arr", "rep") else None
    return None


# ------------------------------------------------ time: durations and instants are integers counting nanoseconds
# (the saturation of Duration arithmetic at 2^64 seconds is not modelled)
NS = 10 ** 9
UNITS = {"secs": NS, "millis": 10 ** 6, "micros": 1000, "nanos": 1}


def unscale(I, t, k):
    """t div k, exact where every coefficient is a multiple of k"""
    c, d = lin(t)
    if c % k == 0 and all(v % k == 0 for v in d.values()):
        return unlin(c // k, {x: v // k for x, v in d.items()})
    return I.arith("Div", t, K(k), "u128", False)


def since(I, st, a, b):
    """a - b, zero when b is later"""
    out = []
    x = st.copy()
    if A.assume(x, ge0(lsub(a, b)), True):
        out.append((x, lsub(a, b)))
    if A.assume(st, ge0(lsub(a, b)), False):
        out.append((st, K(0)))
    return out


@rx(r"^std::time::Duration::(from_|as_)(secs|millis|micros|nanos)(_f64|_f32)?$")
def m_dur(I, st, fr, args, t, site, f, bb):
    n = f["f"].rsplit("::", 1)[-1]
    x = dv(I, st, args[0])
    if n.endswith(("_f64", "_f32")):
        return [(st, mk("pure", f["f"], (x,)))]
    d, u = n.split("_")
    if d == "from":
        I.typed(x, "u64")
        return [(st, I.typed(lmul(x, UNITS[u]), "std::time::Duration"))]
    I.typed(x, "std::time::Duration")
    return [(st, unscale(I, x, UNITS[u]))]


@model("std::time::Duration::new")
def m_durnew(I, st, fr, args, t, site, f, bb):
    return [(st, ladd(lmul(args[0], NS), args[1]))]


@model("std::time::Duration::is_zero")
def m_durzero(I, st, fr, args, t, site, f, bb):
    return [(st, eq0(I.typed(dv(I, st, args[0]), "std::time::Duration")))]


@rx(r"^std::time::Instant::(duration_since|saturating_duration_since|checked_duration_since|elapsed|checked_add|checked_sub)$|^std::time::Duration::(saturating_sub|checked_sub|saturating_add|checked_add|saturating_mul|checked_mul|abs_diff)$|^<std::time::(Instant|Duration) as std::ops::(Add|Sub|Mul|Div)(<.*>)?>::(add|sub|mul|div)$")
def m_time(I, st, fr, args, t, site, f, bb):
    n = f["f"].rsplit("::", 1)[-1]
    a = I.typed(dv(I, st, args[0]), "std::time::Instant")
    if n == "elapsed":
        b, a = a, I.typed(mk("call", "std::time::Instant::now", (), site), "std::time::Instant")
        return since(I, st, a, b)
    b = I.typed(dv(I, st, args[1]), "u32" if n in ("mul", "div", "saturating_mul", "checked_mul") else "std::time::Duration")
    if n in ("duration_since", "saturating_duration_since") or n == "sub" and f["f"].count("Instant") == 2 or n == "saturating_sub":
        return since(I, st, a, b)
    if n in ("checked_duration_since", "checked_sub"):
        out = []
        x = st.copy()
        if A.assume(x, ge0(lsub(a, b)), True):
            out.append((x, some(lsub(a, b))))
        if A.assume(st, ge0(lsub(a, b)), False):
            out.append((st, NONE))
        return out
    if n == "sub":
        return [(st, lsub(a, b))]
    if n in ("add", "saturating_add", "checked_add"):
        v = I.typed(ladd(a, b), "std::time::Instant")
    elif n in ("mul", "saturating_mul", "checked_mul"):
        v = scaled(I, a, b)
    elif n == "div":
        v = unscale(I, a, b.a[0]) if b.k == "k" and b.a[0] else I.arith("Div", a, b, "u128", False)
    else:
        v = mk("pure", f["f"], (a, b))
    if n.startswith("checked"):
        return [(st.copy(), some(v)), (st, NONE)]
    return [(st, v)]


def scaled(I, a, b):
    """product with the common factor of a taken out: the unit does not matter"""
    import math
    c, d = lin(a)
    g = math.gcd(c, *d.values())
    if g > 1:
        return lmul(I.arith("Mul", unlin(c // g, {x: v // g for x, v in d.items()}), b, "u128", True), g)
    return I.arith("Mul", a, b, "u128", True)


@rx(r"::(saturating_sub|saturating_add|checked_add|checked_sub|wrapping_add|wrapping_sub|min|max|checked_mul|saturating_mul|pow|saturating_pow)$")
def m_arith(I, st, fr, args, t, site, f, bb):
    n = f["o"].rsplit("::", 1)[-1]
    m = re.search(r"impl (\w+)>", f["o"])
    ty = m.group(1) if m else (f["g"][0] if f["g"] else "")
    if ty not in INTS:
        if n in ("min", "max"):
            return [(st, mk("pure", n, tuple(args)))]
        return [(st, mk("pure", f["o"], tuple(dv(I, st, a) for a in args)))]
    lo, hi = INTS[ty]
    a = args[0]
    b = args[1]
    I.typed(a, ty)
    if n != "pow" and n != "saturating_pow":
        I.typed(b, ty)
    out = []
    if n in ("min", "max"):
        c = ge0(lsub(b, a))
        x = st.copy()
        if A.assume(x, c, True):
            out.append((x, a if n == "min" else b))
        if A.assume(st, c, False):
            out.append((st, b if n == "min" else a))
        return out
    if n in ("saturating_sub", "checked_sub") and lo == 0:
        c = ge0(lsub(a, b))
        x = st.copy()
        if A.assume(x, c, True):
            out.append((x, lsub(a, b) if n[0] == "s" else some(lsub(a, b))))
        if A.assume(st, c, False):
            out.append((st, K(0) if n[0] == "s" else NONE))
        return out
    if n in ("saturating_add", "checked_add"):
        s = ladd(a, b)
        c = ge0(ladd(K(hi), s, -1))
        x = st.copy()
        if A.assume(x, c, True):
            out.append((x, s if n[0] == "s" else some(s)))
        if A.assume(st, c, False):
            out.append((st, K(hi) if n[0] == "s" else NONE))
        return out
    if n in ("wrapping_add", "wrapping_sub"):
        s = ladd(a, b, 1 if n.endswith("add") else -1)
        l, h = bounds(s)
        if l is not None and h is not None and l >= lo and h <= hi:
            return [(st, s)]
        # case split on wrap-around
        if n.endswith("add"):
            c = ge0(ladd(K(hi), s, -1))
            x = st.copy()
            if A.assume(x, c, True):
                out.append((x, s))
            if A.assume(st, c, False):
                out.append((st, ladd(s, K(-(hi + 1)))))
            return out
        return [(st, ranged(mk("wrap", ty, s), lo, hi))]
    v = mk("pow2", b) if a is K(2) and n.endswith("pow") else mk("pure", n, (a, b))
    if n in ("checked_mul", "saturating_mul"):
        v = scaled(I, a, b)
        l, h = bounds(v)
        if l is not None and l >= lo:
            if h is not None and h <= hi:
                return [(st, v if n[0] == "s" else some(v))]
            c = ge0(ladd(K(hi), v, -1))
            x = st.copy()
            if A.assume(x, c, True):
                out.append((x, v if n[0] == "s" else some(v)))
            if A.assume(st, c, False):
                out.append((st, K(hi) if n[0] == "s" else NONE))
            return out
        return [(st, mk("pure", n, (a, b)))]
    if n in ("pow",):
        if a.k == "k" and b.k == "k" and a.a[0] ** b.a[0] <= hi:
            return [(st, K(a.a[0] ** b.a[0]))]
        if not I.quiet and hasattr(I.cl, "on_panic_site"):
            I.cl.on_panic_site(I, st, fr, bb, "overflow:pow", False, t["ln"])
    if n.startswith("checked"):
        return [(st, mk("pure", n, (a, b)))]
    return [(st, ranged(v, lo, hi))]


@rx(r"convert::num::<impl std::convert::From<(bool|char|[iu]\w+)> for ([iu]\w+)>::from$|char::convert::<impl std::convert::From<\w+> for \w+>::from$")
def m_widen(I, st, fr, args, t, site, f, bb):
    src = re.search(r"From<(\w+)>", f["f"]).group(1)
    return [(st, I.typed(dv(I, st, args[0]), src))] if src in INTS else None


@rx(r"as std::convert::TryFrom<.*>>::try_from$|<T as std::convert::TryInto<U>>::try_into$|<impl std::convert::TryFrom<.*> for .*>::try_from$")
def m_tryfrom(I, st, fr, args, t, site, f, bb):
    g = f["g"]
    if len(g) < 2:
        return None
    src, dst = (g[0], g[1]) if "TryInto" in f["o"] else (g[1], g[0])
    it = f"<{dst} as std::convert::TryFrom<{src}>>::try_from"
    fn = I.p.fns.get(it)
    if fn and I.inline(it) and it not in I.stack:
        return I.call_fn(fn, args, st, mk("conv", site))
    if src in INTS and dst in INTS:
        lo, hi = INTS[dst]
        a = I.typed(args[0], src)
        out = []
        x = st.copy()
        if A.add_ge(x, ladd(a, K(-lo))) and A.add_ge(x, ladd(K(hi), a, -1)):
            out.append((x, ok(a)))
        y = st.copy()
        if A.add_ge(y, ladd(a, K(-hi - 1))):
            out.append((y, err(mk("tryfromerr"))))
        if INTS[src][0] < lo and A.add_ge(st, ladd(K(lo - 1), a, -1)):
            out.append((st, err(mk("tryfromerr"))))
        return out
    m = re.match(r"\[.*; (\d+)\]$", dst)
    if m:
        s = seq_of(I, st, args[0])
        n = int(m.group(1))
        out = []
        x = st.copy()
        if A.assume(x, eq0(ladd(s.a[2], K(-n))), True):
            out.append((x, ok(mk("arr", tuple(ranged(A.project(s.a[0], ("i", ladd(s.a[1], K(i)))), 0, 255) for i in range(n))))))
        if A.assume(st, eq0(ladd(s.a[2], K(-n))), False):
            out.append((st, err(mk("tryfromerr"))))
        return out
    return None


@model("std::string::String::from_utf8", "core::str::from_utf8", "std::str::from_utf8")
def m_utf8(I, st, fr, args, t, site, f, bb):
    v = dv(I, st, args[0])
    x = mk("utf8", v)
    out = []
    a = st.copy()
    if A.assume(a, x, True):
        out.append((a, ok(v)))
    if A.assume(st, x, False):
        out.append((st, err(mk("utf8err", v))))
    return out


@rx(r"(as std::cmp::PartialEq(<.*>)?>::(eq|ne)|<impl std::cmp::PartialEq(<.*>)? for .*>::(eq|ne))$|^std::cmp::PartialEq::ne$")
def m_eq(I, st, fr, args, t, site, f, bb):
    a, b = dv(I, st, args[0]), dv(I, st, args[1])
    for ty in f["g"][:1]:
        if ty.startswith("std::time::"):
            a, b = I.typed(a, ty), I.typed(b, ty)
    ne = f["o"].endswith("ne")
    # a derived PartialEq of the workspace on field-less variants
    ty = f["g"][0].lstrip("&") if f["g"] else ""
    r = equal(I, st, a, b, ty)
    return [(st, lnot(r) if ne else r)]


def unit_variant(t):
    return t.k == "adt" and not t.a[3]


def equal(I, st, a, b, ty):
    if a is b and a.k not in ("call",):
        return TRUE
    if A.isnum(a) and A.isnum(b):
        return eq0(lsub(a, b))
    if a.k == "adt" and b.k == "adt":
        if a.a[1] != b.a[1]:
            return FALSE
        if not a.a[3]:
            return TRUE
        rs = [equal(I, st, x, y, "") for x, y in zip(a.a[3], b.a[3])]
        if all(r is TRUE for r in rs):
            return TRUE
        if any(r is FALSE for r in rs):
            return FALSE
        rs = [r for r in rs if r is not TRUE]
        return rs[0] if len(rs) == 1 else mk("and", *rs)
    if unit_variant(b):
        return mk("isv", a, b.a[1])
    if unit_variant(a):
        return mk("isv", b, a.a[1])
    if b.k == "adt" and b.a[0].endswith("::Option") and b.a[1] == "Some":
        p = A.project(A.project(a, "v:Some"), "f:0")
        return mk("and", mk("isv", a, "Some"), equal(I, st, p, b.a[3][0], ""))
    if a.k == "adt" and a.a[0].endswith("::Option") and a.a[1] == "Some":
        return equal(I, st, b, a, ty)
    if a.k == "s" and b.k == "s":
        return TRUE if a.a[0] == b.a[0] else FALSE
    if b.k in ("s", "vnew") and len_lit(b) == 0:
        return eq0(A.len_of(a))
    if a.k in ("s", "vnew") and len_lit(a) == 0:
        return eq0(A.len_of(b))
    return mk("eqv", *sorted((a, b), key=lambda x: x.id))


def len_lit(t):
    return 0 if t.k == "vnew" else len(t.a[0])


@rx(r"as std::cmp::PartialOrd(<.*>)?>::(lt|le|gt|ge)$|<impl std::cmp::PartialOrd(<.*>)? for .*>::(lt|le|gt|ge)$|^std::cmp::PartialOrd::(lt|le|gt|ge)$")
def m_ord(I, st, fr, args, t, site, f, bb):
    a, b = dv(I, st, args[0]), dv(I, st, args[1])
    n = f["o"].rsplit("::", 1)[-1]
    for ty in f["g"][:1]:
        if ty.startswith("std::time::"):
            a, b = I.typed(a, ty), I.typed(b, ty)
    if A.isnum(a) and A.isnum(b):
        r = {"lt": lambda: ge0(ladd(lsub(b, a), K(-1))), "le": lambda: ge0(lsub(b, a)), "gt": lambda: ge0(ladd(lsub(a, b), K(-1))), "ge": lambda: ge0(lsub(a, b))}[n]()
        return [(st, r)]
    # a < b  ==  not (a >= b): one atom per unordered comparison
    if n == "lt":
        r = mk("olt", a, b)
    elif n == "ge":
        r = lnot(mk("olt", a, b))
    elif n == "gt":
        r = mk("olt", b, a)
    else:
        r = lnot(mk("olt", b, a))
    return [(st, r)]


PURE = re.compile(r"(core::str::<impl str>::(contains|starts_with|ends_with|trim|split_once|strip_prefix|parse|to_lowercase|to_ascii_lowercase|eq_ignore_ascii_case)|core::slice::<impl \[T\]>::contains|HashMap::<K, V, S.*>::(contains_key|len|is_empty)|BTreeMap::<K, V.*>::(contains_key|len|is_empty)|HashSet::<T, S.*>::(contains|len|is_empty)|BTreeSet::<T, A>::(contains|len|is_empty)|VecDeque::<T, A>::(front|back)|std::time::Duration::\w+|as std::ops::(Add|Sub|Mul|Div)<.*>>::(add|sub|mul|div)|std::mem::size_of|Instant::duration_since|Instant::saturating_duration_since|Instant::checked_add)$")


@rx(PURE.pattern)
def m_pure(I, st, fr, args, t, site, f, bb):
    r = mk("pure", f["f"], tuple(dv(I, st, a) for a in args))
    dty = fr.fn.locals[t["d"][0]] if len(t["d"]) == 1 else None
    if dty:
        I.typed(r, dty)
    return [(st, r)]


@rx(r"HashMap::<K, V, S.*>::(get|get_mut|remove|insert|entry|get_or_insert_with)$|BTreeMap::<K, V.*>::(get|get_mut|remove|insert|entry)$|HashSet::<T, S.*>::(insert|remove)$|VecDeque::<T, A>::(pop_front|pop_back|push_front|front_mut|back_mut|iter|drain)|Vec::<T, A>::(pop|remove|insert|drain|retain|truncate|iter)$")
def m_container(I, st, fr, args, t, site, f, bb):
    """containers: element contents are not tracked; a mutation yields a new container value"""
    n = f["o"].rsplit("::", 1)[-1]
    a = args[0]
    key = tuple(dv(I, st, x) for x in args[1:])
    if a.k != "ref":
        return None
    v = A.read(st, a.a[0])
    if n == "truncate":
        m = args[1]
        out = []
        c = ge0(lsub(A.len_of(v), m))
        x = st.copy()
        if A.assume(x, c, True):
            vec_write(I, x, fr, a, mk("vtrunc", v, m), t)
            out.append((x, UNIT))
        if A.assume(st, c, False):
            out.append((st, UNIT))
        return out
    r = mk("call", f["o"], (v,) + key, site)
    if n in ("get",):
        return [(st, mk("mapget", v, key[0]))]
    if n in ("get_mut", "front_mut", "back_mut"):
        out = []
        for s, var, p in sopt(I, st, mk("mapget", v, key[0] if key else UNIT)):
            out.append((s, NONE if var == "None" else some(mk("ref", a.a[0] + (("i", key[0] if key else UNIT),), 1))))
        return out
    if n in ("iter",):
        return [(st, mk("iter", v))]
    nv = mk("mut", n, v, key, site)
    if n in ("pop_front", "pop_back", "pop"):
        out = []
        x = st.copy()
        if A.assume(x, ge0(ladd(A.len_of(v), K(-1))), True):
            vec_write(I, x, fr, a, nv, t)
            A.add_ge(x, lsub(ladd(A.len_of(v), K(-1)), A.len_of(nv)))
            A.add_ge(x, lsub(A.len_of(nv), ladd(A.len_of(v), K(-1))))
            out.append((x, some(r)))
        if A.assume(st, eq0(A.len_of(v)), True):
            out.append((st, NONE))
        return out
    vec_write(I, st, fr, a, nv, t)
    if n == "push_front":
        return [(st, UNIT)]
    return [(st, r)]


@rx(r"(std::rt::begin_panic|core::panicking::\w+|std::rt::panic_\w+|option::unwrap_failed|result::unwrap_failed|option::expect_failed|std::process::abort|core::panicking::panic_fmt)$")
def m_panic(I, st, fr, args, t, site, f, bb):
    panic(I, st, fr, bb, "panic", False, t)
    return []


@rx(r"(core::fmt::rt::|std::fmt::format|std::fmt::Arguments|std::io::_e?print|alloc::fmt::format|std::io::stdio::_e?print)")
def m_fmt(I, st, fr, args, t, site, f, bb):
    return [(st, mk("fmt", site))]


@rx(r"as std::default::Default>::default$")
def m_default(I, st, fr, args, t, site, f, bb):
    ty = fr.fn.locals[t["d"][0]] if len(t["d"]) == 1 else ""
    d = default_of(ty, site)
    return [(st, d)]


@model("std::vec::from_elem")
def m_from_elem(I, st, fr, args, t, site, f, bb):
    return [(st, mk("rep", args[0], args[1]))]


@rx(r"copy_from_slice$|clone_from_slice$")
def m_cfs(I, st, fr, args, t, site, f, bb):
    d, s = seq_of(I, st, args[0]), seq_of(I, st, args[1])
    g = A.prove(st, lsub(d.a[2], s.a[2])) and A.prove(st, lsub(s.a[2], d.a[2]))
    panic(I, st, fr, bb, "copy_from_slice", g, t)
    if args[0].k == "ref":
        A.write(st, args[0].a[0], mk("copyof", s))
    return [(st, UNIT)]


# ------------------------------------------------ iteration over integers in slices and ranges
IT = "std::slice::Iter"
ADAPT = {"enumerate": ("std::iter::Enumerate", ("it", "n")), "take": ("std::iter::Take", ("it", "n")), "copied": ("std::iter::Copied", ("it",)), "cloned": ("std::iter::Cloned", ("it",)),
         "by_ref": None}
ITERS = {IT, "std::iter::Skip"} | {v[0] for v in ADAPT.values() if v}


def is_iter(v):
    return v.k == "adt" and (v.a[0] in ITERS or v.a[0] == "std::ops::Range")


@rx(r"core::slice::<impl \[T\]>::iter$|core::slice::iter::<impl std::iter::IntoIterator for &'a \[T\]>::into_iter$|<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$")
def m_slice_iter(I, st, fr, args, t, site, f, bb):
    g = re.sub(r"^&('\w+ )?", "", f["g"][0] if f["g"] else "")
    g = re.sub(r"^(\[|std::vec::Vec<)(\w+)[\]>]$", r"\2", g)
    if g not in INTS:
        return None
    s = seq_of(I, st, args[0])
    if s.k != "sl":
        return None
    return [(st, adt(IT, "Iter", ("s", "pos"), (s, K(0))))]


@rx(r"^std::iter::Iterator::(enumerate|take|skip|copied|cloned)$")
def m_adapt_iter(I, st, fr, args, t, site, f, bb):
    n = f["o"].rsplit("::", 1)[-1]
    v = args[0]
    if not is_iter(v):
        return None
    if n == "skip":
        if v.a[0] != IT:
            return None
        # skipping past the end leaves the iterator at the end
        s, pos = v.a[3]
        q = ladd(pos, args[1])
        out = []
        x = st.copy()
        if A.assume(x, ge0(lsub(s.a[2], q)), True):
            out.append((x, adt(IT, "Iter", ("s", "pos"), (s, q))))
        if A.assume(st, ge0(lsub(s.a[2], q)), False):
            out.append((st, adt(IT, "Iter", ("s", "pos"), (s, s.a[2]))))
        return out
    name, fs = ADAPT[n]
    return [(st, adt(name, name.rsplit("::", 1)[-1], fs, (v, K(0)) if n == "enumerate" else (v, args[1]) if n == "take" else (v,)))]


def advance(I, st, path):
    """[(state, element | None)] of stepping the iterator stored at path, or None when it is not one of ours"""
    v = A.read(st, path)
    if not is_iter(v):
        return None
    k = v.a[0]
    if k == IT:
        s, pos = v.a[3]
        if s.k != "sl":
            return None
        I.typed(pos, "usize")
        c = ge0(lsub(s.a[2], ladd(pos, K(1))))
        out = []
        x = st.copy()
        if A.assume(x, c, True):
            A.write(x, path + ("f:pos",), ladd(pos, K(1)))
            out.append((x, mk("ref", (("T", s), ("i", pos)), 0)))
        if A.assume(st, c, False):
            out.append((st, None))
        return out
    if k == "std::ops::Range":
        a, b = v.a[3]
        if not (A.isnum(a) and A.isnum(b)):
            return None
        c = ge0(lsub(b, ladd(a, K(1))))
        out = []
        x = st.copy()
        if A.assume(x, c, True):
            A.write(x, path + ("f:start",), ladd(a, K(1)))
            out.append((x, a))
        if A.assume(st, c, False):
            out.append((st, None))
        return out
    if k == "std::iter::Take":
        n = I.typed(v.a[3][1], "usize")
        out = []
        x = st.copy()
        if A.assume(x, eq0(n), True):
            out.append((x, None))
        if A.assume(st, eq0(n), False):
            A.write(st, path + ("f:n",), ladd(n, K(-1)))
            r = advance(I, st, path + ("f:it",))
            if r is None:
                return None
            out += r
        return out
    r = advance(I, st, path + ("f:it",))
    if r is None:
        return None
    out = []
    for s, e in r:
        if e is not None and k == "std::iter::Enumerate":
            n = I.typed(v.a[3][1], "usize")
            A.write(s, path + ("f:n",), ladd(n, K(1)))
            e = mk("tup", (n, e))
        elif e is not None and k in ("std::iter::Copied", "std::iter::Cloned"):
            e = A.read(s, e.a[0]) if e.k == "ref" else e
        out.append((s, e))
    return out


@rx(r"^<std::(slice|iter)::\w+<.*> as std::iter::Iterator>::next$|^std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next$|^std::iter::Iterator::next$")
def m_iter_next(I, st, fr, args, t, site, f, bb):
    a = args[0]
    while a.k == "ref" and A.read(st, a.a[0]).k == "ref":
        a = A.read(st, a.a[0])
    if a.k != "ref":
        return None
    r = advance(I, st.copy(), a.a[0])
    if r is None:
        return None
    return [(s, NONE if e is None else some(e)) for s, e in r]


# ---------------------------------------------------------------- further combinators
@model("core::bool::<impl bool>::then", "core::bool::<impl bool>::then_some", "std::bool::<impl bool>::then", "std::bool::<impl bool>::then_some")
def m_then(I, st, fr, args, t, site, f, bb):
    out = []
    b = dv(I, st, args[0])
    s2 = st.copy()
    if A.assume(st, b, True) is not False:
        if f["o"].endswith("then_some"):
            out.append((st, some(args[1])))
        else:
            out += [(s, some(v)) for s, v in I.invoke(fr, st, site, args[1], [], t, bb)]
    if A.assume(s2, b, False) is not False:
        out.append((s2, NONE))
    return out


@model("std::option::Option::<T>::and", "std::option::Option::<T>::xor", "std::option::Option::<T>::zip")
def m_opt2(I, st, fr, args, t, site, f, bb):
    n = f["o"].rsplit("::", 1)[-1]
    out = []
    for s, v, x in sopt(I, st, args[0]):
        if n == "and":
            out.append((s, args[1] if v == "Some" else NONE))
            continue
        for s2, v2, y in sopt(I, s, args[1]):
            if n == "zip":
                out.append((s2, some(mk("tup", (x, y))) if v == v2 == "Some" else NONE))
            else:
                out.append((s2, some(x) if v == "Some" and v2 != "Some" else some(y) if v2 == "Some" and v != "Some" else NONE))
    return out


@model("std::option::Option::<T>::get_or_insert", "std::option::Option::<T>::get_or_insert_with")
def m_get_or_insert(I, st, fr, args, t, site, f, bb):
    a = args[0]
    if a.k != "ref":
        return None
    out = []
    ref = mk("ref", a.a[0] + ("v:Some", "f:0"), 1)
    for s, v, x in sopt(I, st, A.read(st, a.a[0])):
        if v == "Some":
            out.append((s, ref))
            continue
        for s2, y in [(s, args[1])] if f["o"].endswith("insert") else I.invoke(fr, s, site, args[1], [], t, bb):
            if hasattr(I.cl, "on_write"):
                I.cl.on_write(I, s2, fr, a.a[0], some(y), t["ln"], None)
            A.write(s2, a.a[0], some(y))
            out.append((s2, ref))
    return out


@model("std::result::Result::<T, E>::or_else", "std::result::Result::<T, E>::map_or_else", "std::result::Result::<T, E>::is_err_and")
def m_res_else(I, st, fr, args, t, site, f, bb):
    n = f["o"].rsplit("::", 1)[-1]
    out = []
    for s, v, x in sres(I, st, args[0]):
        if n == "or_else":
            out += [(s, ok(x))] if v == "Ok" else I.invoke(fr, s, site, args[1], [x], t, bb)
        elif n == "is_err_and":
            out += [(s, FALSE)] if v == "Ok" else I.invoke(fr, s, site, args[1], [x], t, bb)
        else:
            out += I.invoke(fr, s, site, args[2] if v == "Ok" else args[1], [x], t, bb)
    return out


@model("std::mem::swap")
def m_swap(I, st, fr, args, t, site, f, bb):
    a, b = args
    if a.k != "ref" or b.k != "ref":
        return None
    x, y = A.read(st, a.a[0]), A.read(st, b.a[0])
    for r, v in ((a, y), (b, x)):
        if hasattr(I.cl, "on_write"):
            I.cl.on_write(I, st, fr, r.a[0], v, t["ln"], None)
        A.write(st, r.a[0], v)
    return [(st, UNIT)]
