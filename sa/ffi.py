"""The C interface, interpreted: pointers, ownership and the calls that reach the engines."""
import re
import absint, engine, models, codec
from absint import read, write, len_of
from terms import *

IMPL = re.compile(r"^flowsdk::mqtt_client::(engine|tls_engine)::(\w*MqttEngine)::(\w+)$")
FN = re.compile(r"ctx\(")


def externs(p):
    return sorted((f for f in p.fns.values() if str(f.d.get("abi", "")).startswith("C ") and f.file.startswith("flowsdk_ffi/src") and not f.d["mac"]), key=lambda f: f.id)


def name(f):
    return f.id.rsplit("::", 1)[1]


def null(t):
    """is the pointer null: TRUE, FALSE, or an atom"""
    if t.k in ("ref", "raw", "sl"):
        return FALSE
    if t.k == "nullptr":
        return TRUE
    return ranged(mk("null", t), 0, 1)


def nonnull(st, t):
    n = null(t)
    return n is FALSE or absint.prove(st, lmul(n, -1))


def unbox(t):
    """the boxed slice whose contents a term denotes"""
    x = t
    while x.k in ("deref", "pr", "cast"):
        x = x.a[0]
    return x if x.k == "bslice" else t


def note(st, *ev):
    st.auto = (st.auto or ()) + (ev,)


def trace(st, kind):
    return [e for e in st.auto or () if e[0] == kind]


class Ffi(engine.Cl):
    """bad: what may go wrong, [(construct, what)]"""

    def __init__(self, p, stub=True):
        self.p, self.bad, self.derefs, self.calls = p, {}, 0, 0
        V = codec.value_of
        H = []

        def hook(rx):
            return lambda f: H.append((re.compile(rx), f)) or f

        @hook(r"::(const_ptr|mut_ptr)::<impl \*(const|mut) (T|\[T\])>::is_null$")
        def is_null(I, st, fr, nm, args, t, site):
            return [(st, null(args[0]))]

        @hook(r"::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::(as_ref|as_mut)$|NonNull::<T>::new$")
        def as_ref(I, st, fr, nm, args, t, site):
            n, out = null(args[0]), []
            x = st.copy()
            if absint.assume(x, n, False):
                out.append((x, some(args[0] if args[0].k == "ref" or "NonNull" in nm else mk("ref", (("T", args[0]),), 1))))
            if absint.assume(st, n, True):
                out.append((st, NONE))
            return out

        @hook(r"::ptr::(null|null_mut)$")
        def nullp(I, st, fr, nm, args, t, site):
            return [(st, mk("nullptr"))]

        @hook(r"CStr::from_ptr$")
        def from_ptr(I, st, fr, nm, args, t, site):
            self.need(st, fr, args[0], "a C string is read", t)
            return [(st, mk("cstr", args[0]))]

        @hook(r"slice::from_raw_parts(_mut)?$")
        def from_raw_parts(I, st, fr, nm, args, t, site):
            self.need(st, fr, args[0], "a slice is made", t)
            return [(st, mk("cbytes", args[0], args[1]))]

        @hook(r"ptr::slice_from_raw_parts(_mut)?$")
        def sfrp(I, st, fr, nm, args, t, site):
            return [(st, mk("cbytes", args[0], args[1]))]

        @hook(r"(CStr::to_string_lossy|Cow::<.*>::into_owned|<.*Cow<.*> as std::convert::Into.*|String as std::convert::From<.*>>::from|::to_string|::to_owned|::to_vec|<T as std::convert::Into<U>>::into|Cow<.*> as std::ops::Deref>::deref|Clone>::clone|Clone::clone|::from_ref|Vec<T> as std::convert::From<.*>>::from)$")
        def same(I, st, fr, nm, args, t, site):
            v = V(I, st, args[0])
            return [(st, v)] if v.k in ("cstr", "cbytes") else None

        @hook(r"ToString>?::to_string$")
        def text(I, st, fr, nm, args, t, site):
            g = t["f"]["g"]
            if g and re.search(r"^(std::net::(SocketAddr|IpAddr|Ipv4Addr|Ipv6Addr)|[iu](8|16|32|64|size)|bool)$", g[0]):
                return [(st, mk("text", V(I, st, args[0]), g[0]))]

        @hook(r"boxed::Box::<T>::new$")
        def boxnew(I, st, fr, nm, args, t, site):
            if fr.fn.file.startswith("flowsdk_ffi"):
                return [(st, mk("boxed", args[0], t["f"]["g"][0] if t["f"]["g"] else "?"))]

        @hook(r"boxed::Box::<T(, A)?>::into_raw$|boxed::Box::<T(, A)?>::leak$")
        def into_raw(I, st, fr, nm, args, t, site):
            v = args[0]
            ty = t["f"]["g"][0] if t["f"]["g"] else "?"
            note(st, "leak", v)
            if v.k == "bslice":
                return [(st, mk("raw", "slice", v.a[0], ty))]
            return [(st, mk("raw", "box", v, ty))]

        @hook(r"boxed::Box::<T(, A)?>::from_raw$")
        def box_from_raw(I, st, fr, nm, args, t, site):
            v, ty = args[0], t["f"]["g"][0] if t["f"]["g"] else "?"
            ptr = v.a[0] if v.k == "cbytes" else v
            if v.k != "cbytes":
                self.need(st, fr, ptr, "a box is taken back", t)
            elif not nonnull(st, ptr):
                self.say(fr, t, f"a boxed slice is taken back from {show(ptr)[:60]}, which may be null")
            note(st, "take", "slice" if v.k == "cbytes" else "box", ty, v)
            return [(st, mk("taken", v))]

        @hook(r"Vec::<T(, A)?>::from_raw_parts(_in)?$")
        def vec_from(I, st, fr, nm, args, t, site):
            if args[1] is not args[2]:
                self.say(fr, t, "a vector is taken back with a capacity that is not its length")
            self.need(st, fr, args[0], "a vector is taken back", t)
            v = mk("cbytes", args[0], args[1])
            note(st, "take", "slice", "[" + (t["f"]["g"][0] if t["f"]["g"] else "?") + "]", v)
            return [(st, mk("taken", v))]

        @hook(r"CString::from_raw$")
        def cs_from_raw(I, st, fr, nm, args, t, site):
            self.need(st, fr, args[0], "a C string is taken back", t)
            note(st, "take", "cstring", "i8", args[0])
            return [(st, mk("taken", args[0]))]

        @hook(r"CString::into_raw$")
        def cs_into_raw(I, st, fr, nm, args, t, site):
            note(st, "leak", args[0])
            return [(st, mk("raw", "cstring", args[0], "i8"))]

        @hook(r"CString::new$")
        def cs_new(I, st, fr, nm, args, t, site):
            v = V(I, st, args[0])
            x = mk("cstring", v)
            if self.nonul(I, st, v, t):
                return [(st, ok(x))]
            return [(st, ok(x)), (st.copy(), err(mk("nulerror", v)))]

        @hook(r"Vec::<T, A>::into_boxed_slice$")
        def ibs(I, st, fr, nm, args, t, site):
            return [(st, mk("bslice", args[0]))]

        @hook(r"<impl \[T\]>::as_mut_ptr$|<impl \[T\]>::as_ptr$|Vec::<T, A>::as_(mut_)?ptr$")
        def amp(I, st, fr, nm, args, t, site):
            a = args[0]
            v = unbox(V(I, st, a))
            if v.k == "raw":        # of Box::leak
                return [(st, v)]
            if v.k == "bslice":
                return [(st, mk("raw", "slice", v.a[0], "[]"))]
            return [(st, mk("raw", "other", v, nm))]

        @hook(r"std::mem::forget$|ManuallyDrop::<T>::new$")
        def forget(I, st, fr, nm, args, t, site):
            note(st, "leak", V(I, st, args[0]))
            return [(st, UNIT if nm.endswith("forget") else args[0])]

        @hook(r"(IntoIterator>::into_iter|IntoIterator::into_iter|<impl \[T\]>::iter(_mut)?|Vec::<T, A>::(iter|drain))$")
        def iter_(I, st, fr, nm, args, t, site):
            if not fr.fn.file.startswith("flowsdk_ffi"):
                return None
            v = V(I, st, args[0])
            if nm.endswith("drain"):
                if not re.search(r"RangeFull", " ".join(str(x) for x in t["f"].get("g") or ())):
                    return None
                p = args[0].a[0]
                while read(st, p).k == "ref":
                    p = read(st, p).a[0]
                write(st, p, mk("vnew"))
            return [(st, v)] if v.k == "iter" else [(st, mk("iter", v, ()))]

        @hook(r"Iterator(>|)::(map|filter_map|cloned|copied)$")
        def map_(I, st, fr, nm, args, t, site):
            v = args[0]
            if v.k != "iter":
                return None
            if nm.endswith(("cloned", "copied")):
                return [(st, v)]
            return [(st, mk("iter", v.a[0], v.a[1] + ((nm.rsplit("::", 1)[1], args[1]),)))]

        @hook(r"Iterator(>|)::collect$")
        def collect(I, st, fr, nm, args, t, site):
            v = args[0]
            if v.k != "iter":
                return None
            return self.collected(I, st, fr, v, t, site)

        @hook(r"NonNull::<T>::as_ptr$|<impl \*(const|mut) T>::cast(_mut|_const)?$|NonNull::<T>::(cast|new_unchecked)$")
        def asptr(I, st, fr, nm, args, t, site):
            return [(st, args[0])]

        @hook(r"Iterator(>|)::next$")
        def next_(I, st, fr, nm, args, t, site):
            v = V(I, st, args[0])
            if v.k != "iter":
                return None
            sts = self.element(I, st, fr, v.a[0], v.a[1], t, site)
            return sts and [(s, NONE if x is None else some(x)) for s, x in sts]

        @hook(r"(as std::iter::Extend<.*>>::extend|Vec::<T, A>::(extend_from_slice|append))$")
        def extend(I, st, fr, nm, args, t, site):
            a, v = args[0], V(I, st, args[1])
            if not fr.fn.file.startswith("flowsdk_ffi") or a.k != "ref":
                return None
            p = a.a[0]
            while read(st, p).k == "ref":
                p = read(st, p).a[0]
            if v is NONE:
                return [(st, UNIT)]
            if v.k == "adt" and v.a[1] == "Some":
                write(st, p, mk("vpush", read(st, p), v.a[3][0]))
                return [(st, UNIT)]
            if nm.endswith("append") and args[1].k == "ref":
                write(st, args[1].a[0], mk("vnew"))
            out = []
            for s, x in self.collected(I, st, fr, v, t, site) if v.k == "iter" else [(st, v)]:
                write(s, p, mk("cat", read(s, p), x))
                out.append((s, UNIT))
            return out

        self.stubs, self.types = stub, {}
        super().__init__(H)

    # ---- obligations
    def say(self, fr, t, what):
        k = (fr.fn.id, what)
        self.bad.setdefault(k, 0)
        self.bad[k] += 1

    def need(self, st, fr, ptr, what, t):
        self.derefs += 1
        if not nonnull(st, ptr):
            self.say(fr, t, f"{what} through {show(ptr)[:80]}, which may be null")

    def collected(self, I, st, fr, v, t, site):
        """the list an iterator yields, with what happens to an element on the way"""
        if not v.a[1]:
            return [(st, v.a[0])]
        r, out = mk("coll", *v.a), []
        sts = self.element(I, st.copy(), fr, v.a[0], v.a[1], t, site)
        if sts is None:
            return [(st, r)]
        for s, x in sts:
            if not any(e[1] is r for e in trace(s, "eachc")):
                note(s, "eachc", r, x)
            if all(op == "map" for op, _ in v.a[1]):
                absint.add_ge(s, lsub(len_of(r), len_of(v.a[0])))
                absint.add_ge(s, lsub(len_of(v.a[0]), len_of(r)))
            out.append((s, r))
        return out

    def element(self, I, st, fr, base, fns, t, site):
        """one element stands for all of them: [(state, element or None)], None the second time"""
        while base.k == "coll":
            got = [e for e in trace(st, "eachc") if e[1] is base]
            if got:
                break
            base, fns = base.a[0], base.a[1] + fns
        if any(e[1] is base for e in trace(st, "each")):
            return [(st, None)]
        if base.k == "coll":
            if got[0][2] is None:
                return [(st, None)]
            st0, sts = st.copy(), [(st, got[0][2])]
            note(st, "each", base, ())
        else:
            st0, x = st.copy(), mk("each", base)
            sts = []
            for s, bits in self.split(st, base, x):
                absint.add_ge(s, ladd(len_of(base), K(-1)))
                note(s, "each", base, bits)
                sts.append((s, x))
        drop = [(st0, None)]
        for op, fn in fns:
            out = []
            for s, x in sts:
                for s2, r in I.invoke(fr, s, site, fn, [x], t, 0):
                    if op == "map":
                        out.append((s2, r))
                    elif r is NONE:
                        drop.append((s2, None))
                    elif r.k == "adt" and r.a[1] == "Some":
                        out.append((s2, r.a[3][0]))
                    elif r.k != "adt":
                        return None
            sts = out
        return drop + sts

    def split(self, st, base, x):
        """the element of an array of C structs with each of its pointers null or not; that of a list of enum values of each kind"""
        m = re.search(r"Vec<([\w:]+)>$", self.types.get(base, ""))
        if m and m.group(1) in self.p.adts and self.p.adts[m.group(1)]["enum"]:
            out = []
            for v in self.p.adts[m.group(1)]["vs"]:
                y = st.copy()
                if absint.set_var(y, x, v["n"]):
                    out.append((y, (("kind", v["n"]),)))
            return out
        ty = re.sub(r"^\*(const|mut) ", "", base.a[0].a[2]) if base.k == "cbytes" and base.a[0].k == "ptr" else None
        sts = [(st, ())]
        for fld, t in [(g[0], g[1]) for g in self.p.adts[ty]["vs"][0]["fs"]] if ty in self.p.adts else []:
            if not t.startswith("*"):
                continue
            out = []
            for s, bits in sts:
                for b in (False, True):
                    y = s.copy()
                    if absint.assume(y, null(mk("pr", mk("deref", x), "f:" + fld)), b):
                        out.append((y, bits + ((fld, b),)))
            sts = out
        return sts

    def on_deref(self, I, st, fr, place, ptr):
        if fr.fn.file.startswith("flowsdk_ffi") and fr.fn.locals[place[0]].startswith("*") and unbox(ptr).k != "bslice":
            self.need(st, fr, ptr, "memory is accessed", None)

    def nonul(self, I, st, v, t):
        """can the string be known to contain no NUL?"""
        while v.k in ("pr", "copyof", "slv", "sl"):
            v = v.a[0]
        if v.k == "call":
            # JSON escapes control characters
            if v.a[0] == "serde_json::to_string":
                return True
            x = v.a[1]
            return v.a[0].endswith("<impl str>::replace") and x[1] is K(0) and x[2].k == "s" and "\0" not in x[2].a[0]
        return v.k in ("cstr", "text") or v.k == "s" and "\0" not in v.a[0]

    def on_call(self, I, st, fr, nm, f, args, t, bb, site):
        m = IMPL.match(nm) if self.stubs else None
        if m and m.group(2) == "QuicMqttEngine" and m.group(3) == "new":
            m = None        # never fails: followed
        if m:
            self.calls += 1
            vals = tuple(codec.value_of(I, st, a) if i else a for i, a in enumerate(args))
            note(st, "call", m.group(2), m.group(3), vals[1:] if args and absint_self(self.p, nm) else vals, args[0] if args and absint_self(self.p, nm) else None)
            dty = fr.fn.locals[t["d"][0]] if len(t["d"]) == 1 else "()"
            r = UNIT if dty == "()" else I.typed(mk("in", "result", m.group(3), len(trace(st, "call"))), dty)
            self.types[r] = dty
            return [(st, r)]
        return super().on_call(I, st, fr, nm, f, args, t, bb, site)


def absint_self(p, nm):
    f = p.fns.get(nm)
    return f is not None and f.nargs and re.match(r"&(mut )?flowsdk::mqtt_client::\w+::\w*MqttEngine$", f.locals[1])


def run(p, f, cl=None, prep=None):
    """exits of an extern function: (client, interpreter, arguments, [(state, result)])"""
    cl = cl or Ffi(p)
    I = absint.Interp(p, cl)
    I.use_summaries = False
    I.force_unroll = 4      # an element stands for all: loops over a list end after two rounds
    st = absint.St()
    st.auto = ()
    a = []
    for i, v in enumerate(I.root_args(f, st)):
        ty = f.locals[i + 1]
        a.append(mk("ptr", i, argname(f, i), ty) if ty.startswith("*") else v)
    if prep:
        prep(I, st, a)
    old = absint.PARTITION[0]
    absint.PARTITION[0] = lambda I, st: (st.auto,) + engine.by_input(I, st)
    try:
        outs = I.analyze(f, st, a)
    finally:
        absint.PARTITION[0] = old
    return cl, I, a, outs


def argname(f, i):
    ns = f.d.get("argnames") or f.d.get("names") or []
    return ns[i] if i < len(ns) and ns[i] else f"argument {i}"
