"""Certificates are verified unless the user asked otherwise; TLS options take effect."""
import re
import absint, aio, builders as bld, engine, ffi
from absint import read, write, len_of
from engine import possible, same
from rules import p26
from terms import *

RULE = ("Abstract interpretation of every function that builds a TLS client configuration (rustls for QUIC, for TCP and for the C interface; native-tls), for arbitrary options, to the point where the configuration is used. "
        "On each path: a verifier of the crate's own replaces the library's exactly when the corresponding option is known to be set (one that only relaxes host names must refuse whatever the library's verifier refuses for another reason); the trust anchors are exactly the configured ones or the system's; client certificate and key are used when configured; ALPN, early data and key logging are as configured; the configuration built is the one the connection uses, with the host name of the address. "
        "Every call that can disable verification lies in one of these functions. Builders: each setter reaches the field of the same name and dangerous options start off. URL scheme: a TLS or QUIC address never leads to another transport, and the options of the client reach the transport's.")
THOROUGH_CONFIGS = ("default", "lax")
DANGER = re.compile(r"::dangerous$|with_custom_certificate_verifier$|set_certificate_verifier$|danger_accept_invalid_(certs|hostnames)$|::DangerousClientConfigBuilder::")


def run(c):
    p = c.prog()
    seen = set()
    made = quic(c, p, seen) + rustls_tcp(c, p, seen) + native(c, p, seen) + ffi_config(c, p, seen)
    c.count("configuration builders", made)
    c.ob("TLS: builders of configurations found", made >= (4 if c.config == "all" else 2), f"{made}", "src/mqtt_client/transport")
    sites = 0
    for f in p.fns.values():
        if f.id.startswith("mqtt_ring_bench") or "::tests::" in f.id:
            continue
        for b in f.blocks:
            t = b["t"] if isinstance(b, dict) else b.t
            if t["t"] == "call" and isinstance(t.get("f"), dict) and DANGER.search(str(t["f"].get("f"))) and not str(t["f"]["f"]).startswith("flowsdk"):
                sites += 1
                c.ob(f"verification is only relaxed where a configuration is built: {f.id}", f.id in seen, t["f"]["f"], engine.where(f))
    c.count("calls that can relax verification", sites)
    builders(c, p)
    scheme(c, p)
    engines(c, p)
    c_options(c, p)


def mentions(v, x):
    return any(s is x for s in subterms(v))


def unref(st, v):
    for _ in range(6):
        if v.k != "ref":
            break
        v = read(st, v.a[0])
    return v


def leaf(v):
    """what a chain of conversions of one value started from"""
    return v


def bool_is(st, flag, val):
    """is the option known to be val on this path?"""
    return not possible(st, ("eq", flag, 0 if val else 1))


def opt_is(st, o, some_):
    return not possible(st, ("var", o, "None" if some_ else "Some"))


def known(st, *opts):
    """what is known of these options, to keep paths apart"""
    return tuple(str(st.var.get(o)) + str(st.eqs.get(o)) for o in opts)


def deep(st, v, n=8):
    """v with references followed"""
    out = [v]
    for s in list(subterms(v)):
        if s.k == "ref" and n:
            out += deep(st, read(st, s.a[0]), n - 1)
    return out


def reaches(st, v, x):
    return any(mentions(w, x) for w in deep(st, v))


class Tls:
    """rustls and its helpers, as far as a configuration is concerned"""

    def __init__(self, ob, custom):
        self.ob, self.custom = ob, custom       # custom(st): the configured trust anchors (a term), known to be there
        self.auto = ()
        self.verifiers = []

    def get(self, st):
        return dict(st.auto or ())

    def set(self, st, **kw):
        d = self.get(st)
        for k, v in kw.items():
            d[k] = v
            if v is None:
                del d[k]
        st.auto = tuple(sorted(d.items(), key=lambda x: x[0]))

    def origin(self, st, v):
        vs = deep(st, v)
        if any(mentions(w, NATIVE) for w in vs):
            return "system"
        cu = self.custom(st)
        if any(mentions(w, x) for w in vs for x in cu):
            return "configured"

    def hooks(self):
        ob = self.ob

        def simple(name, n=None):
            def h(I, st, fr, nm, args, t, site):
                return [(st, mk(name, *[unref(st, a) for a in args]))]
            return h

        def native(I, st, fr, name, args, t, site):
            self.set(st, loaded=1)
            s2 = st.copy()
            if not fr.fn.locals[t["d"][0]].startswith("std::result::Result"):
                return [(st, NATIVE)]
            return [(st, ok(NATIVE)), (s2, err(mk("in", "no system certificates")))]

        def empty(I, st, fr, name, args, t, site):
            return [(st, mk("roots"))]

        def pend(st, what):
            ob("every certificate read is trusted or an error is returned", "pend" not in self.get(st), what)
            self.set(st, pend=None)

        def add(I, st, fr, name, args, t, site):
            o = self.origin(st, args[1])
            ob("trust anchors come from the configuration or the system", o is not None, show(args[1])[:120])
            self.set(st, pend=None, **({o: 1} if o else {}))
            s2 = st.copy()
            return [(st, ok(UNIT)), (s2, err(mk("in", "bad certificate")))]

        def addall(I, st, fr, name, args, t, site):
            o = self.origin(st, args[1])
            ob("trust anchors come from the configuration or the system", o is not None, show(args[1])[:120])
            self.set(st, **({o: 1, "walked " + o: 1} if o else {}))
            return [(st, mk("tup", (mk("in", "added"), mk("in", "ignored"))))]

        def nexth(I, st, fr, name, args, t, site):
            it = unref(st, args[0])
            o = self.origin(st, it)
            if o is None:
                return [(st, NONE)] if any(y.k == "vnew" for x in deep(st, it) for y in subterms(x)) else None
            pend(st, "the next is read before")
            s2 = st.copy()
            self.set(s2, **{"walked " + o: 1})
            self.set(st, pend=1)
            src = NATIVE if o == "system" else self.custom(st)[0]
            return [(st, some(mk("one of", src))), (s2, NONE)]

        def filt(I, st, fr, name, args, t, site):
            ob("no certificate is left out on purpose", not (self.origin(st, args[0]) and name.endswith(("::filter", "::skip", "::take", "::step_by", "::take_while", "::skip_while"))), name)
            return [(st, mk("view", args[0]))]

        def into(I, st, fr, name, args, t, site):
            v = args[0]
            o = self.origin(st, v)
            if o is None:
                return None
            return [(st, mk("view", NATIVE if o == "system" else self.custom(st)[0]))]

        def clone(I, st, fr, name, args, t, site):
            return [(st, unref(st, args[0]))]

        def auth(I, st, fr, name, args, t, site):
            s2 = st.copy()
            return [(st, ok(mk("tls config", args[0], args[1], args[2]))), (s2, err(mk("in", "bad client certificate")))]

        def noauth(I, st, fr, name, args, t, site):
            return [(st, mk("tls config", args[0], NONE, NONE))]

        def setv(I, st, fr, name, args, t, site):
            self.set(st, over=unref(st, args[1]))
            return [(st, UNIT)]

        def dang(I, st, fr, name, args, t, site):
            return [(st, args[0])]

        def keylog(I, st, fr, name, args, t, site):
            return [(st, KEYLOG)]

        def withroots(I, st, fr, name, args, t, site):
            pend(st, "the store is used before")
            return [(st, mk("verify with", unref(st, args[1])))]

        def opened(I, st, fr, name, args, t, site):
            s2 = st.copy()
            self.set(s2, unread=1)
            return [(st, ok(mk("file", args[0]))), (s2, err(mk("in", "cannot open")))]

        def pem(I, st, fr, name, args, t, site):
            return [(st, mk("pem", unref(st, args[0])))]

        def pemkey(I, st, fr, name, args, t, site):
            s2, s3 = st.copy(), st.copy()
            self.set(s2, unread=1)
            self.set(s3, unread=1)
            return [(st, ok(some(mk("pem key", unref(st, args[0]))))), (s2, ok(NONE)), (s3, err(mk("in", "no key")))]

        def isempty(I, st, fr, name, args, t, site):
            v = unref(st, args[0])
            if not any(s.k in ("pem", "file") for s in subterms(v)):
                return None
            s2 = st.copy()
            self.set(s2, unread=1)
            return [(st, K(0)), (s2, K(1))]
        IT = r"(IntoIterator|Iterator)(<.*>)?(>|)::"
        return [(re.compile(r"rustls_native_certs::load_native_certs$"), native), (re.compile(r"RootCertStore::empty$"), empty), (re.compile(r"RootCertStore::add$"), add),
                (re.compile(r"RootCertStore::add_parsable_certificates"), addall), (re.compile(r"Iterator(>|)::next$"), nexth),
                (re.compile(r"Iterator(>|)::(filter|skip|take|step_by|take_while|skip_while|map|filter_map|flatten|flat_map|cloned|copied|collect|by_ref)$"), filt),
                (re.compile(IT + r"into_iter$|slice::<impl \[T\]>::iter$|Vec<.*>::iter$"), into), (re.compile(r"RootCertStore as std::clone::Clone>::clone$"), clone),
                (re.compile(r"::with_custom_certificate_verifier$"), lambda I, st, fr, n, a, t, s: [(st, mk("own verifier", unref(st, a[1])))]),
                (re.compile(r"::with_root_certificates$"), withroots), (re.compile(r"::with_client_auth_cert$"), auth), (re.compile(r"::with_no_client_auth$"), noauth),
                (re.compile(r"rustls::ClientConfig::dangerous$"), dang), (re.compile(r"::set_certificate_verifier$"), setv), (re.compile(r"rustls::KeyLogFile::new$"), keylog),
                (re.compile(r"std::fs::File::open$"), opened), (re.compile(r"BufReader.*::new$"), lambda I, st, fr, n, a, t, s: [(st, mk("reader", unref(st, a[0])))]),
                (re.compile(r"rustls_pemfile::certs$"), pem), (re.compile(r"rustls_pemfile::private_key$"), pemkey), (re.compile(r"Vec::<T, A>::is_empty$"), isempty)]

    def judge(self, st, cfg, flags, custom_set, custom_none, chain, key, alpn, log, system=None, early=None, lenient=False, names=None, alpn_default=False):
        """is cfg what the options ask for?  flags: options that disable verification; names: the one that relaxes host names only"""
        ob = self.ob
        d = self.get(st)
        ob("every certificate read is trusted or an error is returned", "pend" not in d, "the store is used before")
        fields = {}
        v = cfg
        while v.k == "upd":
            fields.setdefault(v.a[1][0][2:] if len(v.a[1]) == 1 else str(v.a[1]), v.a[2])
            v = v.a[0]
        if v.k != "tls config":
            ob("the configuration is one built here", False, show(v)[:150])
            return
        ver = v.a[0]
        own = d.get("over")
        if own is None and ver.k == "own verifier":
            own = ver.a[0]
        alloff = all(bool_is(st, x, False) for x in flags + ([names] if names is not None else []))
        off = any(bool_is(st, x, True) for x in flags)
        if own is not None:
            if off:
                ob("verification is off when the option says so", True)
            elif names is not None and bool_is(st, names, True):
                self.verifiers.append((st, own))
                ob("accepting any host name keeps the rest of the verification", own.k == "adt", show(own)[:100])
            else:
                ob("verification is replaced only when an option says so", False, f"{show(own)[:60]} although the options may be off")
        else:
            ob("verification is replaced only when an option says so", True)
            ob("verification is off when the option says so", not any(possible(st, ("eq", x, 1)) for x in flags), "an option to skip it has no effect")
            good = ver.k == "verify with"
            ob("the library verifies against the trust anchors", good, show(ver)[:100])
        if not off:
            # trust anchors
            sys_ok = bool_is(st, system, True) if system is not None else custom_none(st)
            ob("the system's trust anchors are used only when configured so", "system" not in d or sys_ok, "others were configured")
            ob("configured trust anchors are all added", custom_none(st) or "walked configured" in d or "unread" in d and lenient, "they are not")
            if system is not None:
                ob("the system's trust anchors are used when configured so", bool_is(st, system, False) or "loaded" in d, "they are not read")
            else:
                ob("the system's trust anchors are used when configured so", custom_set(st) or "loaded" in d, "they are not read")
        ch, ke = v.a[1], v.a[2]
        if ch is NONE:
            none = lambda o: opt_is(st, o, False)
            ob("a configured client certificate is used", none(chain) or none(key) or lenient and "unread" in d, "it is not")
        else:
            ob("the client certificate is the configured one", reaches(st, ch, engine.pay(chain, "Some")) and reaches(st, ke, engine.pay(key, "Some")), f"{show(ch)[:70]}, {show(ke)[:70]}")
        a = fields.get("alpn_protocols")
        if a is None:
            ob("the configured ALPN protocols are offered", not alpn_default and not possible(st, ("ne", len_of(alpn), 0)), "none is")
        else:
            dflt = alpn_default and not possible(st, ("ne", len_of(alpn), 0))
            ob("the configured ALPN protocols are offered", dflt or reaches(st, a, alpn), show(a)[:100])
        k = fields.get("key_log")
        if k is None:
            ob("keys are logged only when configured", True)
            ob("keys are logged when configured", not possible(st, ("eq", log, 1)), "they are not")
        else:
            ob("keys are logged only when configured", bool_is(st, log, True), "the option may be off")
        if early is not None:
            e = fields.get("enable_early_data")
            ob("early data is used only when configured", e is None or same(st, e, early) or e is K(0), show(e)[:60] if e is not None else "")
            ob("early data is used when configured", e is not None and same(st, e, early) or not possible(st, ("eq", early, 1)), "it is not")
        extra = set(fields) - {"alpn_protocols", "key_log", "enable_early_data"}
        ob("nothing else of the configuration is changed", not extra, ", ".join(sorted(extra)))


NATIVE = mk("in", "system certificates")
KEYLOG = mk("in", "key log file")
STD = ("verification is replaced only when an option says so", "verification is off when the option says so", "the library verifies against the trust anchors", "a configured client certificate is used", "the client certificate is the configured one",
       "the configured ALPN protocols are offered", "keys are logged only when configured", "keys are logged when configured", "trust anchors come from the configuration or the system")


def F(v, n):
    return engine.fget(v, n)


def quic(c, p, seen):
    fs = [f for f in p.fns.values() if f.id.endswith("::QuicTransport::connect_with_config") and f.d["vis"] == "Public"]
    if not fs:
        return 0
    f = aio.body(p, fs[0].id)
    if not c.anchor("QUIC connect", [f] if f else []):
        return 0
    ob = engine.Agg(c, "TLS for QUIC", engine.where(fs[0]))
    addr, cfg = [], []

    def prep(I, st, a):
        st.auto = ()
        i = [n for n in range(fs[0].nargs) if "QuicConfig" in fs[0].locals[n + 1]][0]
        cfg.append(F(a[0], str(i)))
        addr.append(F(a[0], str(1 - i)))
    T = Tls(ob, lambda st: [engine.pay(F(cfg[0], "custom_root_certs"), "Some")])
    JUDGED = mk("in", "the configuration built")

    def sink(I, st, fr, name, args, t, site):
        o = cfg[0]
        cu = F(o, "custom_root_certs")
        T.judge(st, unref(st, args[0]), [F(o, "insecure_skip_verify")], lambda s: opt_is(s, cu, True), lambda s: opt_is(s, cu, False), F(o, "client_cert_chain"), F(o, "client_private_key"), F(o, "alpn_protocols"), F(o, "enable_key_log"), early=F(o, "enable_0rtt"))
        s2 = st.copy()
        return [(st, ok(JUDGED)), (s2, err(mk("in", "unusable configuration")))]

    def setc(I, st, fr, name, args, t, site):
        good = reaches(st, args[1], JUDGED)
        ob("the connection uses the configuration built", good, show(args[1])[:100])
        T.set(st, used=1 if good else 0)
        return [(st, UNIT)]

    def conn(I, st, fr, name, args, t, site):
        good = T.get(st).get("used") == 1 if name.endswith("::connect") else reaches(st, args[1], JUDGED)
        ob("the connection uses the configuration built", good, "another is used")
        ob("the certificate is checked for the host of the address", reaches(st, args[-1], addr[0]), show(args[-1])[:100])
        return [(st, mk("call", name, tuple(args), site))]
    hooks = aio.hooks() + [(re.compile(r"QuicClientConfig as .*try_from$"), sink), (re.compile(r"Endpoint::set_default_client_config$"), setc), (re.compile(r"Endpoint::connect(_with)?$"), conn),
                             (re.compile(r"quinn_proto::ClientConfig::(transport_config|version|token_store|initial_dst_cid_provider)$"), lambda I, st, fr, n, a, t, s: [(st, a[0])])] + T.hooks()
    I, cl, a, st0, outs = engine.run(p, f, hooks=hooks, prep=prep, part=lambda I, st: (st.auto,), budget=2000000)
    seen |= {x for x in I.fns_seen}
    ob.paths += len(outs)
    ob.close("early data is used only when configured", "early data is used when configured", "the connection uses the configuration built", "the certificate is checked for the host of the address", *STD)
    return 1


def rustls_tcp(c, p, seen):
    fs = [f for f in p.fns.values() if f.id.endswith("::RustlsTlsConfig::to_client_config") and f.d["vis"] == "Public"]
    if not fs:
        return 0
    f = fs[0]
    ob = engine.Agg(c, "TLS over TCP (rustls)", engine.where(f))
    me = []

    def prep(I, st, a):
        st.auto = ()
        me.append(unref(st, a[0]))
    T = Tls(ob, lambda st: [F(me[0], "custom_root_certs")])
    I, cl, a, st0, outs = engine.run(p, f, hooks=T.hooks(), prep=prep, part=lambda I, st: (st.auto, known(st, *[F(me[0], n) for n in ("client_cert_chain", "client_private_key")])), budget=2000000)
    seen |= {x for x in I.fns_seen}
    o = me[0]
    for st, r in outs:
        ob.paths += 1
        if r.k == "adt" and r.a[1] == "Err":
            continue
        cu = F(o, "custom_root_certs")
        T.judge(st, engine.pay(r, "Ok") if r.k == "adt" else r, [F(o, "danger_accept_invalid_certs")], lambda s: True, lambda s: not possible(s, ("ne", len_of(cu), 0)), F(o, "client_cert_chain"), F(o, "client_private_key"), F(o, "alpn_protocols"), F(o, "enable_key_log"),
                system=F(o, "use_system_roots"), names=F(o, "danger_accept_invalid_hostnames"))
    ob.close("accepting any host name keeps the rest of the verification", *STD)
    relaxed(c, p, T.verifiers, seen)

    # the connection
    fs = [f for f in p.fns.values() if f.id.endswith("::RustlsTlsTransport::connect_with_config") and f.d["vis"] == "Public"]
    g = aio.body(p, fs[0].id) if fs else None
    if not c.anchor("TLS connect (rustls)", [g] if g else []):
        return 1
    ob = engine.Agg(c, "TLS connect (rustls)", engine.where(fs[0]))
    BUILT = mk("in", "the configuration built")
    args_ = {}

    def prep2(I, st, a):
        st.auto = ()
        i = [n for n in range(fs[0].nargs) if "RustlsTlsConfig" in fs[0].locals[n + 1]][0]
        args_["cfg"], args_["addr"] = F(a[0], str(i)), F(a[0], str(1 - i))

    def tcc(I, st, fr, name, args, t, site):
        ob("the configuration is built from the options given", unref(st, args[0]) is args_["cfg"], show(unref(st, args[0]))[:80])
        s2 = st.copy()
        return [(st, ok(BUILT)), (s2, err(mk("in", "bad configuration")))]

    def conn2(I, st, fr, name, args, t, site):
        ob("the connection uses the configuration built", reaches(st, args[0], BUILT), show(unref(st, args[0]))[:100])
        ob("the certificate is checked for the host of the address", reaches(st, args[1], args_["addr"]), show(args[1])[:100])
        return [(st, mk("call", name, tuple(args), site))]
    hooks = aio.hooks() + [(re.compile(r"::to_client_config$"), tcc), (re.compile(r"tokio_rustls::TlsConnector::connect(_with)?$"), conn2), (re.compile(r"TlsConnector as std::convert::From<.*>>::from$"), lambda I, st, fr, n, a, t, s: [(st, mk("connector", unref(st, a[0])))])]
    I, cl, a, st0, outs = engine.run(p, g, hooks=hooks, prep=prep2, part=lambda I, st: (st.auto,))
    ob.paths += len(outs)
    ob.close("the configuration is built from the options given", "the connection uses the configuration built", "the certificate is checked for the host of the address")
    return 1


def relaxed(c, p, vs, seen):
    """a verifier that accepts any host name must refuse whatever the library refuses for another reason"""
    n = 0
    for own in {v for s, v in vs if v.k == "adt"}:
        st0 = next(s for s, v in vs if v is own)
        ty = own.a[0]
        f = [f for f in p.fns.values() if f.id.startswith("<" + ty + " as ") and f.id.endswith("::verify_server_cert")]
        if not c.anchor("verification without host names", f):
            continue
        f = f[0]
        ob = engine.Agg(c, f"TLS verifier {ty.rsplit('::', 1)[-1]}", engine.where(f))

        def lib(I, st, fr, name, args, t, site):
            s2 = st.copy()
            st.auto = "valid" if all(unref(st, x) is unref(st, y) or x is y for x, y in zip(args[1:], A[1:])) else "other"
            s2.auto = "refused" if st.auto == "valid" else "other"
            return [(st, ok(mk("in", "verified"))), (s2, err(ERR))]
        ERR = mk("in", "refusal")
        A = []
        NAMES = dict(x for b in f.blocks for s in (b["s"] if isinstance(b, dict) else b.s) if s[0] == "=" and s[2].get("ty") == "rustls::CertificateError" and s[2].get("vn") for x in s[2]["vn"])

        def prep(I, st, a):
            A[:] = a
            st.auto = ""
        I, cl, a, st1, outs = engine.run(p, f, hooks=[(re.compile(r"WebPkiServerVerifier as .*::verify_server_cert$|ServerCertVerifier::verify_server_cert$"), lib)], prep=prep, part=lambda I, st: (st.auto, tuple(sorted((id(k), d) for k, d in st.eqs.items() if k.k == "discr"))))
        for st, r in outs:
            ob.paths += 1
            if r.k == "adt" and r.a[1] == "Ok":
                if st.auto == "refused":
                    left = {d for k, d in st.eqs.items() if k.k == "discr" and k.a[1] == "rustls::CertificateError" and mentions(k.a[0], ERR)}
                    ob("only a wrong host name is forgiven", left and all(NAMES.get(d, "").startswith("NotValidForName") for d in left), ", ".join(sorted(NAMES.get(d, "?") for d in left)) or "any refusal")
                else:
                    ob("the library's verification comes first", st.auto == "valid", "the certificate is not looked at")
        ob.close("the library's verification comes first", "only a wrong host name is forgiven")
        for m in ("verify_tls12_signature", "verify_tls13_signature"):
            g = [g for g in p.fns.values() if g.id.startswith("<" + ty + " as ") and g.id.endswith("::" + m)]
            if not c.anchor(f"{m} without host names", g):
                continue
            ob = engine.Agg(c, f"TLS verifier {ty.rsplit('::', 1)[-1]}::{m}", engine.where(g[0]))
            RES = mk("in", "verdict on the signature")
            I, cl, a, st1, outs = engine.run(p, g[0], hooks=[(re.compile(m + "$"), lambda I, st, fr, n, args, t, s: [(st, RES)])], part=lambda I, st: ())
            for st, r in outs:
                ob.paths += 1
                ob("signatures are verified by the library", r is RES or r.k == "adt" and r.a[1] == "Err", show(r)[:80])
            ob.close("signatures are verified by the library")
        n += 1
    c.count("relaxed verifiers", n)


def native(c, p, seen):
    fs = [f for f in p.fns.values() if f.id.endswith("::TlsTransport::connect_with_config") and "Rustls" not in f.id and f.d["vis"] == "Public"]
    if not fs:
        return 0
    g = aio.body(p, fs[0].id)
    if not c.anchor("TLS connect (native)", [g] if g else []):
        return 0
    set_ = setters(p, "TlsConfigBuilder", "TlsConfig")
    certs, names = set_.get("danger_accept_invalid_certs"), set_.get("danger_accept_invalid_hostnames")
    fl = [n for n, t in engine.fields(p, next(a for a in p.adts if a.endswith("tls::TlsConfig") and "rustls" not in a)).items()]
    ty = engine.fields(p, next(a for a in p.adts if a.endswith("tls::TlsConfig") and "rustls" not in a))
    ident = [n for n in fl if "Identity" in ty[n]]
    roots = [n for n in fl if "Certificate" in ty[n]]
    if not c.anchor("options of native TLS", [x for x in (certs, names) if x] + ident + roots, 4):
        return 1
    ob = engine.Agg(c, "TLS over TCP (native)", engine.where(fs[0]))
    A = {}
    get = lambda st: dict(st.auto or ())

    def put(st, **kw):
        d = get(st)
        for k, v in kw.items():
            d[k] = v
            if v is None:
                del d[k]
        st.auto = tuple(sorted(d.items(), key=lambda x: x[0]))

    def prep(I, st, a):
        st.auto = ()
        i = [n for n in range(fs[0].nargs) if "TlsConfig" in fs[0].locals[n + 1]][0]
        r = F(a[0], str(i))
        write(st, (("G", "cfg"),), mk("in", "options"))
        A["cfg"], A["addr"] = mk("in", "options"), F(a[0], str(1 - i))
        # the options are behind a reference
        A["ref"] = r

    def fld(n):
        return F(deref_of(A["ref"]), n)

    def builder(I, st, fr, name, args, t, site):
        return [(st, mk("native builder"))]

    def dangh(which):
        def h(I, st, fr, name, args, t, site):
            flag = fld(which)
            ob("verification is relaxed only when its option says so", same(st, args[1], flag) or args[1] is K(0) or bool_is(st, flag, True), f"{name.rsplit('::', 1)[1]}({show(args[1])[:40]})")
            put(st, **{which: same(st, args[1], flag) or args[1] is K(1)})
            return [(st, args[0])]
        return h

    def addroot(I, st, fr, name, args, t, site):
        ob("trust anchors added are the configured ones", reaches(st, args[1], fld(roots[0])), show(args[1])[:100])
        put(st, pend=None)
        return [(st, args[0])]

    def identity(I, st, fr, name, args, t, site):
        ob("the client certificate is the configured one", reaches(st, args[1], engine.pay(fld(ident[0]), "Some")), show(args[1])[:100])
        put(st, ident=1)
        return [(st, args[0])]

    def nobuiltin(I, st, fr, name, args, t, site):
        ob("the library's own checks stay on", False, name)
        return [(st, args[0])]

    def nexth(I, st, fr, name, args, t, site):
        it = unref(st, args[0])
        if not reaches(st, it, fld(roots[0])):
            return None
        ob("every configured trust anchor is added", "pend" not in get(st), "the next is read before")
        s2 = st.copy()
        put(s2, pend=None, walked=1) if "pend" in get(s2) else put(s2, walked=1)
        put(st, pend=1)
        return [(st, some(mk("one of", fld(roots[0])))), (s2, NONE)]

    def part_of(I, st, fr, name, args, t, site):
        if reaches(st, args[0], fld(roots[0])):
            ob("every configured trust anchor is added", False, name)
            return [(st, mk("view", fld(roots[0])))]

    def into(I, st, fr, name, args, t, site):
        return [(st, mk("view", fld(roots[0])))] if reaches(st, args[0], fld(roots[0])) else None

    def build(I, st, fr, name, args, t, site):
        d = get(st)
        for w in (certs, names):
            ob("verification is relaxed when its option says so", d.get(w) or not possible(st, ("eq", fld(w), 1)), f"{w} has no effect")
        ob("every configured trust anchor is added", "walked" in d and "pend" not in d, "they are not")
        ob("a configured client certificate is used", "ident" in d or opt_is(st, fld(ident[0]), False), "it is not")
        s2 = st.copy()
        return [(st, ok(BUILT)), (s2, err(mk("in", "bad options")))]

    def conn(I, st, fr, name, args, t, site):
        ob("the connection uses the configuration built", reaches(st, args[0], BUILT), show(unref(st, args[0]))[:100])
        ob("the certificate is checked for the host of the address", reaches(st, args[1], A["addr"]), show(args[1])[:100])
        return [(st, mk("call", name, tuple(args), site))]
    BUILT = mk("in", "the connector built")
    N = "native_tls::TlsConnectorBuilder::"
    hooks = aio.hooks() + [(re.compile(r"native_tls::TlsConnector::builder$"), builder), (re.compile(r"TlsConnectorBuilder::danger_accept_invalid_certs$"), dangh(certs)), (re.compile(r"TlsConnectorBuilder::danger_accept_invalid_hostnames$"), dangh(names)),
                           (re.compile(r"TlsConnectorBuilder::add_root_certificate$"), addroot), (re.compile(r"TlsConnectorBuilder::identity$"), identity), (re.compile(r"TlsConnectorBuilder::(disable_built_in_roots|use_sni|min_protocol_version|max_protocol_version)$"), nobuiltin),
                           (re.compile(r"Iterator(>|)::(filter|skip|take|step_by|take_while|skip_while|filter_map)$|slice::<impl \[T\]>::(first|last|get|split_first|split_last|chunks)$"), part_of),
                           (re.compile(r"Iterator(>|)::next$"), nexth), (re.compile(r"(IntoIterator|Iterator)(<.*>)?(>|)::into_iter$|slice::<impl \[T\]>::iter$"), into),
                           (re.compile(r"TlsConnectorBuilder::build$"), build), (re.compile(r"tokio_native_tls::TlsConnector::connect$"), conn)]
    I, cl, a, st0, outs = engine.run(p, g, hooks=hooks, prep=prep, part=lambda I, st: (st.auto,))
    seen |= {x for x in I.fns_seen}
    ob.paths += len(outs)
    ob.close("verification is relaxed only when its option says so", "verification is relaxed when its option says so", "trust anchors added are the configured ones", "every configured trust anchor is added", "the client certificate is the configured one",
             "a configured client certificate is used", "the connection uses the configuration built", "the certificate is checked for the host of the address")
    # the plain constructor
    cs = [f for f in p.fns.values() if f.id.startswith("<") and f.id.endswith("tls::TlsTransport as flowsdk::mqtt_client::transport::Transport>::connect::{closure#0}") and "rustls" not in f.id]
    if c.anchor("plain TLS connect (native)", cs):
        ob = engine.Agg(c, "TLS connect (native, no options)", engine.where(cs[0]))

        def cw(I, st, fr, name, args, t, site):
            o = unref(st, args[1])
            for w in (certs, names):
                ob("dangerous options are off", o.k == "adt" and F(o, w) is K(0), show(o)[:100])
            return [(st, mk("in", "connection"))]
        I, cl, a, st0, outs = engine.run(p, cs[0], hooks=aio.hooks() + [(re.compile(r"TlsTransport::connect_with_config$"), cw)], part=lambda I, st: ())
        ob.paths += len(outs)
        ob.close("dangerous options are off")
    return 1


def deref_of(v):
    return mk("deref", v) if v.k != "ref" else v


def ffi_config(c, p, seen):
    fs = [f for f in p.fns.values() if f.id.startswith("flowsdk_ffi::") and re.match(r"std::result::Result<rustls::ClientConfig, |rustls::ClientConfig$|std::sync::Arc<rustls::ClientConfig>", f.locals[0]) and any("MqttTlsOptionsFFI" in f.locals[i + 1] for i in range(f.nargs))]
    if not any(f.startswith("flowsdk_ffi::") for f in p.fns):
        return 0
    if not c.anchor("TLS configuration of the C interface", fs):
        return 0
    f = fs[0]
    ob = engine.Agg(c, "TLS of the C interface", engine.where(f))
    o = []

    def prep(I, st, a):
        st.auto = ()
        o.append(unref(st, a[[i for i in range(f.nargs) if "MqttTlsOptionsFFI" in f.locals[i + 1]][0]]))
    T = Tls(ob, lambda st: [engine.pay(F(o[0], "ca_cert_file"), "Some")])
    I, cl, a, st0, outs = engine.run(p, f, hooks=T.hooks(), prep=prep, part=lambda I, st: (st.auto, known(st, *[F(o[0], n) for n in ("client_cert_file", "client_key_file")])), budget=2000000)
    seen |= {x for x in I.fns_seen}
    x = o[0]
    for st, r in outs:
        ob.paths += 1
        if r.k == "adt" and r.a[1] == "Err":
            continue
        cu = F(x, "ca_cert_file")
        T.judge(st, engine.pay(r, "Ok") if r.k == "adt" else r, [F(x, "insecure_skip_verify")], lambda s: opt_is(s, cu, True), lambda s: opt_is(s, cu, False), F(x, "client_cert_file"), F(x, "client_key_file"), F(x, "alpn_protocols"), F(x, "enable_key_log"), lenient=True, alpn_default=True)
    ob.close(*STD)
    return 1


SEC = re.compile(r"danger|insecure|accept_invalid|skip_verify|key_log")


def tls_builders(p):
    """builders of TLS and QUIC configurations: (builder, build method, configuration)"""
    for b, f, r in bld.find(p):
        if any(SEC.search(n) for n in engine.fields(p, r)):
            yield b, f, r


def setters(p, bty, cty):
    """{setter: the field of the finished configuration that its argument becomes}"""
    out = {}
    for b, f, r in bld.find(p):
        if b.rsplit("::", 1)[1] != bty or r.rsplit("::", 1)[1] != cty:
            continue
        for n, m in bld.methods(p, b):
            ch, a = bld.changes(p, f, r, m)
            if ch and len(ch) == 1:
                k, vs = next(iter(ch.items()))
                if all(v is a[1] for _, _, v in vs):
                    out[n] = k
    return out


def made_of(st, v, x):
    """is v the value x, or x wrapped, or made of x (read from the file or text x)?"""
    return v is x or reaches(st, v, x)


def builders(c, p):
    n = 0
    for b, f, r in tls_builders(p):
        short = b.rsplit("::", 2)
        short = "::".join(short[-2:]) if short[-2] != "imp" else short[-1]
        types = engine.fields(p, r)
        # what a fresh builder finishes as
        news = [g for g in p.fns.values() if "{closure" not in g.id and g.nargs == 0 and g.locals[0] == b and (g.id.startswith(b + "::") or g.id.startswith("<" + b + " as ") or g.id.startswith(r + "::"))]
        c.ob(f"{short}: where a builder comes from", bool(news), "", engine.where(f))
        for g in news:
            I, cl, a, st0, outs = engine.run(p, g, part=lambda I, st: ())
            for st, v in outs:
                for s, o in bld.finish(p, f, v):
                    for fl in types:
                        if SEC.search(fl) and types[fl] == "bool":
                            n += 1
                            x = F(o, fl)
                            if x.k == "default" or F(o, fl).k != "k":
                                x = defaulted(p, o, fl)
                            c.ob(f"{short}: {fl} is off unless asked for", x is K(0), show(x)[:100], engine.where(g))
        for nm, m in bld.methods(p, b):
            ch, a = bld.changes(p, f, r, m)
            if not c.ob(f"{short}::{nm}: followed", ch is not None, "its effect on the configuration is not understood", engine.where(m)):
                continue
            n += 1
            for fl, vs in ch.items():
                if SEC.search(fl):
                    good = all(v is not None and (v is a[1] or v.k == "adt" and v.a[1] == "Some" and v.a[3][0] is a[1]) for _, _, v in vs)
                    c.ob(f"{short}::{nm}: {fl} is what was given", good and related(nm, fl), f"{fl} = {show(vs[0][2])[:80] if vs[0][2] is not None else 'unchanged on some path'}", engine.where(m))
            base = re.sub(r"_from_pem(_files?)?$", "", nm)
            if nm in types or SEC.search(nm):
                fl = nm if nm in types else next((x for x in types if related(nm, x)), None)
                vs = ch.get(fl) if fl else None
                c.ob(f"{short}::{nm}: reaches {fl}", bool(vs) and all(v is not None and made_of(s, v, a[1]) for s, _, v in vs), "it does not, or not always", engine.where(m))
            if re.search(r"tls|quic|root|cert|key|auth|ident|alpn|0rtt", nm):
                # of the credentials and trust anchors too, only those named
                for fl, vs in ch.items():
                    c.ob(f"{short}::{nm}: what is set is made of what was given", all(v is None or any(made_of(s, v, x) or v.k == "phi" for x in a[1:]) for s, _, v in vs), f"{fl} = {show(vs[0][2])[:80] if vs[0][2] is not None else ''}", engine.where(m))
                want = {"r": bool(re.search("root", base)), "c": bool(re.search("client|auth|ident|cert_chain", base)) and not re.search("root|danger", base)}
                kinds = {"r" for fl in ch if re.search("root", fl)} | {"c" for fl in ch if re.search("client|ident", fl)}
                c.ob(f"{short}::{nm}: credentials and trust anchors are not mixed up", kinds <= {k for k in want if want[k]} and (not (want["r"] or want["c"]) or kinds), ", ".join(sorted(ch)) or "nothing is set", engine.where(m))
    c.count("setters of TLS configurations", n)
    c.ob("TLS: setters found", n >= 20, f"{n}", "src/mqtt_client/transport")


def related(nm, fl):
    """a setter's name and a field's: the same apart from the word danger"""
    w = lambda x: set(x.split("_")) - {"danger", "from", "pem", "file", "set", "with"}
    return w(nm) == w(fl)


def defaulted(p, o, fl):
    """the value of a field of a default value, found by running its Default"""
    while o.k == "upd":
        if o.a[1][0] == "f:" + fl:
            return o.a[2]
        o = o.a[0]
    x = o
    if o.k == "default" or o.k == "call":
        ty = str(o.a[0])
        g = p.fns.get(f"<{ty} as std::default::Default>::default")
        if g:
            I, cl, a, st0, outs = engine.run(p, g, part=lambda I, st: ())
            if len(outs) == 1:
                x = outs[0][1]
    v = F(x, fl)
    if v.k == "default" and str(v.a[0]) == "bool":
        return K(0)
    return v


SCHEMES = ("mqtts", "quic", "mqtt")


def scheme(c, p):
    fs = [f for f in p.fns.values() if f.id.endswith("::{closure#0}") and "tokio_async_client::" in f.id and len(
        {str(t["f"]["f"]).rsplit("::", 2)[1] for b in f.blocks for t in [b["t"]] if t["t"] == "call" and isinstance(t.get("f"), dict) and re.search(r"Transport(>|)::connect(_with_config)?$|Transport>::connect$", str(t["f"]["f"]))}) >= 2]
    if not fs and not any("TokioAsyncClient" in f for f in p.fns):
        return
    if not c.anchor("choice of the transport", fs, 1):
        return
    f = fs[0]
    ob = engine.Agg(c, "choice of the transport", engine.where(f))
    cfgt = next(a for a in p.adts if a.endswith("::TokioAsyncClientConfig"))
    get = lambda st: dict(st.auto or ())

    def put(st, **kw):
        d = get(st)
        d.update(kw)
        st.auto = tuple(sorted(d.items()))
    up = {}

    def prep(I, st, a):
        st.auto = ()
        up["0"], up["1"] = F(a[0], "0"), F(a[0], "1")

    def is_peer(st, v):
        v = unref(st, v)
        return v is up["1"] or v.k == "deref" and v.a[0] is up["1"]

    def fork(st, name):
        """states where the scheme is, and is not, this one"""
        d = get(st)
        if "is" in d:
            return (st, None) if d["is"] == name else (None, st)
        if name in d.get("not", ()):
            return (None, st)
        s2 = st.copy()
        put(st, **{"is": name})
        put(s2, **{"not": tuple(sorted(d.get("not", ()) + (name,)))})
        return st, s2

    def const(st, v):
        v = unref(st, v)
        if v.k == "s" and isinstance(v.a[0], str):
            return v.a[0]

    def starts(I, st, fr, name, args, t, site):
        k = const(st, args[1])
        if not is_peer(st, args[0]) or k is None or not k.endswith("://") or k[:-3] not in SCHEMES:
            return None
        y, n = fork(st, k[:-3])
        return [(s, v) for s, v in ((y, K(1)), (n, K(0))) if s is not None]

    def strip(I, st, fr, name, args, t, site):
        k = const(st, args[1])
        if not is_peer(st, args[0]) or k is None or not k.endswith("://") or k[:-3] not in SCHEMES:
            return None
        y, n = fork(st, k[:-3])
        return [(s, v) for s, v in ((y, some(mk("rest", up["1"]))), (n, NONE)) if s is not None]

    def split(I, st, fr, name, args, t, site):
        if not is_peer(st, args[0]) or const(st, args[1]) != "://":
            return None
        out = []
        for k in SCHEMES:
            y, n = fork(st, k)
            if y is not None:
                out.append((y, some(mk("tup", (mk("s", k), mk("rest", up["1"]))))))
            if n is None:
                return out
            st = n
        s2 = st.copy()
        put(s2, **{"is": "other"})
        return out + [(st, NONE), (s2, some(mk("tup", (mk("in", "other scheme"), mk("rest", up["1"])))))]

    def streq(I, st, fr, name, args, t, site):
        vs = [unref(st, unref(st, x)) for x in args[:2]]
        if mk("in", "other scheme") in vs:
            return [(st, K(1 if name.endswith("::ne") else 0))]
        if all(v.k == "s" for v in vs):
            return [(st, K(int((vs[0] is vs[1]) != name.endswith("::ne"))))]

    def opt(path):
        """terms under the client: what is read, by the last parts of the path"""
        return ".".join(path)

    def where_from(v):
        """the path of fields a value was read at, from the client"""
        names, x = [], v
        while x.k in ("fld", "f", "field") or (x.k == "pay"):
            names.append(str(x.a[-1]))
            x = x.a[0]
        return names

    def connected(kind):
        def h(I, st, fr, name, args, t, site):
            d = get(st)
            if kind == "tcp":
                ob("a plain connection is never made to a TLS or QUIC address", d.get("is") in ("mqtt", "other") or {"mqtts", "quic"} <= set(d.get("not", ())), f"the address may be {'mqtts:// or quic://' if 'is' not in d else d['is'] + '://'}")
            else:
                ob(f"a {kind} connection is made to {'quic' if kind == 'QUIC' else 'mqtts'}:// addresses only", d.get("is") == ("quic" if kind == "QUIC" else "mqtts"), str(d.get("is")))
            ob("the address is the one given, without its scheme", reaches(st, args[0], mk("rest", up["1"])) or "is" not in d and made_of(st, args[0], up["1"]) or d.get("is") == "other" and made_of(st, args[0], up["1"]) or sliced(st, args[0], d.get("is")), show(unref(st, args[0]))[:100])
            if kind == "rustls":
                back(st, "Rustls")
                conf(st, unref(st, args[1]), "rustls_tls_config", "RustlsTlsConfig", "enable_key_log", "tls_enable_key_log")
            if kind == "native":
                back(st, "Native")
                conf(st, unref(st, args[1]) if len(args) > 1 else None, "tls_config", "TlsConfig", None, None)
            if kind == "QUIC":
                quic_conf(st, unref(st, args[1]))
            s2 = st.copy()
            return [(st, ok(mk("in", "connection"))), (s2, err(mk("in", "failure")))]
        return h

    def sliced(st, v, k):
        v = unref(st, v)
        return k in SCHEMES and any(s.k == "sl" and reaches(st, s.a[0], up["1"]) and s.a[1] is K(len(k) + 3) for s in deep(st, v) for s in subterms(s))

    def options(st):
        """the options read so far on this path: any atom mentioning them"""
        for k in list(st.var) + list(st.eqs):
            for s in subterms(k):
                if s.k in ("fld", "f", "field") and str(s.a[-1]) == "tls_backend":
                    return s

    def atoms(st, fl):
        out = []
        for k in list(st.var) + list(st.eqs):
            for s in subterms(k):
                if show(s).endswith("." + fl):
                    out.append(s)
        return out

    def back(st, want):
        b = next(iter(atoms(st, "tls_backend")), None)
        other = "Native" if want == "Rustls" else "Rustls"
        pay = engine.pay(b, "Some") if b is not None else None
        no = b is not None and (opt_is(st, b, False) or not possible(st, ("var", pay, other)))
        ob("the TLS backend is the one selected", no, f"{want} is used although {other} may be selected")

    def conf(st, v, fl, ty, log, flag):
        o = next(iter(atoms(st, fl)), None)
        if v is None or o is None:
            ob("the TLS options of the client are used", False, f"{fl} is not looked at")
            return
        base = v
        while base.k == "upd":
            ok_ = log is not None and base.a[1] == ("f:" + log,) and logged(st, base.a[2], flag)
            ob("nothing else is added to the TLS options", ok_, show(base)[-100:])
            base = base.a[0]
        if base.k == "adt" and base.a[1] != "Some" and base.k != "default":
            # field by field
            flds = base.a[2]
            good = all(F(base, n) is F(engine.pay(o, "Some"), n) or n == log and logged(st, F(base, n), flag) for n in flds) or opt_is(st, o, False)
            ob("the TLS options of the client are used", good, show(base)[:120])
            return
        good = base is engine.pay(o, "Some") and opt_is(st, o, True) or opt_is(st, o, False) and (base.k == "default" or base.k == "adt" and base.a[0].endswith("::" + ty))
        ob("the TLS options of the client are used", good, show(base)[:120])

    def logged(st, v, flag):
        fl = [x for x in atoms(st, flag)]
        return any(v is x for x in fl) or v is K(1) and any(bool_is(st, x, True) for x in fl) or any(mentions(v, x) for x in fl)

    def quic_conf(st, v):
        cl = up["cfg"]
        for dst, src in (("insecure_skip_verify", "quic_insecure_skip_verify"), ("enable_0rtt", "quic_enable_0rtt"), ("enable_key_log", "quic_enable_key_log"), ("datagram_receive_buffer_size", "quic_datagram_receive_buffer_size")):
            x, y = F(v, dst), F(cl, src)
            ob(f"QUIC: {src} takes effect", x is y or same(st, x, y), f"{dst} is {show(x)[:60]}")
        for dst, src in (("custom_root_certs", "quic_custom_root_ca_pem"), ("local_bind_addr", "quic_local_bind_addr")):
            x, y = F(v, dst), F(cl, src)
            ob(f"QUIC: {src} takes effect", x is y or x is NONE and opt_is(st, y, False) or x.k == "adt" and x.a[1] == "Some" and opt_is(st, y, True) and reaches(st, x, engine.pay(y, "Some")), f"{dst} is {show(x)[:60]}")
        ce, ke = F(cl, "quic_client_cert_pem"), F(cl, "quic_client_key_pem")
        for dst, y in (("client_cert_chain", ce), ("client_private_key", ke)):
            x = F(v, dst)
            ob("QUIC: the client certificate takes effect", x is NONE and (opt_is(st, ce, False) or opt_is(st, ke, False)) or x.k == "adt" and x.a[1] == "Some" and reaches(st, x, engine.pay(y, "Some")), f"{dst} is {show(x)[:60]}")

    # where the client's configuration is
    me = [a for a in p.adts if a.endswith("::TokioClientWorker")]
    cfgf = [n for n, ty in engine.fields(p, me[0]).items() if ty == cfgt] if me else []
    if not c.anchor("configuration of the tokio client", cfgf, 1):
        return

    def prep2(I, st, a):
        prep(I, st, a)
        w = up["0"]
        up["cfg"] = F(mk("deref", w) if w.k != "deref" else w, cfgf[0])

    def part(I, st):
        return (st.auto,) + tuple(sorted((show(k)[-40:], str(v)) for k, v in list(st.var.items()) + list(st.eqs.items()) if re.search(r"(tls_config|tls_backend|key_log|quic_\w+)$", show(k)) or "tls_backend" in show(k)))
    TR = "flowsdk::mqtt_client::transport::"
    H = aio.hooks(lambda I, st, fut, ty, t, site: [(st, fut)] if fut.k == "adt" else None) + [
        (re.compile(r"str>::starts_with$"), starts), (re.compile(r"str>::strip_prefix$"), strip), (re.compile(r"str>::split_once$"), split), (re.compile(r"(cmp::PartialEq|impl std::cmp::PartialEq.*)::(eq|ne)$|PartialEq.*>::(eq|ne)$"), streq),
        (re.compile(r"RustlsTlsTransport::connect_with_config$"), connected("rustls")), (re.compile(r"tls::TlsTransport::connect_with_config$"), connected("native")),
        (re.compile(r"quic::imp::QuicTransport::connect_with_config$"), connected("QUIC")), (re.compile(r"TcpTransport( as .*>)?::connect$"), connected("tcp")),
        (re.compile(r"(RustlsTls|Tls|Quic)Transport as .*Transport>::connect$"), lambda I, st, fr, n, a, t, s: ob("connections are made with the options of the client", False, n[:120]) and None)]
    I, cl, a, st0, outs = engine.run(p, f, hooks=H, prep=prep2, part=part, budget=2000000)
    ob.paths += len(outs)
    has = lambda x: any(x in g for g in p.fns)
    need = ["a plain connection is never made to a TLS or QUIC address", "the address is the one given, without its scheme"]
    if has("RustlsTlsTransport::connect_with_config"):
        need += ["a rustls connection is made to mqtts:// addresses only"]
    if has("::tls::TlsTransport::connect_with_config"):
        need += ["a native connection is made to mqtts:// addresses only"]
    if has("RustlsTlsTransport::connect_with_config") or has("::tls::TlsTransport::connect_with_config"):
        need += ["the TLS backend is the one selected", "the TLS options of the client are used"]
    if has("QuicTransport::connect_with_config"):
        need += ["a QUIC connection is made to quic:// addresses only", "QUIC: the client certificate takes effect"] + [f"QUIC: quic_{x} takes effect" for x in ("insecure_skip_verify", "custom_root_ca_pem", "enable_key_log", "local_bind_addr")]
    ob.close(*need)


def both(st, x, a, y, b):
    """may x be a and y be b?"""
    s = st.copy()
    return absint.assume(s, x, a) is not False and absint.assume(s, y, b) is not False


def c_options(c, p):
    cty = next((a for a in p.adts if a.endswith("::MqttTlsOptionsC")), None)
    rty = next((a for a in p.adts if a.endswith("::MqttTlsOptionsFFI")), None)
    if not any(f.startswith("flowsdk_ffi::") for f in p.fns):
        return
    if not c.anchor("TLS options of the C interface", [x for x in (cty, rty) if x], 2):
        return
    cfg = [f.id for f in p.fns.values() if f.id.startswith("flowsdk_ffi::") and "rustls::ClientConfig" in f.locals[0] and any(rty in f.locals[i + 1] for i in range(f.nargs))]
    if not cfg:
        return          # built without TLS
    BUILT = mk("in", "the configuration built")
    n = 0
    SINK = re.compile(r"(TlsMqttEngine::new|QuicMqttEngine::connect)$")
    fs = [f for f in p.fns.values() if f.id.startswith("flowsdk_ffi::") and "{closure" not in f.id and not f.d["mac"] and any(f.locals[i + 1] in ("*const " + cty, rty) for i in range(f.nargs)) and f.id not in cfg]
    for f in sorted(fs, key=lambda f: f.id):
        isc = any(f.locals[i + 1] == "*const " + cty for i in range(f.nargs))
        if not isc and not any(x in reach(p, f.id) for x in cfg):
            continue
        i = [i for i in range(f.nargs) if f.locals[i + 1] in ("*const " + cty, rty)][0]
        # the server's name: the last text among the arguments
        names = [k for k in range(f.nargs) if f.locals[k + 1] in ("*const i8", "*const u8", "std::string::String", "&str")][-1:]
        short = f.id.split("::", 2)[-1]
        ob = engine.Agg(c, short, engine.where(f))
        FILES = ("ca_cert_file", "client_cert_file", "client_key_file")
        for nul, given in ((False, ()), (False, FILES), (False, FILES[:1]), (False, FILES[1:2]), (False, FILES[2:]), (True, ())) if isc else ((False, ()),):
            A = []

            def prep(I, st, a):
                A[:] = a
                if isc:
                    absint.assume(st, ffi.null(a[i]), nul)
                    for x in () if nul else FILES:
                        absint.assume(st, ffi.null(absint.project(mk("deref", a[i]), "f:" + x)), x not in given)

            def built(I, st, fr, name, args, t, site):
                o = unref(st, args[0])
                if not isc:
                    want = unref(st, A[i])
                    ob("the TLS options given are used", o is want or o.k == "adt" and all(F(o, x) is F(want, x) for x in o.a[2]), show(o)[:100])
                    return after(st)
                src = mk("deref", A[i])
                if o.k != "adt":
                    ob("the TLS options given are used", False, show(o)[:100])
                    return after(st)
                for dst in ("insecure_skip_verify", "enable_key_log"):
                    x, y = F(o, dst), absint.project(src, "f:" + dst)
                    if nul:
                        good = x is K(0)
                    else:
                        good = not both(st, x, True, eq0(y), True) and not both(st, x, False, eq0(lsub(y, K(1))), True)
                    ob(f"{dst} is as given", good, show(x)[:80])
                for dst in FILES:
                    x, y = F(o, dst), absint.project(src, "f:" + dst)
                    good = x.k == "adt" and x.a[1] == "Some" and p26.plain(x.a[3][0]) is mk("cstr", y) if dst in given else x is NONE
                    ob(f"{dst} is as given", good, show(x)[:80])
                return after(st)

            def after(st):
                s2 = st.copy()
                return [(st, ok(BUILT)), (s2, err(mk("in", "bad options")))]

            def sink(I, st, fr, name, args, t, site):
                vs = [unref(st, x) for x in args]
                ob("the configuration built is the one used", any(reaches(st, x, BUILT) for x in vs), "another one is")
                if names:
                    x = A[names[0]]
                    want = mk("cstr", x) if x.k == "ptr" else x
                    dflt = x.k == "ptr" and any(p26.plain(y).k == "s" for y in vs) and not both(st, ffi.null(x), False, TRUE, True)
                    ob("the certificate is checked for the server's name given", dflt or any(p26.plain(y) is want for y in vs), ", ".join(show(y)[:40] for y in vs))
                return None

            class Cl(ffi.Ffi):
                def on_call(self, I, st, fr, nm, f, args, t, bb, site):
                    if SINK.search(nm):
                        sink(I, st, fr, nm, args, t, site)
                    if nm in cfg:
                        return built(I, st, fr, nm, args, t, site)
                    return super().on_call(I, st, fr, nm, f, args, t, bb, site)
            try:
                cl, I, a, outs = ffi.run(p, f, Cl(p), prep)
            except absint.Limit as e:
                c.ob(f"{short}: followed", False, str(e), engine.where(f))
                continue
            ob.paths += len(outs)
        n += 1
        if isc:
            ob.close("insecure_skip_verify is as given", "enable_key_log is as given", "ca_cert_file is as given", "client_cert_file is as given", "client_key_file is as given", "the configuration built is the one used", "the certificate is checked for the server's name given")
        else:
            ob.close("the TLS options given are used", "the configuration built is the one used", "the certificate is checked for the server's name given")
    c.count("C functions and bindings taking TLS options", n)
    c.ob("TLS options of the C interface: users found", n >= 4, f"{n}", "flowsdk_ffi/src")


def reach(p, fid, seen=None):
    seen = set() if seen is None else seen
    if fid in seen or fid not in p.fns:
        return seen
    seen.add(fid)
    for b in p.fns[fid].blocks:
        t = b["t"]
        if t["t"] == "call" and isinstance(t.get("f"), dict):
            seen.add(t["f"]["f"]) if t["f"]["f"] not in p.fns else reach(p, t["f"]["f"], seen)
    return seen


def engines(c, p):
    """the engines connect with the configuration and to the name they are given"""
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.d.get("vis") != "Public" or "::tests::" in f.id or "{closure" in f.id or not re.match(r"flowsdk::mqtt_client::\w+::\w*Engine::", f.id) or not any("rustls::ClientConfig" in f.locals[i + 1] for i in range(f.nargs)):
            continue
        i = next(i for i in range(f.nargs) if "rustls::ClientConfig" in f.locals[i + 1])
        j = next((j for j in range(f.nargs) if f.locals[j + 1] in ("&str", "std::string::String")), None)
        k = next((k for k in range(f.nargs) if f.locals[k + 1].endswith("net::SocketAddr")), None)
        ob = engine.Agg(c, "::".join(f.id.rsplit("::", 2)[1:]), engine.where(f))
        A = []

        def prep(I, st, a):
            A[:] = [unref(st, x) for x in a]
            A[:] = [x.a[0] if x.k == "sl" else x for x in A]
            st.auto = ()

        def conn(I, st, fr, name, args, t, site):
            vs = [unref(st, x) for x in args]
            ob("the connection uses the TLS configuration given", any(reaches(st, x, A[i]) for x in vs), "another one is used")
            if j is not None:
                ob("the certificate is checked for the server's name given", any(reaches(st, x, A[j]) for x in vs), ", ".join(show(x)[:50] for x in vs)[:200])
            if k is not None:
                ob("the connection goes to the address given", any(x is A[k] for x in vs), ", ".join(show(x)[:50] for x in vs)[:200])
            return []           # what follows is not about the configuration

        def tune(I, st, fr, name, args, t, site):
            return [(st, args[0] if fr.fn.locals[t["d"][0]].startswith("&") else UNIT)]
        try:
            I, cl, a, st0, outs = engine.run(p, f, hooks=[(re.compile(r"rustls::client::.*ClientConnection::new$|rustls::ClientConnection::new$|quinn_proto::Endpoint::connect$"), conn), (re.compile(r"quinn_proto::ClientConfig::(transport_config|version|token_store|initial_dst_cid_provider)$"), tune)], prep=prep, part=lambda I, st: (st.auto,))
        except absint.Limit as e:
            c.ob(f"{f.id}: followed", False, str(e), engine.where(f))
            continue
        ob.paths += len(outs)
        n += 1
        ob.close("the connection uses the TLS configuration given", "the certificate is checked for the server's name given")
    c.count("engine functions that connect", n)
    c.ob("TLS: engines that connect found", n >= 3 or not any("ClientConfig" in x for f in p.fns.values() for x in f.locals[:3]), f"{n}", "src/mqtt_client")
