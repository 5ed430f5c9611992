"""Builds the fact base: the compiler's view (MIR + types) of /repo's current tree."""
import datetime, fcntl, hashlib, json, os, shutil, subprocess, sys, time, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.environ.get("SA_BUILD", os.path.join(VERIF, ".build"))
SKIP = {".git", "target", "Cargo.lock"}
TABLES = ("dependencies", "dev-dependencies", "build-dependencies")
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"

# feature configurations that are analysed.  "all" is the one the test suite builds.
CONFIGS = {
    "all": ["--workspace", "--all-features"],
    "default": ["--workspace"],
    "lax": ["-p", "flowsdk", "--no-default-features", "--features", "tls,async-client,quic,rustls-tls"],
}


class BuildError(Exception):
    pass


def dep_tables(m):
    for t in [m, *m.get("target", {}).values()]:
        for name in TABLES:
            if name in t:
                yield t[name]


def strip(manifests):
    """Drops git dependencies (cannot be fetched) and the features that need them."""
    gone_deps = {p: {k for t in dep_tables(m) for k, v in t.items() if isinstance(v, dict) and "git" in v} for p, m in manifests.items()}
    gone_feats = {p: set() for p in manifests}

    def bad(p, item):
        if item.startswith("dep:"):
            return item[4:] in gone_deps[p]
        if "/" in item:
            dep, feat = item.split("/", 1)
            name = dep.rstrip("?")
            return name in gone_deps[p] or feat in gone_feats.get(name, ())
        return item in gone_feats[p] or item in gone_deps[p]

    changed = True
    while changed:
        changed = False
        for p, m in manifests.items():
            for f, items in m.get("features", {}).items():
                if f not in gone_feats[p] and any(bad(p, i) for i in items):
                    gone_feats[p].add(f)
                    changed = True
    for p, m in manifests.items():
        feats = m.get("features", {})
        explicit = {i for f in gone_feats[p] for i in feats[f] if i.startswith("dep:")}
        for f in gone_feats[p]:
            del feats[f]
        kept = {i for items in feats.values() for i in items}
        orphans = {i[4:] for i in explicit if i not in kept} - gone_deps[p]
        for t in dep_tables(m):
            for k in list(t):
                if k in gone_deps[p] | orphans:
                    del t[k]
        for kind in ("bin", "example", "test", "bench"):
            if kind in m:
                m[kind] = [t for t in m[kind] if not gone_feats[p] & set(t.get("required-features", ()))]


def value(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float, datetime.date, datetime.time)):
        return str(v)
    if isinstance(v, str):
        return '"' + "".join("\\" + c if c in '"\\' else c if ord(c) >= 32 and ord(c) != 127 else f"\\u{ord(c):04x}" for c in v) + '"'
    if isinstance(v, list):
        return "[" + ", ".join(map(value, v)) + "]"
    return "{ " + ", ".join(f"{value(k)} = {value(x)}" for k, x in v.items()) + " }"


def emit(m):
    out = []
    tables = {k: v for k, v in m.items() if isinstance(v, dict)}
    lists = {k: v for k, v in m.items() if isinstance(v, list) and v and all(isinstance(x, dict) for x in v)}
    for k, v in m.items():
        if k not in tables and k not in lists:
            out.append(f"{value(k)} = {value(v)}")
    for k, v in tables.items():
        out.append(f"\n[{value(k)}]")
        out += [f"{value(a)} = {value(b)}" for a, b in v.items()]
    for k, v in lists.items():
        for x in v:
            out.append(f"\n[[{value(k)}]]")
            out += [f"{value(a)} = {value(b)}" for a, b in x.items()]
    return "\n".join(out) + "\n"


def overlay(ws):
    def load(path):
        with open(os.path.join(REPO, path), "rb") as f:
            return tomllib.load(f)

    root = load("Cargo.toml")
    manifests = {"Cargo.toml": root}
    for member in root["workspace"]["members"]:
        if member != ".":
            manifests[os.path.join(os.path.normpath(member), "Cargo.toml")] = load(os.path.join(os.path.normpath(member), "Cargo.toml"))
    strip({m["package"]["name"]: m for m in manifests.values()})
    if os.path.isdir(ws):
        shutil.rmtree(ws)

    def mirror(rel):
        src, dst = os.path.join(REPO, rel), os.path.join(ws, rel)
        os.makedirs(dst, exist_ok=True)
        for e in sorted(os.listdir(src)):
            if e in SKIP:
                continue
            r = os.path.join(rel, e)
            s, d = os.path.join(src, e), os.path.join(dst, e)
            if r in manifests:
                with open(d, "w", encoding="utf-8") as f:
                    f.write(emit(manifests[r]))
            elif any(x.startswith(r + "/") for x in manifests):
                mirror(r)
            else:
                os.symlink(s, d)

    mirror("")
    shutil.copy(os.path.join(VERIF, "driver", "Cargo.lock.base"), os.path.join(ws, "Cargo.lock"))


def sha(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\1")
    return h.hexdigest()[:24]


def source_files():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in (".git", "target", "node_modules", ".build")]
        for f in fs:
            if f.endswith((".rs", ".toml", ".proto", ".udl", ".lock")):
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    out.append(p)
    return out


def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    e["RUSTC_WRAPPER"] = ""
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError(f"{' '.join(cmd)} failed:\n{r.stdout[-6000:]}")
    return r.stdout


def driver():
    src = os.path.join(VERIF, "driver", "driver.rs")
    out = os.path.join(BUILD, "driver")
    stamp = out + ".stamp"
    key = sha([src])
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out, key
    run(["rustc", "-O", "--edition", "2021", "-A", "warnings", src, "-o", out], env=env(), cwd=BUILD)
    with open(stamp, "w") as f:
        f.write(key)
    return out, key


def facts(config="all"):
    """Returns (directory with one JSON-lines file per crate, was_cached, seconds)."""
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv, dkey = driver()
        key = sha(source_files()) + "-" + dkey[:8] + "-" + config
        root = os.path.join(BUILD, "facts")
        os.makedirs(root, exist_ok=True)
        fdir = os.path.join(root, key)
        if os.path.exists(os.path.join(fdir, "ok")):
            os.utime(fdir)
            return fdir, True, time.time() - t0
        # keep only a few fact sets
        old = sorted((os.path.join(root, x) for x in os.listdir(root)), key=os.path.getmtime)
        for p in old[:-4]:
            shutil.rmtree(p, ignore_errors=True)
        shutil.rmtree(fdir, ignore_errors=True)
        os.makedirs(fdir)
        ws = os.path.join(BUILD, "ws")
        overlay(ws)
        e = env()
        target = os.path.join(BUILD, "target-" + config)
        e["CARGO_TARGET_DIR"] = target
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["SA_FACTS_DIR"] = fdir
        sysroot = run(["rustc", "--print", "sysroot"], env=e).strip()
        e["LD_LIBRARY_PATH"] = sysroot + "/lib"
        # cargo would skip the wrapper for crates it believes fresh
        for sub in (".fingerprint", "build"):
            fp = os.path.join(target, "debug", sub)
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x.startswith(("flowsdk", "mqtt-grpc-proxy", "mqtt_ring_bench", "mqtt-ring-bench")):
                        shutil.rmtree(os.path.join(fp, x))
        run(["cargo", "check", "--offline", "--lib", "--bins", *CONFIGS[config]], env=e, cwd=ws)
        need = ["flowsdk.lib.jsonl"] + (["flowsdk_ffi.lib.jsonl", "mqtt_grpc_proxy.lib.jsonl", "r_proxy.bin.jsonl", "s_proxy.bin.jsonl"] if config == "all" else [])
        for n in need:
            if not os.path.exists(os.path.join(fdir, n)):
                raise BuildError(f"no facts for {n}: {os.listdir(fdir)}")
        open(os.path.join(fdir, "ok"), "w").close()
        return fdir, False, time.time() - t0


if __name__ == "__main__":
    for c in sys.argv[1:] or ["all"]:
        print(c, *facts(c))
