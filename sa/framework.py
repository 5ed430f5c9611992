"""Obligations, violations, known findings and evidence for one property check."""
import json, os, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, mir, absint, meta  # noqa: E402

LEVELS = {i: d["level"] for i, d in meta.P.items()}


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.obs = []            # {"key", "ok", "what", "where"}
        self.stats = {}
        self.assumptions = []
        self.samples = []
        self._progs = {}
        self.config = "all"

    def prog(self, config=None):
        config = config or self.config
        if config not in self._progs:
            self._progs[config] = mir.Prog(build.facts(config)[0])
        p = self._progs[config]
        absint.PROG[0] = p
        return p

    def ob(self, key, ok, what, where=""):
        """one obligation; key identifies it independently of line numbers"""
        if self.config != "all":
            key = f"[{self.config}] {key}"
        self.obs.append({"key": key, "ok": bool(ok), "what": what, "where": where})
        return ok

    def anchor(self, name, found, minimum=1, what=""):
        """an entity the rule is about must exist, or the rule decides nothing"""
        n = len(found) if hasattr(found, "__len__") else int(found)
        self.stats["anchor:" + name] = n
        self.ob(f"anchor {name}", n >= minimum, f"{what or name}: found {n}, the rule needs at least {minimum}")
        return n >= minimum

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)


def known(prop):
    out = {}
    with open(os.path.join(VERIF, "known-findings.txt"), encoding="utf-8") as f:
        for l in f:
            l = l.strip()
            if l.startswith("known: property=" + prop + " key="):
                k, _, what = l.split(" key=", 1)[1].partition(" :: ")
                out[k.strip()] = what.strip()
    return out


def loc(fn, ln=None):
    return f"{fn.file}:{ln if ln is not None else fn.line} ({fn.id})"


def main(prop, tier):
    import importlib
    t0 = time.time()
    mod = importlib.import_module("rules." + prop.lower())
    c = Ctx(prop, tier)
    err = None
    try:
        configs = ["all"] + (list(getattr(mod, "THOROUGH_CONFIGS", ())) if tier == "thorough" else [])
        for cf in configs:
            c.config = cf
            mod.run(c)
        c.config = "all"
    except build.BuildError as e:
        print("cannot build the fact base:\n" + str(e), file=sys.stderr)
        return 2
    except absint.Limit as e:
        c.ob("limit", False, f"the analysis gave up: {e}")
    kn = known(prop)
    merged = {}
    for o in c.obs:
        m = merged.setdefault(o["key"], o)
        if not o["ok"] and m["ok"]:
            merged[o["key"]] = o
    bad = [o for o in merged.values() if not o["ok"]]
    listed = [o for o in bad if o["key"] in kn]
    new = [o for o in bad if o["key"] not in kn]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": LEVELS.get(prop, "other"),
        "coverage": {
            "explanation": getattr(mod, "RULE"),
            "obligations": len(merged), "discharged": len(merged) - len(bad),
            "checker_cmd": f"python3 sa/check.py {prop}",
            "trusted_base": getattr(mod, "TRUSTED", TRUSTED),
            "measured": c.stats, "configurations": configs,
            "samples": c.samples or [{"obligation": o["key"], "what": o["what"], "where": o["where"]} for o in list(merged.values())[:8]],
            "known_findings": [o["key"] for o in listed],
        },
        "assumptions": c.assumptions,
        "violations": [{"key": o["key"], "what": o["what"], "where": o["where"]} for o in new],
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for o in listed:
        print(f"KNOWN-FINDING: property={prop} {o['key']} :: {kn[o['key']]}")
    print(f"{prop}: {len(merged) - len(bad)}/{len(merged)} obligations discharged in {ev['wall_s']} s  {json.dumps(c.stats)}")
    if new:
        rp = os.path.join("evidence", prop + ".violation.txt")
        with open(os.path.join(VERIF, rp), "w", encoding="utf-8") as f:
            for o in new:
                f.write(f"{o['key']}\n    {o['what']}\n    at {o['where']}\n")
        for o in new[:40]:
            print(f"  broken: {o['key']}: {o['what']}  at {o['where']}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    return 0


TRUSTED = ["rustc's MIR construction and type checker (nightly 1.101)", "the fact extractor in /verif/driver", "the abstract interpreter and library models in /verif/sa"]
