"""Runs one check: python3 sa/check.py <property id>.

Exit 0: no violation (known findings are printed); exit 1 with VIOLATION
lines; exit 2: the analysis itself is broken and gives no verdict."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import facts as F  # noqa: E402

FINDINGS = os.path.join(F.VERIF, "KNOWN_FINDINGS")


def known_findings(prop):
    """Entries 'finding: property=<id> key=<key> | <text>'."""
    out = {}
    try:
        for line in open(FINDINGS, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: property=" + prop + " key="):
                key, _, text = line.split(" key=", 1)[1].partition(" | ")
                out[key] = text
    except OSError:
        pass
    return out


class Report:

    def __init__(self, prop):
        self.prop = prop
        self.obs = 0
        self.viol = {}      # key -> text
        self.counts = {}
        self.samples = []
        self.rules = []
        self.notes = []

    def rule(self, text):
        self.rules.append(text)

    def ob(self, key, ok, text="", sample=None):
        """One obligation; violated when not ok. The key names the construct
        without line numbers."""
        self.obs += 1
        if not ok and key not in self.viol:
            self.viol[key] = text
        if sample and len(self.samples) < 40 and sample not in self.samples:
            self.samples.append(sample)

    def count(self, name, n, minimum=1):
        self.counts[name] = n
        if n < minimum:
            raise F.AnalysisError(
                f"only {n} instances of '{name}', expected at least {minimum}")

    def note(self, text):
        self.notes.append(text)


def run(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mods = [m[:-3] for m in os.listdir(os.path.join(HERE, "checks"))
            if m.lower().startswith(prop.lower() + "_") and m.endswith(".py")]
    if len(mods) != 1:
        print("no check for", prop)
        return 2
    sys.path.insert(0, os.path.join(HERE, "checks"))
    mod = importlib.import_module(mods[0])
    rep = Report(prop)
    rep.tier = tier
    fx = None
    err = None
    try:
        if getattr(mod, "NEEDS_CPP", True):
            fx = F.Facts(getattr(mod, "UNITS", None))
        mod.run(fx, rep)
    except F.AnalysisError as e:
        err = str(e)
    except Exception:  # pylint: disable=broad-except
        err = traceback.format_exc()
    if err is not None and not rep.viol:
        print("ANALYSIS-BROKEN:", err, file=sys.stderr)
        return 2
    known = known_findings(prop)
    new = {k: v for k, v in rep.viol.items() if k not in known}
    old = {k: v for k, v in rep.viol.items() if k in known}
    edir = os.path.join(F.VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    rpath = os.path.join(edir, prop + ".violations.txt")
    with open(rpath, "w", encoding="utf-8") as fd:
        for k, v in rep.viol.items():
            fd.write(f"{k}\n    {v}\n")
    level = getattr(mod, "LEVEL", "other")
    cov = {
        "obligations": rep.obs,
        "discharged": rep.obs - len(rep.viol),
        "rules": rep.rules,
        "analysed": rep.counts,
        "samples": rep.samples[:40],
        "explanation": getattr(mod, "EXPLANATION", mod.__doc__ or ""),
        "checker_cmd": "python3 sa/check.py " + prop,
        "trusted_base": [
            "clang 18 front end and CFG construction",
            "tool/extract.cpp", "sa/facts.py", "sa/engine.py",
            "the tables of the check in sa/checks"
        ],
    }
    if fx is not None:
        cov["units"] = len(fx.units)
        cov["functions"] = len(list(fx.keys()))
        cov["units_reused_from_cache"] = fx.cached
    if rep.notes:
        cov["notes"] = rep.notes[:60]
    if old:
        cov["known_findings"] = sorted(old)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(edir, prop + ".json"), "w", encoding="utf-8") as fd:
        json.dump(ev, fd, indent=1)
    for k in sorted(old):
        print(f"KNOWN-FINDING: property={prop} {k} {known[k]}")
    for k, v in sorted(new.items()):
        print(f"{k}: {v}")
        print(f"VIOLATION property={prop} replay={rpath}")
    if err is not None:
        print("ANALYSIS-BROKEN:", err, file=sys.stderr)
        if not new:
            return 2
    if new:
        return 1
    print(f"{prop}: {rep.obs} obligations hold"
          f" ({', '.join(f'{k}: {v}' for k, v in rep.counts.items())})"
          f" [{time.time()-t0:.1f}s]")
    return 0


if __name__ == "__main__":
    sys.exit(run(sys.argv[1]))
