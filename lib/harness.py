"""Shared command-line harness of the checks: runs an analysis, compares what it found with the
known findings, writes the evidence file and a report, prints the verdict and sets the exit code."""
import json
import os
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.json")


class Result:
    """What an analysis reports for one property."""

    def __init__(self):
        self.findings = []          # list of Finding
        self.coverage = {}          # counts and samples
        self.floors = {}            # coverage key -> least count below which the analysis did not see the code
        self.assumptions = []
        self.explanation = ""


class Finding:
    def __init__(self, prop, rule, func, construct, loc, msg, scen=None):
        self.prop, self.rule, self.func, self.construct, self.loc, self.msg, self.scen = prop, rule, func, construct, loc, msg, scen

    @property
    def key(self):
        return "%s|%s|%s|%s" % (self.prop, self.rule, self.func, self.construct)


def load_known(prop):
    with open(KNOWN) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == prop]


def matches(k, f):
    if k["rule"] != f.rule or (k.get("construct") and k["construct"] != f.construct):
        return False
    if k["function"] == f.func:
        return True
    # the same construct in the same module: the function around it may have been split or renamed
    mod = f.loc.split(":")[0]
    mod = mod[len("vayesta/"):] if mod.startswith("vayesta/") else mod
    mod = mod.rsplit(".", 1)[0].replace("/", ".")
    return bool(k.get("construct")) and (k["function"] + ".").startswith(mod + ".")


def run(prop, analysis, tier, level="other"):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        from pkg import AnalysisError
        try:
            res = analysis(prop, tier)
        except AnalysisError as e:
            print("ANALYSIS-ERROR property=%s %s" % (prop, e))
            return 2
        for k, v in res.floors.items():
            have = res.coverage.get(k, 0)
            have = have if isinstance(have, int) else len(have)
            if have < v:
                print("ANALYSIS-ERROR property=%s the analysis covered only %d %s (at least %d expected): it no longer sees the code it judges" % (prop, have, k, v))
                return 2
    except Exception:
        traceback.print_exc()
        return 2
    uniq = {}
    for f in res.findings:
        if f.prop == prop:
            uniq.setdefault(f.key, f)
    known = load_known(prop)
    new, old = [], []
    for f in uniq.values():
        (old if any(matches(k, f) for k in known) else new).append(f)
    outdir = os.path.join(ROOT, "evidence")
    os.makedirs(outdir, exist_ok=True)
    cov = dict(res.coverage)
    cov["explanation"] = res.explanation
    cov["violations_found"] = len(new)
    cov["known_findings_seen"] = [f.key for f in old]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": res.assumptions,
          "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    with open(os.path.join(outdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    seen = set()
    for f in old:
        k = [k for k in known if matches(k, f)][0]
        if k["what"] not in seen:
            seen.add(k["what"])
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k["what"], f.loc))
    if new:
        rep = os.path.join(outdir, prop + ".report.txt")
        with open(rep, "w") as fh:
            for f in new:
                fh.write("%s  rule=%s  in %s\n    construct: %s\n    %s\n" % (f.loc, f.rule, f.func, f.construct, f.msg))
        for f in new[:20]:
            print("%s: %s: [%s] %s -- %s" % (f.loc, f.func, f.rule, f.construct, f.msg))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rep, ROOT)))
        return 1
    rep = os.path.join(outdir, prop + ".report.txt")
    if os.path.exists(rep):
        os.unlink(rep)
    print("OK property=%s %s" % (prop, " ".join("%s=%s" % (k, v if isinstance(v, int) else len(v)) for k, v in sorted(res.coverage.items()) if isinstance(v, (int, list)))))
    return 0


def main(table):
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    if len(args) != 1 or args[0] not in table:
        print("usage: run.py PROPERTY [--tier quick|thorough]; properties: %s" % " ".join(sorted(table)))
        return 2
    return run(args[0], table[args[0]], tier)
