"""known.py PROP: print the unlisted findings of a property as entries for known_findings.json; with --add, add them
(used by hand only, never by a check).  known.py PROP --fixed COMMIT TEXT adds a fixed entry."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "checks")]
import harness, run
P = os.path.join(ROOT, "known_findings.json")
d = json.load(open(P))
prop = sys.argv[1]
if "--fixed" in sys.argv:
    i = sys.argv.index("--fixed")
    d["fixed"].append("fixed: property=%s %s %s" % (prop, sys.argv[i + 1], sys.argv[i + 2]))
else:
    res = run.TABLE[prop](prop, "quick")
    known = harness.load_known(prop)
    for f in {f.key: f for f in res.findings if f.prop == prop}.values():
        if not any(harness.matches(k, f) for k in known):
            e = {"property": prop, "rule": f.rule, "function": f.func, "construct": f.construct, "what": "%s: %s" % (f.func, f.msg)}
            print(json.dumps(e, indent=1))
            if "--add" in sys.argv:
                d["findings"].append(e)
json.dump(d, open(P, "w"), indent=1)
open(P, "a").write("\n")
