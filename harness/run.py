"""run.py PROP [--seed N] [--budget S] [--json OUT] | run.py PROP --replay SCENARIO SEED"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common


def arg(n, d=None):
    return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d


prop = sys.argv[1]
err = None
try:
    __import__(prop)
except Exception as e:
    import traceback
    err = traceback.format_exc()[-1500:]
common.SCENARIOS[:] = [x for x in common.SCENARIOS if x[1].__module__ == prop]   # not those of modules it borrows from
if "--replay" in sys.argv:
    i = sys.argv.index("--replay")
    name, seed = sys.argv[i + 1], sys.argv[i + 2]
    f = [s[1] for s in common.SCENARIOS if s[0] == name][0]
    r = common.run_case(f, name, seed, 120)
    print(json.dumps(r, indent=1))
    sys.exit(1 if isinstance(r, dict) else 0)
if err:
    doc = dict(error=err, failures=[], evaluations=0, distinct=0)
else:
    doc = common.run_all(int(arg("--seed", "1")), float(arg("--budget", "15")), arg("--only"), int(arg("--start", "0")))
out = arg("--json")
if out:
    json.dump(doc, open(out, "w"), indent=1)
else:
    print(json.dumps(doc, indent=1))
