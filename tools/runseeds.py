"""runseeds.py [ID...]: the checks and the contracts alone against each planted bug (scratch copies
of /repo); updates design/caught.json."""
import glob, json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
ids = sys.argv[1:] or [os.path.basename(d) for d in sorted(glob.glob(HERE + "/seeded/*"))]


def one(i):
    m = json.load(open(f"{HERE}/seeded/{i}/meta.json"))
    p = m["property"]
    d = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        subprocess.run(["git", "-C", d + "/repo", "apply", f"{HERE}/seeded/{i}/patch.diff"], check=True)
        env = dict(os.environ, PV_REPO=d + "/repo", PV_EVIDENCE=d)
        ob = "no contract"
        if os.path.exists(f"{HERE}/contracts/{p}.py"):
            subprocess.run(["python3-vt", HERE + "/pyvc/prove.py", p, "--json", d + "/o.json"], env=env, capture_output=True)
            r = json.load(open(d + "/o.json"))
            bad = [f"{c['contract']}: {o['name']}" for c in r["contracts"] for o in c["obligations"] if o["status"] != "proved"]
            uns = [c["contract"] for c in r["contracts"] if c["status"] not in ("ok",)]
            ob = "obligation “" + bad[0] + "”" + (f" (+{len(bad) - 1})" if len(bad) > 1 else "") if bad else "contracts: out of reach (" + ", ".join(uns) + ")" if uns else "contracts: not caught"
        r = subprocess.run(["python3", HERE + "/check.py", p], env=env, capture_output=True, text=True)
        v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        how = "missed" if r.returncode != 1 else "obligation only" if v and v[0].endswith("no-failing-input-found") else "failing input"
        return i, f"{ob}; check: {how}"
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(3) as ex:
    res = dict(ex.map(one, ids))
f = HERE + "/design/caught.json"
old = json.load(open(f)) if os.path.exists(f) else {}
old.update(res)
json.dump(old, open(f, "w"), indent=1, ensure_ascii=False)
for k, v in res.items():
    print(k, v)
