"""mkseed.py FILE [ids...]: makes /verif/seeded/<id>/ from the bug descriptions in FILE
(a python file with a list SEEDS of dicts id, property, edits=[(file, old, new)], needs, breaks, demo).
Keeps a bug only if the patch applies, the demonstration passes without and fails with it,
and the stable tests still pass with it."""
import sys, os, json, subprocess, shutil, tempfile, importlib.util, textwrap
from concurrent.futures import ThreadPoolExecutor
VENV = "/opt/venv/bin/python"
ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", MPLBACKEND="Agg", MPLCONFIGDIR="/tmp/mpl")
PRE = '''import sys, os, types
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
try:
    import sklearn.base  # noqa
except ImportError:      # not installed here: resistics only needs the names to import
    sk = types.ModuleType("sklearn")
    sk.__path__ = []
    for n in ("base", "linear_model", "preprocessing"):
        m = types.ModuleType("sklearn." + n)
        setattr(sk, n, m)
        sys.modules["sklearn." + n] = m
    sys.modules["sklearn"] = sk
    sk.base.BaseEstimator = type("BaseEstimator", (), {})
    for n in ("LinearRegression", "HuberRegressor", "TheilSenRegressor", "RANSACRegressor"):
        setattr(sk.linear_model, n, type(n, (), {}))
    sk.preprocessing.RobustScaler = type("RobustScaler", (), {})
from loguru import logger
logger.remove()
import warnings
warnings.simplefilter("ignore")
import numpy as np
from pathlib import Path
import tempfile


'''
SH = '#!/bin/bash\n# cwd: the repository.  0: behaves, nonzero: broken\nexport OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "stable_pass", "tests"):
        if k in b:
            return b[k]
    return b


def make(s):
    work = tempfile.mkdtemp(prefix="seed_")
    try:
        repo = os.path.join(work, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new, *nth in s["edits"]:   # nth: which occurrence
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1 and not nth:
                return s["id"], f"old text occurs {t.count(old)} times in {f}: {old[:60]!r}"
            ps = t.split(old)
            k = nth[0] + 1 if nth else 1
            open(p, "w").write(old.join(ps[:k]) + new + old.join(ps[k:]))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        d = os.path.join(work, "d")
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(PRE + textwrap.dedent(s["demo"]).strip() + "\n")
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        run = lambda cwd: subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=cwd, env=ENV, capture_output=True, text=True, timeout=300)
        bad = run(repo)
        if bad.returncode == 0:
            return s["id"], "demo passes with the patch"
        if "Assert" not in bad.stderr and "assert" not in bad.stderr:
            note = " (demo fails with: " + bad.stderr.strip().splitlines()[-1][:150] + ")"
        else:
            note = ""
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo)
        good = run(repo)
        if good.returncode != 0:
            return s["id"], "demo fails without the patch: " + good.stderr[-600:]
        r = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo, capture_output=True, text=True)
        if r.returncode:
            return s["id"], "patch does not apply"
        r = subprocess.run([VENV, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "--basetemp=" + work + "/t"],
                           cwd=repo, env=dict(ENV, HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8"), capture_output=True, text=True)
        tail = r.stdout.strip().splitlines()[-1]
        if "84 passed" not in tail:
            return s["id"], "tests: " + tail
        out = os.path.join("/verif/seeded", s["id"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        return s["id"], "kept" + note
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    sp = importlib.util.spec_from_file_location("seeds", sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    ids = sys.argv[2:]
    todo = [s for s in m.SEEDS if not ids or s["id"] in ids]
    with ThreadPoolExecutor(6) as p:
        for i, r in p.map(make, todo):
            print(i, ":", r, flush=True)


main()
