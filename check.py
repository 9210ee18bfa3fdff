#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]: decides one property on /repo's current tree.

1. the deductive verifier (pyvc/prove.py) discharges every obligation of contracts/PROP.py
   generated from the current source;
2. the same contracts are run on the real code with real libraries (harness/PROP.py):
   cross-check of the assumed library contracts, bounded stand-in for functions outside
   the verifier's reach, and search for a failing input when an obligation fails.
Exit 0: held.  Exit 1 with a VIOLATION line: broken."""
import sys, os, json, time, signal, subprocess, tempfile, shutil, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PV_REPO", "/repo")
VENV = "/opt/venv/bin/python"
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", MPLBACKEND="Agg")


def arg(n, d=None):
    return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d


def harness(prop, seed, budget, tmp, tag, procs=1):
    """runs the harness in several processes with disjoint case numbers."""
    ps = []
    for k in range(procs):
        out = os.path.join(tmp, f"h{tag}{k}.json")
        cmd = [VENV, os.path.join(HERE, "harness", "run.py"), prop, "--seed", str(seed), "--budget", str(budget), "--start", str(k * 10 ** 6), "--json", out]
        ps.append((out, subprocess.Popen(cmd, env=ENV, cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    return ps


def collect(ps, timeout):
    docs, end = [], time.time() + timeout
    for out, p in ps:
        err = ""
        try:
            _, err = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
        try:
            docs.append(json.load(open(out)))
        except (OSError, ValueError):
            docs.append(dict(error="harness ended without a result: " + (err or "")[-800:], failures=[], evaluations=0, distinct=0))
    return docs


def prove(prop, tmp, tag, extra=(), scale="1", timeout=600):
    out = os.path.join(tmp, f"p{tag}.json")
    cmd = [VT, os.path.join(HERE, "pyvc", "prove.py"), prop, "--json", out, *extra]
    return out, cmd, subprocess.Popen(cmd, env=dict(ENV, PV_SCALE=scale), cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True)


def stop(p):
    """the verifier and its workers."""
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    return p.communicate()


def main():
    prop = sys.argv[1]
    tier = arg("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    thorough = tier == "thorough"
    meta = {p["property"]: p for p in json.load(open(os.path.join(HERE, "levels.json")))}.get(prop, {})
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    findings = [k for k in known.get("known", []) if k["property"] == prop]
    tmp = tempfile.mkdtemp(prefix="pvc_")
    try:
        rc = run(prop, tier, seed, thorough, meta, findings, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def is_known(fail, findings):
    for k in findings:
        if k["scenario"] == fail["scenario"] and k.get("message", "") in fail["message"] and \
                all(fail["inputs"].get(a) == b for a, b in k.get("inputs", {}).items()):
            return k
    return None


def run(prop, tier, seed, thorough, meta, findings, tmp, t0):
    has_contract = os.path.exists(os.path.join(HERE, "contracts", prop + ".py"))
    has_harness = os.path.exists(os.path.join(HERE, "harness", prop + ".py"))
    hb = float(meta.get("budget", 12)) * (15 if thorough else 1)
    hs = harness(prop, seed, hb, tmp, "a", 4 if thorough else 2) if has_harness else []
    pr = None
    if has_contract:
        out, cmd, p = prove(prop, tmp, "a", scale="3" if thorough else "1")
        try:
            _, err = p.communicate(timeout=900 * 3 if thorough else 600)
        except subprocess.TimeoutExpired:
            _, err = stop(p)
        try:
            pr = json.load(open(out))
        except (OSError, ValueError):
            pr = dict(prop=prop, error="verifier ended without a result: " + (err or "")[-800:], contracts=[], sources={})
    docs = collect(hs, hb + 120)
    evals = sum(d["evaluations"] for d in docs)
    fails = [f for d in docs for f in d["failures"]]
    herr = [d["error"] for d in docs if d.get("error")]

    # ---- obligations
    contracts = pr["contracts"] if pr else []
    bad = failing(contracts)
    weak = [c for c in contracts if c["status"] != "ok"]
    fresh = [f for f in fails if not is_known(f, findings)]
    if (bad or weak) and not fresh:
        # once more with more time, and look harder for a failing input
        left = lambda: max(20, (840 if not thorough else 4000) - (time.time() - t0))
        out, cmd, p = prove(prop, tmp, "b", extra=["--names", json.dumps([c["contract"] for c in contracts if c in weak or any(c["contract"] == b[0] for b in bad)])],
                            scale="3")
        if has_harness:
            more = collect(harness(prop, seed + 1000, 60 if not thorough else 240, tmp, "b", 6), min(400, left()))
            docs += more
            evals += sum(d["evaluations"] for d in more)
            fails += [f for d in more for f in d["failures"]]
            fresh = [f for f in fails if not is_known(f, findings)]
        try:
            p.communicate(timeout=1 if fresh else min(350, left()))
            again = {c["contract"]: c for c in json.load(open(out))["contracts"]}
            contracts = [again.get(c["contract"], c) for c in contracts]
        except (subprocess.TimeoutExpired, OSError, ValueError):
            stop(p)
        bad = failing(contracts)
        weak = [c for c in contracts if c["status"] != "ok"]
    violations = []
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    for f in fresh[:1]:
        path = os.path.join(HERE, "evidence", "replay", f"{prop}.json")
        json.dump(dict(property=prop, kind="failing input on the real code", **{k: f[k] for k in ("scenario", "seed", "message", "inputs")}, trace=f.get("trace"),
                       replay=f"{VENV} {HERE}/harness/run.py {prop} --replay {f['scenario']} {f['seed']}",
                       failed_obligations=[dict(contract=c, obligation=o["name"], status=o["status"], verifier=o["detail"]) for c, o in bad]), open(path, "w"), indent=1)
        violations.append(f"VIOLATION property={prop} replay={path}")
        print(f"{prop}: {f['message']} ({f['scenario']} {f['seed']}: {f['inputs']})")
    if bad and not violations:
        path = os.path.join(HERE, "evidence", "replay", f"{prop}.json")
        json.dump(dict(property=prop, kind="failed obligation", failed_obligations=[dict(contract=c, obligation=o["name"], status=o["status"], verifier=o["detail"]) for c, o in bad],
                       rerun=f"{VT} {HERE}/pyvc/prove.py {prop} -v"), open(path, "w"), indent=1)
        for c, o in bad:
            print(f"{prop}: obligation '{o['name']}' of contract '{c}' {o['status']}")
        violations.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    for k in findings:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    # ---- evidence
    obs = [o for c in contracts for o in c["obligations"]]
    discharged = [o for c in contracts if c["status"] == "ok" for o in c["obligations"] if o["status"] == "proved"]
    backends = {}
    for o in discharged:
        for b, n in o["backends"].items():
            backends[b] = backends.get(b, 0) + n
    vac = [f"{c['contract']}: {k}" for c in contracts for k, v in c["covers"].items() if v == "unsat"]
    trusted = sorted({t for c in contracts for t in c["trusted"]})
    bounded = meta.get("bounded", []) + [f"{c['contract']}: {c['status']} ({c['why'][:200]})" for c in weak]
    cov = dict(
        functions_under_contract=sorted({f for c in contracts if c["status"] == "ok" for f in c["functions"]}),
        contracts=[dict(name=c["contract"], status=c["status"], paths=c["paths"], obligations=len(c["obligations"]), solver_s=c["solver_time"], wall_s=c["wall"],
                        covers=c["covers"], loops=c["loops"][:8]) for c in contracts],
        obligations=len(obs), obligation_instances=sum(o["instances"] for o in obs), discharged=len(discharged),
        backends=backends, solver_time_s=round(sum(c["solver_time"] for c in contracts), 2),
        checker_cmd=f"{VT} {HERE}/pyvc/prove.py {prop}",
        trusted_base=["CPython executing the desugared module", "pyvc desugaring, loop rule and symbolic values", "z3 / cvc5"] + trusted,
        sources=pr["sources"] if pr else {},
        bounded_not_proved=bounded, vacuous=vac,
        evaluations=evals, distinct_nontrivial=sum(d["distinct"] for d in docs),
        rule="seeded random cases of harness/%s.py on the real code (interpreter and libraries resistics runs on); distinct by scenario and inputs" % prop,
        samples=[s for d in docs[:1] for s in d.get("samples", [])][:6], harness_errors=herr)
    if not obs and meta.get("level") == "proof":
        cov["explanation"] = "no obligation was generated on this tree: nothing is proved by this run"
    ev = dict(property=prop, tier=tier, seed=seed, level=meta.get("level", "exploration"), coverage=cov,
              assumptions=meta.get("assumptions", []) + GENERAL, wall_s=round(time.time() - t0, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: {len(discharged)}/{len(obs)} obligations discharged in {len([c for c in contracts if c['status'] == 'ok'])}/{len(contracts)} contracts, "
          f"{evals} cases on the real code, {time.time() - t0:.1f} s" + (f"; not proved here: {bounded}" if bounded else "") + (f"; vacuous: {vac}" if vac else ""))
    if not evals and not discharged:
        print("nothing was checked:", herr, pr and pr.get("error"), [c["why"] for c in weak])
        return 2
    for v in violations:
        print(v)
    return 1 if violations else 0


def failing(contracts):
    return [(c["contract"], o) for c in contracts for o in c["obligations"] if o["status"] in ("refuted", "unknown")]


GENERAL = ["machine floating point is treated as real arithmetic in the proofs (rounding is covered by the runs on the real code)",
           "library calls behave as their contracts in pyvc/libs state",
           "inputs satisfy the contracts' preconditions (well-typed, valid objects)"]

if __name__ == "__main__":
    main()
