from common import *
from gen import *
from resistics import project as PR
import pathlib

PLAIN = ["alpha", "beta", "a", "b", "meas1", "meas2", "default", "target", "evals", "time", "spectra", "results", "masks", "x_y", "x", "y", "2021-01-01", "site 1"]


@scenario(weight=2)
def paths(rng):
    d = pathlib.Path(rng.choice(["/some/project", "relative/project", "/p"]))
    fns = {"time": lambda s, m, c: PR.get_meas_time_path(d, s, m), "spectra": lambda s, m, c: PR.get_meas_spectra_path(d, s, m, c),
           "evals": lambda s, m, c: PR.get_meas_evals_path(d, s, m, c), "features": lambda s, m, c: PR.get_meas_features_path(d, s, m, c),
           "mask": lambda s, m, c: PR.get_mask_path(d, s, c), "results": lambda s, m, c: PR.get_results_path(d, s, c), "calibration": lambda s, m, c: PR.get_calibration_path(d)}
    uses = {"time": "sm", "spectra": "smc", "evals": "smc", "features": "smc", "mask": "sc", "results": "sc", "calibration": ""}
    pick = lambda: (rng.choice(sorted(fns)), rng.choice(PLAIN), rng.choice(PLAIN), rng.choice(PLAIN))
    a, b = pick(), pick()
    if rng.random() < 0.6:   # differ in one place only
        b = list(a)
        i = rng.randrange(4)
        b[i] = pick()[i]
        b = tuple(b)
    if rng.random() < 0.3:   # the same pieces, cut between the names at different places
        pieces, glue = [rng.choice(["s", "x", "1", "a"]) for _ in range(6)], rng.choice(["_", "_", "-", "", "."])
        kind = rng.choice(["spectra", "evals", "features", "mask", "results", "time"])
        cut = lambda at: [glue.join(pieces[p:q]) for p, q in zip((0,) + at, at + (6,))]
        one, two = cut(tuple(sorted(rng.sample(range(1, 6), 2)))), cut(tuple(sorted(rng.sample(range(1, 6), 2))))
        if kind in ("mask", "results"):   # the measurement does not matter: join it to the configuration
            one, two = ([x[0], "m", glue.join(x[1:])] for x in (one, two))
        if kind == "time":
            one, two = ([x[0], glue.join(x[1:]), "c"] for x in (one, two))
        a, b = (kind, *one), (kind, *two)
    note(dir=str(d), a=a, b=b)
    key = lambda x: (x[0],) + tuple(v for k, v in zip("smc", x[1:]) if k in uses[x[0]])
    p, q = fns[a[0]](*a[1:]), fns[b[0]](*b[1:])
    for r in (p, q):
        check(d in r.parents and ".." not in r.parts, f"{r} under the project directory")
    same(p == q, key(a) == key(b), f"paths {p} and {q} equal")
    check(key(a) == key(b) or a[0] != b[0] or not (p in q.parents or q in p.parents), f"{p} and {q} are not inside each other")


@scenario()
def names(rng):
    fs, tf, var = rng.choice(FS), rng.choice(["ImpedanceTensor", "Tipper", "Custom"]), rng.choice(["", "default", "with space", "a_b"])
    post = rng.choice([None, "x", "with_mt10"])
    note(fs=fs, tf=tf, variation=var, postfix=post)
    n = PR.get_solution_name(fs, tf, var, post)
    same(n, PR.get_solution_name(fs, tf, var, post), "same name again")
    check(n.endswith(".json") and "/" not in n, "a plain json file name")
    for o in (PR.get_solution_name(fs * 2, tf, var, post), PR.get_solution_name(fs, tf + "X", var, post), PR.get_solution_name(fs, tf, var + "q", post),
              PR.get_solution_name(fs, tf, var, "another")):
        check(o != n, f"{o} differs from {n}")
    check(PR.get_mask_name(fs, "m") != PR.get_mask_name(fs * 2, "m") and PR.get_mask_name(fs, "m") != PR.get_mask_name(fs, "k"), "mask names differ")


@scenario(limit=120)
def save_and_load(rng):
    """what a processing run stores is what get_solution finds."""
    from resistics import letsgo as L, gather as G, regression as R, transfunc as X
    from resistics.config import Configuration
    import project, C23
    t = rng.choice([X.ImpedanceTensor(), X.Tipper(), X.ImpedanceTensor(variation="my variation", cross_chans=["Hx", "Hy", "Hz"])])
    post = rng.choice([None, "x", "with mt10"])
    with Scratch() as d:
        proj, p, have = project.with_evals(rng, d, config="conf")
        ok = [s for s in sorted(have) if have[s]]
        if not ok:
            raise Skip()
        o, i = rng.choice(ok), rng.choice([None] + ok)
        note(tf=t.name, variation=t.variation, postfix=post, out=o, inp=i)
        cfg = Configuration(name="conf", tf=t, solver=R.SolverScikitOLS(), dec_setup=__import__("resistics.decimate", fromlist=["x"]).DecimationSetup(n_levels=p.n_levels, per_level=p.per_level, min_samples=1))
        sel = G.Selector().run("conf", proj, [x for x in (o, i) if x], p)
        if all(len(x) == 0 for x in sel.tables.values()):
            raise Skip()   # no shared windows: nothing to solve
        env = L.ResisticsEnvironment(proj=proj, config=cfg)
        with C23.fakes():
            sol = L.process_evals_to_tf(env, p.fs, o, i, postfix=post)
        got = L.get_solution(env, o, "conf", p.fs, t.name, t.variation, post)
        same([got.freqs, {k: v.dict() for k, v in got.components.items()}, got.tf.dict()], [sol.freqs, {k: v.dict() for k, v in sol.components.items()}, sol.tf.dict()], "the solution stored")
        fs = [x for x in tree(d / "results") if not x.endswith("/")]
        same(len(fs), 1, "one results file")
