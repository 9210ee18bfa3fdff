from stages import *
import C32 as P32
CONTRACTS[:] = [c for c in CONTRACTS if c.prop != "C32"]

PR = lambda: mod("project")
FN = "resistics.project."
KINDS = {"time": ("get_meas_time_path", "sm"), "spectra": ("get_meas_spectra_path", "smc"), "evals": ("get_meas_evals_path", "smc"),
         "features": ("get_meas_features_path", "smc"), "masks": ("get_mask_path", "sc"), "results": ("get_results_path", "sc")}


def path_of(kind, d, n):
    f, uses = KINDS[kind]
    return getattr(PR(), f)(d, *[n[u] for u in uses])


def under(p, d):
    """d is a proper ancestor of the path."""
    k = len(p.names)
    return Or(*[Path_mk(p.base, p.names[:i]) == d for i in range(k)])


Path_mk = fs.Path.mk


def pairs(a, b):
    d = fs.Path(sstr("project_dir"))
    n = {k: sstr("a_" + k) for k in "smc"}
    m = {k: sstr("b_" + k) for k in "smc"}
    p, q = path_of(a, d, n), path_of(b, d, m)
    ensure(And(under(p, d), under(q, d)), "paths lie under the project directory")
    if a == b:
        ensure((p == q) == And(*[n[k] == m[k] for k in KINDS[a][1]]), "equal exactly when site, measurement and configuration are")
    else:
        ensure(Not(p == q), "different kinds have different paths")
        ensure(Not(Or(under(p, q), under(q, p))), "artefacts of different kinds are not inside each other")
    c = PR().get_calibration_path(d)
    ensure(And(under(c, d), Not(c == p), Not(under(p, c)), Not(under(c, p))), "calibration data are apart")
    cover("pair")


for a in KINDS:
    for b in KINDS:
        if a <= b:
            contract("C27", "paths of " + a + " and " + b, [FN + KINDS[a][0], FN + KINDS[b][0], FN + "get_calibration_path"])(lambda a=a, b=b: pairs(a, b))


@contract("C27", "saved solutions are found again", [FN + "get_solution_name", FN + "get_results_path", "resistics.letsgo.process_evals_to_tf", "resistics.letsgo.get_solution"])
def saved():
    pl = P32.Pipeline()
    env, proj, out, meas = P32.project(pl)
    rate = pos_real("fs")
    kw = {k: sstr(k) for k in ("in_site", "cross_site") if decide(sbool("give_" + k))}
    post = {"postfix": sstr("postfix")} if decide(sbool("give_postfix")) else {}
    P32.results_are_directories(proj, out, pl.name)
    o = attempt(P32.L().process_evals_to_tf, env, rate, out, **kw, **post)
    ensure(o.ok and clen(pl.log.n) == 1, "a solution is stored once")
    if not o.ok:
        return
    path, sol = pl.log.get(0)
    ensure(under(path, proj.dir_path), "under the project directory")
    asked = []
    method(mod("regression").Solution, "parse_file", classmethod(lambda cls, p: asked.append(p) or sol))
    g = attempt(P32.L().get_solution, env, out, pl.name, rate, o.value.tf.name, o.value.tf.variation, **post)
    ensure(g.ok and len(asked) == 1, "one file is read")
    if asked:
        cover("found")
        ensure(asked[0] == path, "loading with the same arguments reads the file that was stored")
