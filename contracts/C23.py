from objs import *
import C22
from stages import method

CONTRACTS[:] = [c for c in CONTRACTS if c.prop == "C23"]
Rg, X = lambda: mod("regression"), lambda: mod("transfunc")
FN = "resistics.regression."
I, RE = z3.IntSort(), z3.RealSort()
SOLVERS = ("OLS", "Huber", "TheilSen", "RANSAC", "WLS")


def distinct_components(tf):
    """no two pairs of an output and an input have the same component key (channel names such as Ex and Hy)."""
    outs, ins = PList(tf.out_chans), PList(tf.in_chans)
    a, b = SNum.atom(z3.Int("probe!o"), "int"), SNum.atom(z3.Int("probe!i"), "int")
    key = N.code(X().get_component_key(outs.get(a), ins.get(b)))
    go, gi = [z3.Function(fresh(x), I, I) for x in ("out_of", "in_of")]
    no, ni = iz(tf.n_out), iz(tf.n_in)

    def facts(t):
        env = {}
        if not V.match_all(key, t, (a.z, b.z), env) or len(env) != 2:
            return []
        o, i = env[a.z.get_id()], env[b.z.get_id()]
        return [z3.Implies(z3.And(0 <= o, o < no, 0 <= i, i < ni), z3.And(go(t) == o, gi(t) == i))]
    eng.fn_axioms[key.decl().name()] = facts


class Equations:
    """any regression input: observations B(f, o, row), predictors P(f, row, column)."""
    def __init__(self):
        G = mod("gather")
        tf = self.tf = C22.transfer_function()
        distinct_components(tf)
        nf = self.nf = nat("n_freqs", 1)
        rows = self.rows = per_level("rows", nf, "int", 1)
        B, P = eng.fresh_fn("B", [I] * 3, RE), eng.fresh_fn("P", [I] * 3, RE)
        self.B, self.P = B, P
        outs = PList(tf.out_chans)
        arr = lambda f, o: NDArray.make((rows(f),), A.F64, lambda r: SNum.atom(B(iz(f), iz(o), iz(r)), "real"))
        mat = lambda f: NDArray.make((rows(f), num(tf.n_in) * 2), A.F64, lambda r, c: SNum.atom(P(iz(f), iz(r), iz(c)), "real"))

        def per_out(f):
            return PDict.family(tf.n_out, lambda o: outs.get(o), generic_object(lambda o: arr(f, o)))
        freqs = self.freqs = real_array("freqs", nf)
        require_forall(nf, lambda f: freqs.at(f) > 0)
        M = lambda x: build(G.SiteCombinedMetadata, file_info=None, site_name=sstr("site" + x), fs=pos_real("fs" + x), chans=getattr(tf, x + "_chans"), n_evals=nf, eval_freqs=freqs.tolist(), histories=PDict(), measurements=PList())
        md = build(Rg().RegressionInputMetadata, contributors=PDict([(x + "_data", M(x)) for x in ("out", "in", "cross")]), history=records())
        self.ri = Rg().RegressionInputData(md, tf, freqs.tolist(), PList.sym(nf, generic_object(per_out)), PList.sym(nf, generic_object(mat)))

    def which(self, obs, preds):
        """the equations passed: frequency and output."""
        r, c = sint("r"), sint("c")
        if not (isinstance(obs, NDArray) and obs.ndim == 1 and isinstance(preds, NDArray) and preds.ndim == 2):
            raise ValueError("not equations")
        y, x = obs.at(r), preds.at(r, c)
        head = lambda t, g: z3.is_app(t) and t.decl().eq(g.decl())
        if not (head(y.z, self.B(*[z3.IntVal(0)] * 3)) and head(x.z, self.P(*[z3.IntVal(0)] * 3)) and y.z.arg(2).eq(r.z) and x.z.arg(1).eq(r.z) and x.z.arg(2).eq(c.z)):
            ensure(False, "coefficients are found from the equations")
            raise ValueError("not the equations")
        f, o = [SNum.atom(y.z.arg(j), "int") for j in (0, 1)]
        ensure(SNum.atom(x.z.arg(0), "int") == f, "predictors and observations of the same frequency")
        ensure(And(num(obs.shape[0]) == self.rows(f), num(preds.shape[0]) == self.rows(f), num(preds.shape[1]) == num(self.tf.n_in) * 2), "all the equations")
        return f, o


def solve(name):
    cls = getattr(Rg(), "SolverScikit" + name)
    e = Equations()
    tf, ri, nf = e.tf, e.ri, e.nf
    co = z3.Function(fresh("coef"), I, I, I, RE)
    C = lambda f, o, j: SNum.atom(co(iz(f), iz(o), iz(j)), "real")

    def coef(self, model, obs, preds):
        f, o = e.which(obs, preds)
        return NDArray.make((num(tf.n_in) * 2,), A.F64, lambda j: C(f, o, j))
    method(cls, "_get_coef", coef)
    s = cls()
    m = mark()
    nrec, old = ri.metadata.history.records.n, PList(ri.metadata.history.records)
    o = attempt(s.run, ri)
    ensure(o.ok, "solved")
    if not o.ok:
        return
    cover("done")
    unchanged(m, "regression input unchanged")
    sol = o.value
    ensure_same(sol.tf, tf, "transfer function")
    ensure_list(sol.freqs, nf, lambda k: e.freqs.at(k), "frequencies")
    ensure_same(sol.contributors, ri.metadata.contributors, "contributors")
    recs = PList(sol.history.records)
    ensure(num(recs.n) == num(nrec) + 1, "one more record")
    ensure_forall(nrec, lambda i: ensure_same(recs.get(i), old.get(i), "earlier record"), "earlier records")
    ensure(recs.get(nrec).creator["name"] == s.name, "new record names the solver")
    f, u, i = nat("f"), nat("u"), nat("i")
    require(And(f < nf, u < tf.n_out, i < tf.n_in))
    feasible()
    re, im = C(f, u, i * 2), C(f, u, i * 2 + 1)

    def stored():
        c = sol.components.lookup(X().get_component_key(PList(tf.out_chans).get(u), PList(tf.in_chans).get(i)))
        ensure(c is not V.MISSING, "a component for every output and input")
        if c is V.MISSING:
            return
        ensure(And(num(PList(c.real).n) == nf, num(PList(c.imag).n) == nf), "a value per frequency")
        ensure(PList(c.real).get(f) == re, "real part from the coefficient of the output, input and frequency")
        ensure(PList(c.imag).get(f) == im, "imaginary part from the following coefficient")
    branches(stored)
    ensure(sol.components.n == num(tf.n_out) * tf.n_in, "no other components")


for _s in SOLVERS:
    contract("C23", f"solution of {_s}", [FN + f"SolverScikit{_s}.run"] + [FN + "SolverScikit." + f for f in ("_solve", "_get_tensor", "_get_solution")] +
             [FN + "RegressionInputData.get_inputs", FN + "RegressionInputData.n_freqs", "resistics.transfunc.get_component_key"])(lambda s=_s: solve(s))


def coefficients(name):
    """the coefficients are those of the estimator fitted to these equations."""
    cls = getattr(Rg(), "SolverScikit" + name)
    n, p = nat("n_obs", 1), nat("n_regressors", 1)
    obs, preds = real_array("obs", n), real_array("preds", n, p)
    s = cls()
    if name == "TheilSen" and decide(sbool("subsampled")):
        s.n_subsamples = pos_real("n_subsamples")
    model = science.ests[{"OLS": "LinearRegression", "Huber": "HuberRegressor", "TheilSen": "TheilSenRegressor", "RANSAC": "RANSACRegressor"}[name]]()
    fits = PList()
    science.FITS[:] = [fits]
    m = mark()
    o = attempt(s._get_coef, model, obs, preds)
    science.FITS[:] = []
    ensure(o.ok, "solved")
    if not o.ok:
        return
    cover("done")
    unchanged(m, "equations unchanged", [obs, preds])
    ensure(fits.n == 1, "one fit")
    f = fits.get(0)
    ensure_same_array(f.X, preds, "fitted to the predictors")
    ensure_same_array(f.y, obs, "fitted to the observations")
    ensure(f.w is None, "all equations alike")
    ensure_same_array(o.value, f.coef(), "coefficients of the fit")


for _s in SOLVERS[:-1]:
    contract("C23", f"coefficients of {_s}", [FN + ("SolverScikitTheilSen._get_coef" if _s == "TheilSen" else "SolverScikitRANSAC._get_coef" if _s == "RANSAC" else "SolverScikit._get_coef")])(lambda s=_s: coefficients(s))


def component(n, name):
    re, im = real_array(name + "_re", n), real_array(name + "_im", n)
    return build(X().Component, real=re.tolist(), imag=im.tolist()), re, im


@contract("C23", "component accessors", [FN + "Solution." + f for f in ("get_component", "__getitem__", "get_tensor", "n_freqs", "periods")] + ["resistics.transfunc.Component.get_value", "resistics.transfunc.Component.to_numpy"])
def accessors():
    tf = C22.transfer_function()
    distinct_components(tf)
    nf = nat("n_freqs", 1)
    freqs = real_array("freqs", nf)
    require_forall(nf, lambda f: freqs.at(f) > 0)
    vr, vi = [eng.fresh_fn(x, [I] * 3, RE) for x in ("re", "im")]
    part = lambda g, o, i: PList.sym(nf, lambda f: SNum.atom(g(iz(o), iz(i), iz(f)), "real"))
    outs, ins = PList(tf.out_chans), PList(tf.in_chans)
    key = lambda o, i: X().get_component_key(outs.get(o), ins.get(i))
    comps = PDict()
    comps.layers = (("f", V.nested(V.prefix(num(tf.n_out), lambda o: num(tf.n_in)), key, lambda o, i: build(X().Component, real=part(vr, o, i), imag=part(vi, o, i)))),)
    sol = build(Rg().Solution, file_info=None, tf=tf, freqs=freqs.tolist(), components=comps, history=records(), contributors=PDict())
    f, u, i = nat("f"), nat("u"), nat("i")
    require(And(f < nf, u < tf.n_out, i < tf.n_in))
    feasible()
    at = lambda g, f: SNum.atom(g(iz(u), iz(i), iz(f)), "real")
    m = mark()

    def tensor():
        t = attempt(sol.get_tensor, f)
        ensure(t.ok, "tensor")
        if t.ok:
            cover("tensor")
            ensure(len(t.value.shape) == 2 and And(num(t.value.shape[0]) == tf.n_out, num(t.value.shape[1]) == tf.n_in), "outputs by inputs")
            z = t.value.at(u, i)
            ensure(And(z.re == at(vr, f), z.im == at(vi, f)), "tensor entries")
            unchanged(m, "solution unchanged")

    def named(get):
        c = attempt(get, key(u, i))
        ensure(c.ok, "component")
        if c.ok:
            cover("component")
            ensure(len(c.value.shape) == 1 and num(c.value.shape[0]) == nf, "a value per frequency")
            z = c.value.at(f)
            ensure(And(z.re == at(vr, f), z.im == at(vi, f)), "values of the component")

    def value():
        c = attempt(comps[key(u, i)].get_value, f)
        ensure(c.ok and And(c.value.re == at(vr, f), c.value.im == at(vi, f)), "value at a frequency")

    def unknown():
        k = sstr("k")
        require(comps.lookup(k) is V.MISSING)
        must_fail(attempt(sol.get_component, k), ValueError, "unknown component")

    def rest():
        ensure(sol.n_freqs == nf, "number of frequencies")
        p = sol.periods
        ensure(num(p.shape[0]) == nf, "as many periods")
        ensure_cells(p, lambda j: quotient(num(1), freqs.at(j)), "periods")
    branches(tensor)
    branches(lambda: named(sol.get_component))
    branches(lambda: named(sol.__getitem__))
    branches(value)
    branches(unknown)
    branches(rest)


@contract("C23", "apparent resistivity", ["resistics.transfunc.ImpedanceTensor.get_resistivity", "resistics.transfunc.Component.to_numpy"])
def resistivity():
    n = nat("n", 1)
    c, re, im = component(n, "c")
    p = real_array("periods", n)
    m = mark()
    o = attempt(X().ImpedanceTensor.get_resistivity, p, c)
    ensure(o.ok, "computed")
    if not o.ok:
        return
    cover("done")
    unchanged(m, "component unchanged")
    ensure(num(o.value.shape[0]) == n, "a value per period")
    ensure_cells(o.value, lambda j: const(Fraction("0.2")) * p.at(j) * (re.at(j) * re.at(j) + im.at(j) * im.at(j)), "a fifth of the period times the squared magnitude")


@contract("C23", "tipper length", ["resistics.transfunc.Tipper.get_length"])
def tipper():
    n = nat("n", 1)
    x, xr, _ = component(n, "x")
    y, yr, _ = component(n, "y")
    comps = PDict([("HzHx", x), ("HzHy", y)])
    m = mark()
    o = attempt(X().Tipper().get_length, comps)
    ensure(o.ok, "computed")
    if not o.ok:
        return
    cover("done")
    unchanged(m, "components unchanged")
    ensure(num(o.value.shape[0]) == n, "a value per frequency")
    i = nat("i")
    require(i < n)
    v = o.value.at(i)
    ensure(And(v >= 0, v * v == xr.at(i) * xr.at(i) + yr.at(i) * yr.at(i)), "length of the vector of the two real parts")
