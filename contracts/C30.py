from objs import *

R = lambda: mod("regression")
FN = "resistics.regression.SolverScikitWLS."


def residuals():
    r = real_array("r", nat("n"))
    require_forall(r.n, lambda i: r.at(i) >= 0)
    r = r.copy()
    return r, (r.reshape(r.n, 1) if decide(sbool("column")) else r)


def weights(method, formula, default):
    r, given = residuals()
    s = R().SolverScikitWLS()
    k = None if decide(sbool("default threshold")) else pos_real("k")
    m = mark()
    o = attempt(getattr(s, method), given) if k is None else attempt(getattr(s, method), given, k)
    ensure(o.ok, "weights for every residual")
    if not o.ok:
        return
    k = const(default) if k is None else k
    cover("done")
    w = o.value
    ensure(len(w.shape) == 1 and num(w.shape[0]) == r.n, "one weight per residual")
    ensure_cells(w, lambda i: formula(r.at(i), k), "each weight is the function of its own residual")
    unchanged(m, "the residuals are unchanged")


@contract("C30", "Huber weights", [FN + "huber"])
def huber():
    weights("huber", lambda r, k: Ite(r <= k, num(1) * const(1), quotient(k, r)), Fraction("1.345"))


@contract("C30", "trimmed mean weights", [FN + "trimmed_mean"])
def trimmed():
    weights("trimmed_mean", lambda r, k: Ite(r <= k, const(1), const(0)), 2)


@contract("C30", "bisquare weights", [FN + "bisquare"])
def bisquare():
    def f(r, k):
        t = N.smin(num(1), quotient(r, k))
        return (1 - t * t) * (1 - t * t)
    weights("bisquare", f, Fraction("4.685"))


@contract("C30", "iteratively reweighted solver", [FN + "_get_coef", FN + "trimmed_mean"])
def reweighted():
    n, p = nat("n_obs", 1), nat("n_regressors", 1)
    obs, preds = real_array("obs", n), real_array("preds", n, p)
    s = R().SolverScikitWLS(n_iter=nat("n_iter", 1))
    model = science.ests["LinearRegression"](fit_intercept=sbool("intercept"))
    fits = PList()
    science.FITS[:] = [fits]
    m = mark()
    o = attempt(s._get_coef, model, obs, preds)
    science.FITS[:] = []
    ensure(o.ok, "solved")
    if not o.ok:
        return
    cover("done")
    k = fits.n
    ensure(k == s.n_iter, "one fit per iteration")
    st = PList(fits)
    ensure_cells(st.get(0).w, lambda i: const(1), "the first fit weighs all observations equally")
    q = sint("q")
    branches(lambda: step(st, q, k, obs, preds))
    ensure_same_array(o.value, st.get(k - 1).coef(), "coefficients of the last fit")


def step(st, q, k, obs, preds):
    require(0 <= q, q + 1 < k)
    a, b = st.get(q), st.get(q + 1)
    ensure_same_array(b.X, preds, "every fit uses the predictors")
    ensure_same_array(b.y, obs, "every fit uses the observations")
    pred = a.predict(preds)
    res = NDArray.make((obs.n, 1), A.F64, lambda i, j: abs(obs.at(i) - pred.at(i)))
    r = science.along("robust_scale", res, 0, obs.n)
    ensure(num(b.w.shape[0]) == obs.n, "one weight per observation")
    ensure_cells(b.w, lambda i: Ite(r.at(i, 0) <= 2, const(1), const(0)), "weights from the scaled absolute residuals of the previous fit")
