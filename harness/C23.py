from common import *
from gen import *
import C22
from resistics import regression as R, transfunc as X, gather as G
import sklearn.linear_model as lm
import sklearn.preprocessing as sp


class Fake:
    """an estimator whose coefficients are a known function of what it is fitted to."""
    fits = []

    def __init__(self, *a, **k):
        self.args = (a, k)

    def fit(self, X, y, sample_weight=None):
        self.coef_ = coef(X, y)
        self.estimator_ = self
        Fake.fits.append((X, y, sample_weight))
        return self

    def predict(self, X):
        return X @ self.coef_


def coef(X, y):
    return np.arange(1, X.shape[1] + 1) * (1.0 + y.sum()) + X.sum(axis=0)


class Scaler:
    def fit_transform(self, x):
        return x / 2


class fakes:
    def __enter__(self):
        self.old = {}
        for m, ns in ((lm, ("LinearRegression", "HuberRegressor", "TheilSenRegressor", "RANSACRegressor")), (sp, ("RobustScaler",))):
            for n in ns:
                self.old[m, n] = getattr(m, n, None)
                setattr(m, n, Scaler if n == "RobustScaler" else Fake)
        Fake.fits = []

    def __exit__(self, *a):
        for (m, n), v in self.old.items():
            if v is None:
                delattr(m, n)
            else:
                setattr(m, n, v)


def regression_input(rng, t, nf=None):
    from resistics.common import History
    nf = rng.randrange(1, 6) if nf is None else nf
    freqs = [rng.uniform(0.1, 30) for _ in range(nf)]
    obs, preds = [], []
    for _ in range(nf):
        n = 2 * rng.randrange(3, 8)
        obs.append({c: np.random.normal(size=n) for c in t.out_chans})
        preds.append(np.random.normal(size=(n, 2 * t.n_in)))
    m = G.SiteCombinedMetadata(site_name="a", fs=64.0, chans=t.out_chans, n_evals=nf, eval_freqs=freqs, histories={}, measurements=["m"])
    md = R.RegressionInputMetadata(contributors={"out_data": m}, history=History(records=[record(rng)]))
    return R.RegressionInputData(md, t, freqs, obs, preds)


def transfer_function(rng):
    k = rng.randrange(4)
    if k == 0:
        return X.ImpedanceTensor()
    if k == 1:
        return X.Tipper()
    return C22.tf(rng, ["Ex", "Ey", "Hx", "Hy", "Hz"])


@scenario(weight=3)
def solve(rng):
    t = transfer_function(rng)
    ri = regression_input(rng, t)
    s = rng.choice([R.SolverScikitOLS, R.SolverScikitHuber, R.SolverScikitTheilSen, R.SolverScikitRANSAC, R.SolverScikitWLS])()
    if s.name == "SolverScikitWLS":
        s = R.SolverScikitWLS(n_iter=3)
    note(solver=s.name, chans=[t.out_chans, t.in_chans], n_freqs=ri.n_freqs)
    before = freeze(ri.metadata)
    with fakes():
        sol = s.run(ri)
    same(freeze(ri.metadata), before, "metadata of the regression input")
    same(list(sol.freqs), ri.freqs, "frequencies")
    same(sol.n_freqs, len(ri.freqs), "number of frequencies")
    same(sol.tf, t, "transfer function")
    same({k: v.dict() for k, v in sol.contributors.items()}, {k: v.dict() for k, v in ri.metadata.contributors.items()}, "contributors")
    same(len(sol.components), len({(a, b) for a in t.out_chans for b in t.in_chans}), "number of components")
    rs = [r.dict() for r in sol.history.records]
    same(rs[:-1], [r.dict() for r in ri.metadata.history.records], "earlier history")
    same(rs[-1]["creator"]["name"], s.name, "record of the solver")
    close(sol.periods, 1 / np.array(ri.freqs), "periods")
    for f in range(ri.n_freqs):
        ten = sol.get_tensor(f)
        same(ten.shape, (t.n_out, t.n_in), "tensor shape")
        for o, oc in enumerate(t.out_chans):
            c = coef(ri.preds[f], ri.obs[f][oc])
            for i, ic in enumerate(t.in_chans):
                e = complex(c[2 * i], c[2 * i + 1])
                k = X.get_component_key(oc, ic)
                close(sol.components[k].real[f], e.real, f"component {k} real part at frequency {f}", rtol=1e-12)
                close(sol.components[k].imag[f], e.imag, f"component {k} imaginary part at frequency {f}", rtol=1e-12)
                close(ten[o, i], e, f"tensor ({o}, {i}) at frequency {f}", rtol=1e-12)
                close(sol[k][f], e, f"[{k}] at frequency {f}", rtol=1e-12)
                close(sol.get_component(k)[f], e, f"get_component {k} at frequency {f}", rtol=1e-12)
                close(sol.components[k].get_value(f), e, f"get_value of {k}", rtol=1e-12)
    refused("unknown component", ValueError, sol.get_component, "XxYy")


def component(rng, n):
    return X.Component(real=[rng.uniform(-5, 5) for _ in range(n)], imag=[rng.uniform(-5, 5) for _ in range(n)])


@scenario()
def derived(rng):
    n = rng.randrange(1, 8)
    c = component(rng, n)
    p = np.array([rng.uniform(0.001, 100) for _ in range(n)])
    note(real=c.real, imag=c.imag, periods=p.tolist())
    close(X.ImpedanceTensor.get_resistivity(p, c), 0.2 * p * (np.array(c.real) ** 2 + np.array(c.imag) ** 2), "apparent resistivity")
    d = component(rng, n)
    close(X.Tipper().get_length({"HzHx": c, "HzHy": d}), np.hypot(c.real, d.real), "tipper length")


@scenario(limit=200)
def stored(rng):
    """a solution written and read back is the same."""
    t = rng.choice([X.ImpedanceTensor(), X.Tipper(), X.ImpedanceTensor(variation="abc", cross_chans=["Hx", "Hy", "Ex"])])
    ri = regression_input(rng, t)
    with fakes():
        sol = R.SolverScikitOLS().run(ri)
    note(tf=t.name, freqs=ri.freqs)
    with Scratch() as d:
        sol.write(d / "s.json")
        b = R.Solution.parse_file(d / "s.json")
    same(type(b.tf), type(t), "type of the transfer function")
    same(b.tf, t, "transfer function")
    same([b.freqs, {k: v.dict() for k, v in b.components.items()}], [sol.freqs, {k: v.dict() for k, v in sol.components.items()}], "solution read back")
