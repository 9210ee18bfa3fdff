from common import *
from gen import *
import C23
from resistics import regression as R


def residuals(rng, k):
    n = rng.randrange(1, 12)
    r = [rng.choice([0.0, k, k * 2, np.nextafter(k, 9), np.nextafter(k, 0), rng.uniform(0, 3 * k), rng.uniform(0, 100)]) for _ in range(n)]
    return np.array(r)


@scenario(weight=3)
def weights(rng):
    s = R.SolverScikitWLS()
    kb, kh, kt = rng.choice([(None, None, None), (rng.uniform(0.1, 8), rng.uniform(0.1, 4), rng.uniform(0.1, 4))])
    r = residuals(rng, rng.choice([kb or 4.685, kh or 1.345, kt or 2]))
    sh = rng.choice([(-1,), (-1, 1)])
    note(r=r.tolist(), thresholds=(kb, kh, kt), shape=sh)
    before = r.copy()
    kw = lambda k: {} if k is None else dict(k=k)
    b, h, t = s.bisquare(r.reshape(sh), **kw(kb)), s.huber(r.reshape(sh), **kw(kh)), s.trimmed_mean(r.reshape(sh), **kw(kt))
    kb, kh, kt = kb or 4.685, kh or 1.345, kt or 2
    same(r, before, "the residuals")
    close(b, np.array([(1 - min(1.0, x / kb) ** 2) ** 2 for x in r]), "bisquare weights", rtol=1e-12)
    close(h, np.array([1.0 if x <= kh else kh / x for x in r]), "Huber weights", rtol=1e-12)
    close(t, np.array([1.0 if x <= kt else 0.0 for x in r]), "trimmed mean weights")


class Est:
    fits = []

    def __init__(self, rng_coefs, n):
        self.coefs, self.k = rng_coefs, 0

    def fit(self, X, y, sample_weight=None):
        Est.fits.append((X.copy(), y.copy(), np.array(sample_weight)))
        self.coef_ = self.coefs[self.k]
        self.k += 1

    def predict(self, X):
        return X @ self.coef_


class Scaler:
    def fit_transform(self, x):
        m = np.median(x, axis=0)
        q = np.percentile(x, 75, axis=0) - np.percentile(x, 25, axis=0)
        return np.abs(x - 0 * m) / np.where(q == 0, 1, q)


@scenario(weight=2)
def iterations(rng):
    import sklearn.preprocessing as sp
    n, p, it = 2 * rng.randrange(3, 9), 2 * rng.randrange(1, 3), rng.randrange(1, 6)
    X, y = np.random.normal(size=(n, p)), np.random.normal(size=n) * rng.choice([1, 5])
    coefs = [np.random.normal(size=p) for _ in range(it)]
    note(n=n, n_iter=it)
    s = R.SolverScikitWLS(n_iter=it)
    Est.fits = []
    old = getattr(sp, "RobustScaler", None)
    sp.RobustScaler = Scaler
    try:
        c = s._get_coef(Est(coefs, n), y, X)
    finally:
        if old is None:
            del sp.RobustScaler
        else:
            sp.RobustScaler = old
    same(len(Est.fits), it, "number of fits")
    same(c, coefs[-1], "coefficients of the last fit")
    w = np.ones(n)
    for i, (fx, fy, fw) in enumerate(Est.fits):
        same([fx, fy], [X, y], f"data of fit {i}")
        close(fw, w, f"weights of fit {i}", rtol=1e-12)
        r = Scaler().fit_transform(np.abs(y - X @ coefs[i]).reshape(-1, 1)).ravel()
        w = (r <= 2).astype(float)
