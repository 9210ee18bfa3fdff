"""scipy and scikit-learn as uninterpreted functionals of their arguments."""
import z3
from . import reg
from ..core import eng, Unsupported, model_exc
from .. import num as N
from ..num import SNum, SBool, SStr, SComplex, num, iz, And, Or, Not, Implies, Ite
from .. import values as V
from ..values import PList, PDict, PObject, decide, clen
from .. import arrays as A
from ..arrays import NDArray, asarray, F64, C128


def axis_norm(a, axis):
    if not -a.ndim <= axis < a.ndim:
        raise model_exc(ValueError("axis out of range"))
    return axis % a.ndim


def along(name, a, axis, n_out, args=(), dtype=None, cplx=False):
    """out[..., k, ...] = name(row, len, args, k)"""
    a = asarray(a)
    axis = axis_norm(a, axis)
    c = a.freeze_cell()
    n = a.shape[axis]
    shape = list(a.shape)
    shape[axis] = n_out

    def f(*ix):
        row = lambda j: c(*ix[:axis], j, *ix[axis + 1:])
        if a.dtype.kind == "c":
            return SComplex(A.functional(name, [lambda j: row(j).re], [n] + list(args), [ix[axis]]),
                            A.functional(name, [lambda j: row(j).im], [n] + list(args), [ix[axis]]))
        if cplx:
            return SComplex(A.functional(name + ".re", [row], [n] + list(args), [ix[axis]]),
                            A.functional(name + ".im", [row], [n] + list(args), [ix[axis]]))
        return A.functional(name, [row], [n] + list(args), [ix[axis]])
    return NDArray.make(shape, dtype or (C128 if cplx else (a.dtype if a.dtype.kind in "fc" else F64)), f)


class SOS:
    """coefficients of butter(order, Wn, btype): identified by the arguments."""
    def __init__(self, args):
        self.args = args


V.SUBST[SOS] = lambda v, k, i: SOS([V.subst(a, k, i) for a in v.args])


def butter(N_, Wn, btype="low", analog=False, output="ba", fs=None):
    if output != "sos" or analog:
        raise Unsupported("butter output")
    names = {"lowpass": "low", "low": "low", "lp": "low", "highpass": "high", "high": "high", "hp": "high", "bandpass": "band",
             "band": "band", "bp": "band", "pass": "band", "bandstop": "stop", "stop": "stop", "bs": "stop", "bands": "stop"}
    if isinstance(btype, str) and btype.lower() in names:
        btype = names[btype.lower()]
    else:
        raise model_exc(ValueError("bad btype"))
    if isinstance(Wn, (PList, tuple, NDArray)):
        w = PList(Wn) if isinstance(Wn, tuple) else Wn
        w = list((w if isinstance(w, PList) else w.tolist()).concrete())
    else:
        w = [Wn]
    if fs is not None:
        w = [num(x) * 2 / num(fs) for x in w]
    w = [num(x) for x in w]
    if btype in ("band", "stop"):
        if len(w) != 2:
            raise model_exc(ValueError("Wn must specify start and stop"))
        if not decide(w[0] < w[1]):
            raise model_exc(ValueError("Wn[0] must be less than Wn[1]"))
    elif len(w) != 1:
        raise model_exc(ValueError("Wn must be scalar"))
    for x in w:
        if not decide(And(x > 0, x < 1)):
            raise model_exc(ValueError("Digital filter critical frequencies must be 0 < Wn < 1"))
    return SOS([btype, N_] + w)


def sosfiltfilt(sos, x, axis=-1, **k):
    if k or not isinstance(sos, SOS):
        raise Unsupported("sosfiltfilt arguments")
    x = asarray(x)
    return along("sosfiltfilt", x, axis, x.shape[axis_norm(x, axis)], sos.args)


def resample_poly(x, up, down, axis=0, window=("kaiser", 5.0), padtype="constant", cval=None):
    x = asarray(x)
    axis = axis_norm(x, axis)
    n = x.shape[axis]
    if not decide(And(up > 0, down > 0)):
        raise model_exc(ValueError("up and down must be >= 1"))
    # scipy reduces up/down by their gcd; the length is ceil(n*up/down)
    m = N.ceil(num(n) * num(up) / num(down))
    args = [num(up) / num(down)] + win_args(window) + [padtype if isinstance(padtype, (str, SStr)) else "p"]
    return along("resample_poly", x, axis, m, args)


def win_args(w):
    if isinstance(w, tuple):
        return [y for x in w for y in win_args(x)]
    if isinstance(w, (str, SStr, int, SNum)):
        return [w]
    import fractions
    if isinstance(w, (fractions.Fraction, float)):
        return [w]
    raise Unsupported("window argument")


def decimate(x, q, n=None, ftype="iir", axis=-1, zero_phase=True):
    x = asarray(x)
    axis = axis_norm(x, axis)
    ln = x.shape[axis]
    if not (isinstance(q, int) or isinstance(q, SNum) and q.kind == "int"):
        raise model_exc(TypeError("q must be an integer"))
    if n is not None or not isinstance(ftype, str):
        raise Unsupported("decimate(n, ftype)")
    m = -((-num(ln)) // num(q))     # the smallest whole number not below ln/q
    return along("decimate", x, axis, m, [q, ftype, zero_phase])


def detrend(x, axis=-1, type="linear", bp=0, overwrite_data=False):
    x = asarray(x)
    axis = axis_norm(x, axis)
    return along("detrend", x, axis, x.shape[axis], [type])


def get_window(w, nx, fftbins=True):
    args = win_args(w)
    return NDArray.make((nx,), F64, lambda i: A.functional("get_window", [], args + [nx, fftbins], [i]))


def dpss(M, NW, Kmax=None, sym=True, norm=None, return_ratios=False):
    if Kmax is not None or return_ratios:
        raise Unsupported("dpss(Kmax)")
    return NDArray.make((M,), F64, lambda i: A.functional("dpss", [], [M, num(NW), sym], [i]))


def next_fast_len(n, real=False):
    t = z3.Function("next_fast_len", z3.IntSort(), z3.BoolSort(), z3.IntSort())(iz(n), N.bz(real))
    r = SNum.atom(t, "int")
    eng.assume(r >= n)
    return r


def rfft(x, n=None, axis=-1, norm=None, **k):
    if set(k) - {"workers"}:
        raise Unsupported("rfft options")
    x = asarray(x)
    axis = axis_norm(x, axis)
    m = x.shape[axis] if n is None else n
    return along("rfft", x, axis, num(m) // 2 + 1 if True else m, [m, "backward" if norm is None else norm], cplx=True)


def rfftfreq(n, d=1.0):
    n = num(n)
    return NDArray.make((n // 2 + 1,), F64, lambda i: num(i) / (n * num(d)))


class interp1d:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        if kind != "linear":
            raise Unsupported("interp1d kind")
        if bounds_error is not None or fill_value is not None:
            raise Unsupported("interp1d bounds")
        self.x, self.y = asarray(x), asarray(y)
        self.axis = axis_norm(self.y, axis)
        if self.x.ndim != 1:
            raise model_exc(ValueError("x must be 1-D"))
        if not decide(num(self.x.n) == self.y.shape[self.axis]):
            raise model_exc(ValueError("x and y arrays must be equal in length"))
        self.xc, self.yc, self.m = self.x.freeze_cell(), self.y.freeze_cell(), self.x.n

    def __call__(self, q):
        q = asarray(q)
        if q.ndim != 1:
            raise Unsupported("interp1d of nd points")
        qc, m, xc = q.freeze_cell(), self.m, self.xc
        inr = lambda v: And(num(xc(0)) <= v, v <= xc(m - 1))
        if not A.forall_valid(q.n, lambda j: inr(num(qc(j)))):
            raise Unsupported("interp1d points not provably in range")
        shape = list(self.y.shape)
        shape[self.axis] = q.n
        ax = self.axis

        def f(*ix):
            v = num(qc(ix[ax]))
            row = lambda j: self.yc(*ix[:ax], j, *ix[ax + 1:])

            def part(rw):
                y = A.functional("interp1d", [xc, rw], [m, v], [])
                seg = lambda j: Implies(And(num(xc(j)) <= v, v <= xc(j + 1), num(xc(j)) < xc(j + 1)),
                                        (y - rw(j)) * (num(xc(j + 1)) - xc(j)) == (num(rw(j + 1)) - rw(j)) * (v - xc(j)))
                eng.forall(0, m - 1, seg)
                return y
            p = row(SNum.atom(z3.Int("probe!row"), "int"))
            if isinstance(p, SComplex):
                return SComplex(part(lambda j: row(j).re), part(lambda j: row(j).im))
            return part(row)
        return NDArray.make(shape, C128 if self.y.dtype.kind == "c" else F64, f)


def uniform_filter1d(x, size, axis=-1, **k):
    x = asarray(x)
    if k:
        raise Unsupported("uniform_filter1d options")
    return along("uniform_filter1d", x, axis, x.shape[axis_norm(x, axis)], [size])


def gaussian_filter1d(x, sigma, axis=-1, **k):
    x = asarray(x)
    if k:
        raise Unsupported("gaussian_filter1d options")
    return along("gaussian_filter1d", x, axis, x.shape[axis_norm(x, axis)], [sigma])


reg("scipy.signal", butter=butter, sosfiltfilt=sosfiltfilt, resample_poly=resample_poly, decimate=decimate, detrend=detrend, get_window=get_window)
reg("scipy.signal.windows", dpss=dpss)
reg("scipy.fft", rfft=rfft, rfftfreq=rfftfreq, next_fast_len=next_fast_len)
reg("scipy.interpolate", interp1d=interp1d)
reg("scipy.ndimage", uniform_filter1d=uniform_filter1d, gaussian_filter1d=gaussian_filter1d)


# ------------------------------------------------------------- scikit-learn
class BaseEstimator(PObject):
    _pv_native = True


class Fit:
    """what a fit was given."""
    def __init__(self, model, params, X, y, w):
        self.model, self.params, self.X, self.y, self.w = model, params, X, y, w

    def rows(self):
        c, d = self.X.freeze_cell(), self.y.freeze_cell()
        if self.y.ndim != 1 or self.X.ndim != 2:
            raise Unsupported("fit of arrays of these dimensions")
        r = [A.Rows2(lambda i, j: c(i, j)), lambda i: d(i)]
        if self.w is not None:
            e = self.w.freeze_cell()
            r.append(lambda i: e(i))
        return r

    def args(self):
        return [self.X.shape[0], self.X.shape[1]] + self.params

    def coef(self):
        return NDArray.make((self.X.shape[1],), F64, lambda j: A.functional("coef " + self.model, self.rows(), self.args(), [j]))

    def predict(self, X):
        c = X.freeze_cell()
        return NDArray.make((X.shape[0],), F64, lambda i: A.functional("predict " + self.model, self.rows() + [A.Rows2(lambda a, b: c(a, b))], self.args(), [i]))


V.SUBST[Fit] = lambda v, k, i: Fit(v.model, V.subst(v.params, k, i), *[V.subst(x, k, i) for x in (v.X, v.y, v.w)])
FITS = []       # ghost: a contract may put a list here; every fit is appended to it


class Estimator(BaseEstimator):
    """fit() leaves the coefficients that the model and its parameters give for the data:
    an uninterpreted function of them (random state aside)."""
    kind = "est"

    def __init__(self, *a, **k):
        self.k = dict(k, **{f"arg{j}": v for j, v in enumerate(a)})

    def flat(self):
        out = [self.kind]
        for n in sorted(self.k):
            v = self.k[n]
            out += [n] + (v.flat() if isinstance(v, Estimator) else ["none" if v is None else v])
        return out

    def fit(self, X, y, sample_weight=None):
        X, y = asarray(X), asarray(y)
        w = None if sample_weight is None else asarray(sample_weight)
        if X.ndim != 2 or not decide(num(X.shape[0]) == y.shape[0]):
            raise model_exc(ValueError("inconsistent numbers of samples"))
        if w is not None and (w.ndim != 1 or not decide(num(w.shape[0]) == y.shape[0])):
            raise model_exc(ValueError("sample_weight.shape"))
        f = Fit(self.kind, self.flat(), X.copy(), y.copy(), None if w is None else w.copy())
        self.coef_ = f.coef()
        self.fitted = f
        if self.kind == "RANSACRegressor":
            self.estimator_ = Estimator()
            self.estimator_.coef_ = self.coef_
        if FITS:
            FITS[0].append(f)
        return self

    def predict(self, X):
        return self.fitted.predict(asarray(X))


def unknown1(nm):
    from .numpy_ import unknown_cells
    return unknown_cells(nm, 1, F64)


ests = {n: type(n, (Estimator,), {"kind": n}) for n in ("LinearRegression", "RANSACRegressor", "TheilSenRegressor", "HuberRegressor", "Ridge")}
reg("sklearn.base", BaseEstimator=BaseEstimator)
reg("sklearn.linear_model", **ests)


class RobustScaler(BaseEstimator):
    def __init__(self, **k):
        pass

    def fit_transform(self, X):
        X = asarray(X)
        if X.ndim != 2:
            raise model_exc(ValueError("Expected 2D array"))
        return along("robust_scale", X, 0, X.shape[0])


def unknown_arr(nm, n):
    return NDArray.make((n,), F64, unknown1(nm))


reg("sklearn.preprocessing", RobustScaler=RobustScaler)
