"""Contracts of the numpy functions used by the program."""
from fractions import Fraction
import z3
from . import reg, Mod
from ..core import eng, Unsupported, model_exc, QFact
from .. import num as N
from ..num import SNum, SBool, SStr, SComplex, num, iz, And, Or, Not, Implies, Ite
from .. import values as V
from ..values import PList, clen, decide
from .. import arrays as A
from ..arrays import NDArray, asarray, elementwise, F64, F32, I64, BOOL, C128, C64, OBJ, as_dtype


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, NDArray)


class ndarray(metaclass=_NDMeta):
    def __new__(cls, shape=None, dtype=None, **k):
        return empty(shape, dtype)

    def __class_getitem__(cls, a):
        return cls


def shp(shape):
    if isinstance(shape, PList):
        shape = shape.concrete()
        if shape is None:
            raise Unsupported("symbolic rank")
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    out = []
    for s in shape:
        if isinstance(s, NDArray):
            s = s.item()
        if not (isinstance(s, int) or isinstance(s, SNum) and s.kind == "int"):
            raise model_exc(TypeError("shape must be integers"))
        if not decide(s >= 0):
            raise model_exc(ValueError("negative dimensions are not allowed"))
        out.append(s)
    return tuple(out)


NAN = SNum(N.p_const(0), "real", True)


def full(shape, v, dtype=None):
    dt = as_dtype(dtype) or A.dtype_of_scalar(v)
    v = A.castq(v, dt)
    return NDArray.make(shp(shape), dt, lambda *ix: v)


def zeros(shape, dtype=float, **k):
    dt = as_dtype(dtype) or F64
    return full(shape, A.cast_scalar(num(0), dt) if dt.kind != "O" else 0, dt)


def ones(shape, dtype=float, **k):
    dt = as_dtype(dtype) or F64
    return full(shape, A.cast_scalar(num(1), dt), dt)


def empty(shape, dtype=float, **k):
    """unspecified contents: a fresh unknown value per cell."""
    dt = as_dtype(dtype) or F64
    shape = shp(shape)
    nd = len(shape)
    return NDArray.make(shape, dt, unknown_cells("empty", nd, dt))


def unknown_cells(nm, nd, dt):
    doms = [z3.IntSort()] * nd
    if dt.kind == "c":
        f, g = eng.fresh_fn(nm + "re", doms, z3.RealSort()), eng.fresh_fn(nm + "im", doms, z3.RealSort())
        return lambda *ix: SComplex(SNum.atom(f(*map(iz, ix)), "real"), SNum.atom(g(*map(iz, ix)), "real"))
    if dt.kind == "b":
        f = eng.fresh_fn(nm, doms, z3.BoolSort())
        return lambda *ix: SBool(f(*map(iz, ix)))
    if dt.kind == "i":
        f = eng.fresh_fn(nm, doms, z3.IntSort())
        return lambda *ix: SNum.atom(f(*map(iz, ix)), "int")
    if dt.kind in "OU":
        f = eng.fresh_fn(nm, doms, z3.IntSort())
        return lambda *ix: V.Opaque(f(*map(iz, ix)))
    f = eng.fresh_fn(nm, doms, z3.RealSort())
    return lambda *ix: SNum.atom(f(*map(iz, ix)), "real")


def ones_like(a, dtype=None):
    a = asarray(a)
    return ones(a.shape, dtype or a.dtype)


def zeros_like(a, dtype=None):
    a = asarray(a)
    return zeros(a.shape, dtype or a.dtype)


def empty_like(a, dtype=None):
    a = asarray(a)
    return empty(a.shape, dtype or a.dtype)


def full_like(a, v, dtype=None):
    a = asarray(a)
    return full(a.shape, v, dtype or a.dtype)


def array(x, dtype=None, copy=True, **k):
    if isinstance(x, NDArray):
        return x.copy() if dtype is None else x.astype(dtype)
    return asarray(x, dtype)


def np_asarray(x, dtype=None, **k):
    if isinstance(x, NDArray):
        return x if dtype is None or as_dtype(dtype).name == x.dtype.name else x.astype(dtype)
    return asarray(x, dtype)


def arange(*a, dtype=None, **k):
    a = [x.item() if isinstance(x, NDArray) else x for x in a]
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if not decide(num(st) > 0):
        raise Unsupported("arange step")
    isint = all(isinstance(x, int) or isinstance(x, SNum) and x.kind == "int" for x in (lo, hi, st))
    d = hi - lo
    n = N.ceil(num(d) / num(st)) if not (isinstance(st, int) and st == 1 and isint) else d
    if not decide(n > 0):
        n = 0
    dt = as_dtype(dtype) or (I64 if isint else F64)
    return NDArray.make((n,), dt, lambda i: A.castq(lo + i * st, dt))


def linspace(lo, hi, n=50, **k):
    lo, hi = num(lo), num(hi)
    return NDArray.make((n,), F64, lambda i: lo + (hi - lo) * num(i) / num(n - 1))


def unary(f, kind=None, dtype=None):
    def g(x, *a, **k):
        if k.get("out") is not None or k.get("where", True) is not True:
            raise Unsupported("ufunc out/where")
        if isinstance(x, (PList, tuple)):
            x = asarray(x)
        if isinstance(x, NDArray):
            return elementwise(f, (x,), kind, dtype)
        return f(x)
    return g


def binary(f, kind=None):
    def g(x, y, *a, **k):
        if k.get("out") is not None or k.get("where", True) is not True:
            raise Unsupported("ufunc out/where")
        x, y = [asarray(v) if isinstance(v, (PList, tuple)) else v for v in (x, y)]
        if isinstance(x, NDArray) or isinstance(y, NDArray):
            return elementwise(f, (x, y), kind)
        return f(x, y)
    return g


def rfun(name):
    f = z3.Function("fn_" + name, z3.RealSort(), z3.RealSort())

    def g(x):
        if isinstance(x, SComplex):
            if name == "exp":
                return cexp(x)
            raise Unsupported(name + " of complex")
        c = num(x).const()
        if c == 0 and name in ("sin", "arctan", "tan", "sinh"):
            return N.const(0)
        if c == 0 and name in ("cos", "exp"):
            return N.const(1)
        t = f(N.rz(x))
        eng.keep.append(t)
        return SNum.atom(t, "real")
    return g


COS, SIN, EXP = rfun("cos"), rfun("sin"), rfun("exp")


def cexp(x):
    m = EXP(x.re) if x.re.const() != 0 else num(1)
    return SComplex(m * COS(x.im), m * SIN(x.im))


from ..core import axiom


@axiom("fn_exp")
def _exp_ax(t):
    return [t > 0]


def angle_s(x, deg=False):
    if deg:
        raise Unsupported("angle(deg)")
    x = N.to_complex(x)
    t = z3.Function("fn_angle", z3.RealSort(), z3.RealSort(), z3.RealSort())(N.rz(x.re), N.rz(x.im))
    eng.keep.append(t)
    return SNum.atom(t, "real")


def isnan_s(x):
    if isinstance(x, SComplex):
        r = Or(*[v.nan for v in (x.re, x.im) if v.nan is not None])
        return r
    if isinstance(x, SNum) and x.nan is not None:
        return x.nan
    return False


floor_f = lambda x: SNum(num(N.floor(x)).p, "real")
ceil_f = lambda x: SNum(num(N.ceil(x)).p, "real")

absolute = unary(lambda x: abs(num(x)), "abs")
conj = unary(lambda x: x.conjugate() if isinstance(x, (SNum, SComplex)) else x)
sqrt = unary(lambda x: N.sqrt(x))
floor = unary(floor_f)
ceil = unary(ceil_f)
round_ = lambda x, d=0, **k: unary(lambda v: SNum(num(N.round_half_even(v)).p, num(v).kind))(x) if isinstance(d, int) and d == 0 else _bad("round")
isnan = unary(isnan_s, "bool")
real = lambda x: x.real if not isinstance(x, PList) else asarray(x).real
imag = lambda x: x.imag if not isinstance(x, PList) else asarray(x).imag
angle = lambda x, deg=False: unary(angle_s)(x) if not isinstance(x, NDArray) else elementwise(angle_s, (x,), None, F64)
reciprocal = unary(lambda x: num(1) / num(x), "div")
log = unary(rfun("log"), "div")
log10 = unary(rfun("log10"), "div")
log2 = unary(rfun("log2"), "div")
exp = unary(rfun("exp"), "div")
sin, cos, arctan = unary(rfun("sin"), "div"), unary(rfun("cos"), "div"), unary(rfun("arctan"), "div")
tan = unary(rfun("tan"), "div")
radians = deg2rad = unary(lambda x: num(x) * PI / 180, "div")
power = binary(lambda a, b: N.power(a, b))
mod = remainder = binary(lambda a, b: num(a) % num(b))
minimum = binary(lambda a, b: N.smin(num(a), num(b)))
maximum = binary(lambda a, b: N.smax(num(a), num(b)))
divide = binary(lambda a, b: num(a) / num(b), "div")
multiply = binary(lambda a, b: a * b)
add = binary(lambda a, b: a + b)
subtract = binary(lambda a, b: a - b)
square = unary(lambda a: a * a)
logical_not = unary(lambda a: Not(a if isinstance(a, (bool, SBool)) else num(a) != 0), "bool")
logical_and = binary(lambda a, b: And(a, b), "bool")
logical_or = binary(lambda a, b: Or(a, b), "bool")
PI = SNum.atom(z3.Real("pi"), "real")


from ..core import AXIOMS


@axiom("pi")
def _pi_ax(t):
    return [t > z3.RealVal("3.14159"), t < z3.RealVal("3.1416")]


def _bad(s):
    raise Unsupported("numpy." + s)


# ---------------------------------------------------------------- reductions
def axes_of(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (tuple, PList)):
        return tuple(x % a.ndim for x in axis)
    if not -a.ndim <= axis < a.ndim:
        raise model_exc(IndexError("axis out of bounds"))
    return (axis % a.ndim,)


def reduce_(a, axis, name, keepdims=False, small=None, dtype=None, cplx=True):
    """Each output cell is an (uninterpreted) functional of the row it reduces."""
    a = asarray(a)
    if axis is None and a.ndim > 1:
        a = a.flatten()
    ax = axes_of(a, axis)
    if len(ax) != 1:
        raise Unsupported("multi-axis reduction")
    ax = ax[0]
    n = a.shape[ax]
    cell = a.freeze_cell()
    shape = [s for p, s in enumerate(a.shape) if p != ax]
    cn = clen(n)
    if name in ("min", "max") and not decide(n > 0):
        raise model_exc(ValueError("zero-size array to reduction operation"))

    def f(*ix):
        row = lambda j: cell(*ix[:ax], j, *ix[ax:])
        if small is not None and cn is not None and cn <= 8:
            return small([row(j) for j in range(cn)])
        return row_functional(name, row, n)
    r = NDArray.make(shape, dtype or a.dtype, f)
    if keepdims:
        r = r[tuple([slice(None)] * ax + [None])]
    return r if r.shape != () else r.at()


def row_functional(name, row, n):
    probe = row(SNum.atom(z3.Int("probe!row"), "int"))
    if isinstance(probe, SComplex):
        return SComplex(A.functional(name, [lambda j: row(j).re], [n], []), A.functional(name, [lambda j: row(j).im], [n], []))
    if isinstance(probe, (bool, SBool)):
        return A.functional(name, [lambda j: num(row(j))], [n], [])
    r = A.functional(name, [lambda j: row(j)], [n], [])
    if isinstance(probe, SNum) and probe.nan is not None:
        raise Unsupported("reduction of values that may be NaN")
    return r


def _sum(l):
    r = l[0] if l else num(0)
    for x in l[1:]:
        r = r + x
    return r


def sum_(a, axis=None, keepdims=False, dtype=None, **k):
    a = asarray(a)
    if a.dtype.kind == "b":
        if a.ndim == 1 and clen(a.n) is None and axis in (None, 0, -1) and not keepdims:
            return A.mask_select(a).count
        a = a.astype(I64)
    return reduce_(a, axis, "sum", keepdims, _sum)


def count_nonzero(a, axis=None, **k):
    a = asarray(a)
    if a.dtype.kind != "b":
        a = a != 0
    if a.ndim == 1 and clen(a.n) is None:
        return A.mask_select(a).count
    return sum_(a, axis, **k)


def mean(a, axis=None, keepdims=False, dtype=None, **k):
    a = asarray(a)
    return reduce_(a, axis, "mean", keepdims, None, a.dtype if a.dtype.kind in "fc" else F64)


def fold(better):
    def f(l):
        r = l[0]
        for x in l[1:]:
            r = Ite(better(x, r), x, r)
        return r
    return f


def max_(a, axis=None, **k):
    a = asarray(a)
    if a.ndim == 1 and clen(a.n) is None:
        return extreme(a, lambda x, y: x <= y)
    return reduce_(a, axis, "max", False, fold(lambda x, y: x > y))


def min_(a, axis=None, **k):
    a = asarray(a)
    if a.ndim == 1 and clen(a.n) is None:
        return extreme(a, lambda x, y: x >= y)
    return reduce_(a, axis, "min", False, fold(lambda x, y: x < y))


def extreme(a, ok):
    n = a.n
    if not decide(n > 0):
        raise model_exc(ValueError("zero-size array to reduction operation"))
    c = a.freeze_cell()
    w = N.sint("argext")
    eng.assume(And(0 <= w, w < n))
    r = c(w)
    eng.forall(0, n, lambda q: ok(c(q), r))
    return r


def argmin(a, axis=None):
    a = asarray(a)
    return _argext(a, lambda x, y: x <= y, lambda x, y: x < y)


def argmax(a, axis=None):
    a = asarray(a)
    return _argext(a, lambda x, y: x >= y, lambda x, y: x > y)


def _argext(a, le, lt):
    n = a.n
    if a.ndim != 1:
        raise Unsupported("argmin of nd")
    if not decide(n > 0):
        raise model_exc(ValueError("attempt to get argmin of an empty sequence"))
    c = a.freeze_cell()
    w = N.sint("argm")
    eng.assume(And(0 <= w, w < n))
    r = c(w)
    eng.forall(0, n, lambda q: le(r, c(q)))
    eng.forall(0, w, lambda q: lt(r, c(q)))
    return w


def all_(a, axis=None, **k):
    a = asarray(a)
    if axis is not None or a.ndim > 1:
        if axis is None:
            a = a.flatten()
        else:
            raise Unsupported("all(axis)")
    c = a.freeze_cell()
    n = a.n if a.ndim else 1
    tr = lambda v: v if isinstance(v, (bool, SBool)) else num(v) != 0
    if a.ndim == 0:
        return tr(c())
    cn = clen(n)
    if cn is not None and cn <= 32:
        return And(*[tr(c(i)) for i in range(cn)])
    p = N.sbool("all")
    w = N.sint("allw")
    eng.forall(0, n, lambda q: Implies(p, tr(c(q))))
    eng.assume(Or(p, And(0 <= w, w < n, Not(tr(c(w))))))
    return p


def any_(a, axis=None, **k):
    a = asarray(a)
    if axis is not None:
        raise Unsupported("any(axis)")
    return Not(all_(unary(lambda v: Not(v if isinstance(v, (bool, SBool)) else num(v) != 0), "bool")(a)))


def where(c, *xy):
    if xy:
        x, y = xy
        c, x, y = [asarray(v) if isinstance(v, (PList, tuple)) else v for v in (c, x, y)]
        dts = [v.dtype if isinstance(v, NDArray) else None for v in (x, y)]
        return elementwise(lambda p, a, b: Ite(p, a, b), (c, x, y), None, A.infer_dtype(dts, [x, y], None))
    c = asarray(c)
    if c.ndim != 1:
        raise Unsupported("where(nd)")
    if c.dtype.kind != "b":
        c = elementwise(lambda v: num(v) != 0, (c,), "bool")
    return (A.mask_select(c).positions(),)


nonzero = lambda c: where(c)
flatnonzero = lambda c: where(c)[0]


def squeeze(a, axis=None):
    a = asarray(a)
    if axis is not None:
        ax = axes_of(a, axis)
        for x in ax:
            if not decide(num(a.shape[x]) == 1):
                raise model_exc(ValueError("cannot squeeze"))
    else:
        ax = tuple(p for p, s in enumerate(a.shape) if decide(num(s) == 1))
    r = a[tuple(0 if p in ax else slice(None) for p in range(a.ndim))]
    return r if isinstance(r, NDArray) else NDArray.make((), a.dtype, lambda: r)


def swapaxes(a, x, y):
    return asarray(a).swapaxes(x, y)


def transpose(a, axes=None):
    return asarray(a).transpose(*(axes or ()))


def moveaxis(a, s, d):
    a = asarray(a)
    ax = list(range(a.ndim))
    x = ax.pop(s % a.ndim)
    ax.insert(d % a.ndim, x)
    return a._permute(ax)


def expand_dims(a, axis):
    a = asarray(a)
    axis %= (a.ndim + 1)
    return a[tuple([slice(None)] * axis + [None])]


def reshape(a, shape):
    return asarray(a).reshape(shape)


def concatenate(xs, axis=0, **k):
    xs = V.aslist(xs).concrete()
    if xs is None:
        raise Unsupported("concatenate of a symbolic number of arrays")
    xs = [asarray(x) for x in xs]
    nd = xs[0].ndim
    axis %= nd
    dt = xs[0].dtype
    for x in xs[1:]:
        dt = A.result_dtype(dt, x.dtype)
        for p in range(nd):
            if p != axis and not decide(num(x.shape[p]) == num(xs[0].shape[p])):
                raise model_exc(ValueError("all the input array dimensions must match"))
    tot = 0
    for x in xs:
        tot = tot + x.shape[axis]
    cells = [x.freeze_cell() for x in xs]
    sizes = [x.shape[axis] for x in xs]
    shape = list(xs[0].shape)
    shape[axis] = tot

    def f(*ix):
        i = ix[axis]
        off = 0
        offs = []
        for s in sizes:
            offs.append(off)
            off = off + s
        r = A.castq(cells[-1](*ix[:axis], i - offs[-1], *ix[axis + 1:]), dt)
        for j in range(len(cells) - 2, -1, -1):
            c = i < offs[j] + sizes[j]
            cellj = (lambda j=j: A.castq(cells[j](*ix[:axis], i - offs[j], *ix[axis + 1:]), dt))
            r = A.merge(c, cellj, lambda r=r: r)
        return r
    return NDArray.make(shape, dt, f)


def stack(xs, axis=0):
    xs = [expand_dims(asarray(x), axis) for x in V.aslist(xs).concrete()]
    return concatenate(xs, axis)


def vstack(xs):
    xs = [asarray(x) for x in V.aslist(xs).concrete()]
    return concatenate([x if x.ndim > 1 else x[None] for x in xs], 0)


def hstack(xs):
    xs = [asarray(x) for x in V.aslist(xs).concrete()]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def append(a, b, axis=None):
    return concatenate([asarray(a).flatten(), asarray(b).flatten()], 0)


def diff(a):
    a = asarray(a)
    return a[1:] - a[:-1]


def cumsum(a):
    raise Unsupported("cumsum")


def unwrap(a, *_, **k):
    a = asarray(a)
    c, n = a.freeze_cell(), a.n
    return NDArray.make((n,), F64, lambda i: A.functional("unwrap", [lambda j: c(j)], [n], [i]))


def interp(x, xp, fp, left=None, right=None, period=None):
    if left is not None or right is not None or period is not None:
        raise Unsupported("interp(left/right)")
    xp, fp = asarray(xp), asarray(fp)
    if xp.ndim != 1 or fp.ndim != 1:
        raise model_exc(ValueError("object too deep"))
    m = xp.n
    if not decide(m == fp.n):
        raise model_exc(ValueError("fp and xp are not of the same length"))
    if not decide(m > 0):
        raise model_exc(ValueError("array of sample points is empty"))
    xc, fc = xp.freeze_cell(), fp.freeze_cell()
    inc = increasing(xc, m)

    def one(v):
        v = num(v)
        y = A.functional("interp", [xc, fc], [m, v], [])
        if inc:
            interp_facts(v, y, m, xc, fc)
        return y
    if isinstance(x, (NDArray, PList)):
        x = asarray(x)
        c = x.freeze_cell()
        return NDArray.make(x.shape, F64, lambda *ix: one(c(*ix)))
    return one(x)


def interp_facts(v, y, m, xc, fc):
    """at the ends the end values, between two points on their line."""
    last = m - 1
    eng.assume(Implies(v <= xc(0), y == fc(0)))
    eng.assume(Implies(v >= xc(last), y == fc(last)))
    cm = clen(m)

    def seg(j):
        a, b = num(xc(j)), num(xc(j + 1))
        return Implies(And(a <= v, v <= b, a < b), (y - fc(j)) * (b - a) == (num(fc(j + 1)) - fc(j)) * (v - a))
    if cm is not None and cm <= 8:
        for j in range(cm - 1):
            eng.assume(seg(j))
    else:
        eng.forall(0, last, seg)
    # the segment found, and the value between its ends
    s = num(A.functional("interp segment", [xc], [m, v], [], out="int"))
    lo, hi = num(fc(s)), num(fc(s + 1))
    eng.assume(Implies(And(v > xc(0), v < xc(last)), And(0 <= s, s < last, num(xc(s)) <= v, v <= xc(s + 1), Or(And(lo <= y, y <= hi), And(hi <= y, y <= lo)))))


def increasing(xc, m):
    return A.forall_valid(m - 1, lambda j: num(xc(j)) < xc(j + 1))


def isclose(*a, **k):
    raise Unsupported("isclose")


def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim or not all(decide(num(x) == num(y)) for x, y in zip(a.shape, b.shape)):
        return False
    return all_((a == b).flatten())


def searchsorted(a, v, side="left", sorter=None):
    a = asarray(a)
    if a.ndim != 1 or sorter is not None or not N.isnum(v) or side not in ("left", "right"):
        raise Unsupported("searchsorted")
    c, n = a.freeze_cell(), a.n
    if not A.forall_valid(num(n) - 1, lambda q: c(q) <= c(q + 1)):
        raise Unsupported("searchsorted of what may not be sorted")
    w = N.sint("ss")
    eng.assume(And(0 <= w, w <= n))
    if side == "left":
        eng.forall(0, w, lambda q: c(q) < v)
        eng.forall(w, n, lambda q: c(q) >= v)
    else:
        eng.forall(0, w, lambda q: c(q) <= v)
        eng.forall(w, n, lambda q: c(q) > v)
    return w


def unique(a, **k):
    raise Unsupported("unique")


def sort(a, axis=-1):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported("sort")
    from ..runtime import sort_perm
    c = a.freeze_cell()
    perm, inv = sort_perm(a.n, c)
    return NDArray.make((a.n,), a.dtype, lambda j: c(perm(j)))


def argsort(a, axis=-1, **k):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported("argsort")
    from ..runtime import sort_perm
    perm, inv = sort_perm(a.n, a.freeze_cell())
    return NDArray.make((a.n,), I64, lambda j: perm(j))


def sliding_window_view(x, window_shape, axis=None, **k):
    """a view: cell [i.., j..] of the result is cell [i.. + j..] of x."""
    x = asarray(x)
    tup = lambda v: list(PList(v).concrete() if isinstance(v, PList) else v) if isinstance(v, (tuple, PList, list)) else [v]
    ws = tup(window_shape)
    ax = list(range(x.ndim)) if axis is None else tup(axis)
    if len(ws) != len(ax):
        raise model_exc(ValueError("must provide a window shape for every axis"))
    ax = [a % x.ndim for a in ax]
    shape = list(x.shape)
    for a, w in zip(ax, ws):
        if not decide(num(w) >= 0):
            raise model_exc(ValueError("window shape negative"))
        if not decide(num(w) <= shape[a]):
            raise model_exc(ValueError("window shape cannot be larger than input array shape"))
        shape[a] = num(shape[a]) - w + 1
    nd, im = x.ndim, x.imap

    def imap(ix):
        r = list(ix[:nd])
        for q, a in enumerate(ax):
            r[a] = num(r[a]) + ix[nd + q]
        return im(tuple(r))
    r = NDArray(x.buf, shape + ws, imap, None, x.dtype)
    r.part = x.part
    return r


def array2string(a, *r, **k):
    return N.sstr("arraytext")


def rnd_normal(loc=0, scale=1, size=None):
    if size is None:
        return N.sreal("rnd")
    s = shp(size)
    return NDArray.make(s, F64, unknown_cells("rnd", len(s), F64))


def atleast_1d(a):
    a = asarray(a)
    return a if a.ndim else a[None]


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return None

    def __exit__(self, *a):
        return False


def _io(name):
    def f(*a, **k):
        from . import fs
        return getattr(fs, "np_" + name)(*a, **k)
    return f


class _Generic:
    pass


class _SubMeta(type):
    def __instancecheck__(cls, x):
        return cls.test(x)


def _abstract(name, test):
    return _SubMeta(name, (), {"test": staticmethod(test)})


def issubdtype(d, t):
    d = as_dtype(d)
    nm = getattr(t, "__name__", "")
    k = d.kind
    return {"integer": k == "i", "floating": k == "f", "complexfloating": k == "c", "number": k in "ifc"}.get(nm, False) or (
        as_dtype(t, True) is not None and as_dtype(t).name == d.name)


reg("numpy", count_nonzero=count_nonzero, ndarray=ndarray, nan=NAN, NaN=NAN, pi=PI, newaxis=None, float=float, float64=F64, float32=F32, float_=F64, complex=complex,
    complex128=C128, complex64=C64, int=int, int64=I64, int_=I64, bool=bool, bool_=BOOL, object=object, object_=OBJ, dtype=as_dtype,
    array=array, asarray=np_asarray, asanyarray=np_asarray, ascontiguousarray=np_asarray, arange=arange, linspace=linspace, empty=empty, zeros=zeros, ones=ones, full=full,
    ones_like=ones_like, zeros_like=zeros_like, empty_like=empty_like, full_like=full_like, absolute=absolute, abs=absolute,
    conj=conj, conjugate=conj, sqrt=sqrt, floor=floor, ceil=ceil, round=round_, around=round_, rint=round_, isnan=isnan, real=real,
    imag=imag, angle=angle, reciprocal=reciprocal, log=log, log10=log10, log2=log2, exp=exp, sin=sin, cos=cos, tan=tan, arctan=arctan,
    radians=radians, deg2rad=deg2rad, power=power, float_power=power, mod=mod, remainder=remainder, minimum=minimum, maximum=maximum,
    divide=divide, true_divide=divide, multiply=multiply, add=add, subtract=subtract, square=square, logical_not=logical_not,
    logical_and=logical_and, logical_or=logical_or, sum=sum_, mean=mean, average=mean, max=max_, amax=max_, min=min_, amin=min_,
    argmin=argmin, argmax=argmax, all=all_, any=any_, where=where, nonzero=nonzero, flatnonzero=flatnonzero, squeeze=squeeze,
    swapaxes=swapaxes, transpose=transpose, moveaxis=moveaxis, expand_dims=expand_dims, reshape=reshape, concatenate=concatenate,
    stack=stack, vstack=vstack, hstack=hstack, append=append, diff=diff, unwrap=unwrap, interp=interp, array_equal=array_equal,
    searchsorted=searchsorted, sort=sort, argsort=argsort, array2string=array2string, atleast_1d=atleast_1d, errstate=errstate,
    issubdtype=issubdtype, isclose=isclose, unique=unique, copy=lambda a: asarray(a).copy(),
    integer=_abstract("integer", lambda x: isinstance(x, SNum) and x.kind == "int" and False),
    floating=_abstract("floating", lambda x: False), number=_abstract("number", lambda x: False),
    load=_io("load"), save=_io("save"), savez_compressed=_io("savez_compressed"), savez=_io("savez_compressed"), savetxt=_io("savetxt"), loadtxt=_io("loadtxt"))
reg("numpy.lib.stride_tricks", sliding_window_view=sliding_window_view)
reg("numpy.random", normal=rnd_normal)
