"""Arrays: shape + cell function over symbolic indices, views with inverses,
in-place writes as overlays on tracked buffers."""
from fractions import Fraction
import z3
from . import core
from .core import eng, Unsupported, PathEnd, model_exc
from . import num as N
from .num import SNum, SBool, SStr, SComplex, num, iz, And, Or, Not, Implies, Ite
from . import values as V
from .values import Tracked, PList, PDict, decide, clen


class DType:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.__name__ = name

    def __eq__(self, o):
        o = as_dtype(o, True)
        return o is not None and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __call__(self, x=0):
        return cast_scalar(x, self)

    def __repr__(self):
        return f"dtype({self.name})"
    __str__ = __repr__

    @property
    def type(self):
        return self

    @property
    def itemsize(self):
        return 8


F64, F32, I64, BOOL = DType("float64", "f"), DType("float32", "f"), DType("int64", "i"), DType("bool", "b")
C128, C64, OBJ, STR, DT64 = DType("complex128", "c"), DType("complex64", "c"), DType("object", "O"), DType("str", "U"), DType("datetime64", "M")
_names = {d.name: d for d in (F64, F32, I64, BOOL, C128, C64, OBJ, STR)}
_names.update({"float": F64, "int": I64, "complex": C128, "f8": F64, "f4": F32})
DTYPE_OF_CLASS = {}
_BUILTIN = {"PBool": BOOL, "PFloat": F64, "PInt": I64, "PComplex": C128, "PStr": STR, "bool": BOOL, "float": F64, "int": I64, "complex": C128, "str": STR}


def as_dtype(d, soft=False):
    if isinstance(d, DType):
        return d
    if d is None:
        return None
    if isinstance(d, str) and d in _names:
        return _names[d]
    for c, t in DTYPE_OF_CLASS.items():
        if d is c:
            return t
    name = getattr(d, "__name__", None)
    if isinstance(d, type) and name in _BUILTIN:
        return _BUILTIN[name]
    if d is float:
        return F64
    if d is int:
        return I64
    if d is bool:
        return BOOL
    if soft:
        return None
    raise Unsupported(f"dtype {d!r}")


def dtype_of_scalar(x):
    if isinstance(x, (bool, SBool)):
        return BOOL
    if isinstance(x, int) or isinstance(x, SNum) and x.kind == "int":
        return I64
    if isinstance(x, (SNum, Fraction, float)):
        return F64
    if isinstance(x, (SComplex, complex)):
        return C128
    if isinstance(x, (str, SStr)):
        return STR
    return OBJ


_rank = {"b": 0, "i": 1, "f": 2, "c": 3}


def result_dtype(a, b):
    if a.name == b.name:
        return a
    if "O" in (a.kind, b.kind) or a.kind not in _rank or b.kind not in _rank:
        return OBJ
    if _rank[a.kind] != _rank[b.kind]:
        hi, lo = (a, b) if _rank[a.kind] > _rank[b.kind] else (b, a)
        if hi.name == "float32" and lo.kind == "i":
            return F64
        return hi
    if "float64" in (a.name, b.name):
        return F64
    if "complex128" in (a.name, b.name):
        return C128
    return a


def cast_scalar(x, dt):
    dt = as_dtype(dt)
    if isinstance(x, NDArray):
        return x.astype(dt)
    k = dt.kind
    if k == "f":
        if isinstance(x, SComplex):
            return x.real
        if isinstance(x, (str, SStr)):
            from .runtime import pfloat_of
            return pfloat_of(x)
        x = num(x)
        return SNum(x.p, "real", x.nan)
    if k == "i":
        return N.trunc(num(x))
    if k == "c":
        return N.to_complex(x)
    if k == "b":
        if isinstance(x, (bool, SBool)):
            return x
        return num(x) != 0
    return x


class Buf(Tracked):
    def __init__(self, shape, dtype, cell):
        self.shape, self.dtype, self.cell = tuple(shape), dtype, cell
        self._born()

    def _snapshot(self):
        return self.cell

    def _restore(self, st):
        self.cell = st


def identity(ix):
    return ix


def identity_inv(ix):
    return (True, ix)


class NDArray:
    __array_priority__ = 100

    def __init__(self, buf, shape, imap=identity, inv=identity_inv, dtype=None):
        self.buf, self.shape, self.imap, self.inv = buf, tuple(shape), imap, inv
        self.dtype = dtype or buf.dtype
        self.part = None

    # -- construction -----------------------------------------------------
    @staticmethod
    def make(shape, dtype, cell):
        """cell(*idx)"""
        b = Buf(shape, dtype, lambda ix: cell(*ix))
        return NDArray(b, shape)

    def at(self, *ix):
        """cell, index assumed in range and non-negative."""
        v = self.buf.cell(self.imap(ix))
        if self.part == "real":
            return v.real if isinstance(v, SComplex) else v
        if self.part == "imag":
            return v.imag if isinstance(v, SComplex) else 0
        return v

    def freeze_cell(self):
        """the current contents as a pure function (later writes not seen)."""
        c, im, part = self.buf.cell, self.imap, self.part

        def f(*ix):
            v = c(im(ix))
            if part == "real":
                return v.real if isinstance(v, SComplex) else v
            if part == "imag":
                return v.imag if isinstance(v, SComplex) else 0
            return v
        return f

    # -- attributes -------------------------------------------------------
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        t = 1
        for s in self.shape:
            t = t * s
        return t

    @property
    def n(self):
        if not self.shape:
            raise model_exc(TypeError("len() of unsized object"))
        return self.shape[0]

    def __len__(self):
        c = clen(self.n)
        if c is None:
            raise Unsupported("native len of symbolic array")
        return c

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        return self._partview("real")

    @property
    def imag(self):
        return self._partview("imag")

    def _partview(self, part):
        if self.dtype.kind != "c":
            if part == "real":
                return self
            return NDArray.make(self.shape, self.dtype, lambda *ix: 0)
        r = NDArray(self.buf, self.shape, self.imap, None, F64)
        r.part = part
        return r

    @property
    def values(self):
        return self

    def item(self):
        return self.at(*([0] * self.ndim))

    def transpose(self, *axes):
        if axes and len(axes) == 1 and isinstance(axes[0], (tuple, PList)):
            axes = tuple(axes[0])
        if not axes:
            axes = tuple(range(self.ndim))[::-1]
        return self._permute(axes)

    def _permute(self, axes):
        axes = tuple(axes)
        im, inv = self.imap, self.inv
        pos = [axes.index(a) for a in range(self.ndim)]

        def imap(ix):
            return im(tuple(ix[p] for p in pos))

        def ninv(bi):
            c, ix = inv(bi)
            return c, tuple(ix[a] for a in axes)
        r = NDArray(self.buf, [self.shape[a] for a in axes], imap, ninv, self.dtype)
        r.part = self.part
        return r

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self._permute(ax)

    # -- indexing ---------------------------------------------------------
    def _expand(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = tuple(asarray(k) if isinstance(k, PList) else k for k in key)
        nspec = sum(0 if k is None else (k.ndim if isinstance(k, NDArray) and k.dtype.kind == "b" else 1)
                    for k in key if k is not Ellipsis)
        if nspec > self.ndim:
            raise model_exc(IndexError("too many indices for array"))
        out = []
        seen = False
        for k in key:
            if k is Ellipsis:
                seen = True
                out += [slice(None)] * (self.ndim - nspec)
            else:
                out.append(k)
        if not seen:
            out += [slice(None)] * (self.ndim - nspec)
        return out

    def norm(self, i, n, axis=0):
        if isinstance(i, NDArray) and i.shape == ():
            i = i.item()
        if isinstance(i, SNum) and i.kind != "int":
            raise model_exc(IndexError("only integers are valid indices"))
        if decide(And(0 <= i, i < n)):
            return i
        if decide(And(i < 0, -n <= i)):
            return i + n
        raise model_exc(IndexError("index out of bounds"))

    def basic(self, key):
        """view for a key of ints, slices, None."""
        from .runtime import slice_bounds
        specs = []           # per key entry
        ax = 0
        shape = []
        for k in key:
            if k is None:
                specs.append(("new",))
                shape.append(1)
            elif isinstance(k, slice):
                lo, ln, st = slice_bounds(k, self.shape[ax])
                specs.append(("sl", lo, ln, st))
                shape.append(ln)
                ax += 1
            else:
                specs.append(("int", self.norm(k, self.shape[ax])))
                ax += 1
        im, inv = self.imap, self.inv

        def imap(ix):
            out = []
            p = 0
            for s in specs:
                if s[0] == "new":
                    p += 1
                elif s[0] == "int":
                    out.append(s[1])
                else:
                    out.append(s[1] + ix[p] * s[3] if s[3] != 1 else (ix[p] if is0(s[1]) else s[1] + ix[p]))
                    p += 1
            return im(tuple(out))

        def ninv(bi):
            c, ix = inv(bi)
            conds = [c]
            out = []
            p = 0
            for s in specs:
                if s[0] == "new":
                    out.append(0)
                    continue
                v = ix[p]
                p += 1
                if s[0] == "int":
                    conds.append(v == s[1])
                else:
                    _, lo, ln, st = s
                    d = v - lo
                    if st == 1:
                        conds += [0 <= d, d < ln]
                        out.append(d)
                    elif st == -1:
                        conds += [0 <= -d, -d < ln]
                        out.append(-d)
                    else:
                        q = d // st
                        conds += [0 <= q, q < ln, q * st == d]
                        out.append(q)
            return And(*conds), tuple(out)
        r = NDArray(self.buf, shape, imap, ninv if inv is not None else None, self.dtype)
        r.part = self.part
        return r

    def __getitem__(self, key):
        if isinstance(key, str):
            raise Unsupported("string index")
        key = self._expand(key)
        if any(isinstance(k, NDArray) and (k.shape != () or k.dtype.kind == "b") for k in key):
            return self.fancy(key)
        v = self.basic(key)
        if v.shape == () and not any(k is None for k in key):
            return v.at()
        return v

    def fancy(self, key):
        masks = [k for k in key if isinstance(k, NDArray) and k.dtype.kind == "b"]
        if masks:
            if len(key) == 1 and self.ndim == 1:
                m = masks[0]
                sel = mask_select(m)
                c = self.freeze_cell()
                return NDArray.make((sel.count,), self.dtype, lambda j: c(sel.pos(j)))
            key = [mask_select(k).positions() if isinstance(k, NDArray) and k.dtype.kind == "b" and k.ndim == 1 else k
                   for k in key]
            if any(isinstance(k, NDArray) and k.dtype.kind == "b" for k in key):
                raise Unsupported("boolean index")
        # integers count as advanced next to arrays
        adv = [p for p, k in enumerate(key) if isinstance(k, (NDArray, int, SNum)) and k is not None]
        contiguous = adv == list(range(adv[0], adv[-1] + 1))
        # base axis of each key entry
        ax = 0
        axis = []
        for k in key:
            axis.append(None if k is None else ax)
            if k is not None:
                ax += 1
        arrs = {}
        bshape = ()
        for p in adv:
            k = key[p]
            n = self.shape[axis[p]]
            if isinstance(k, NDArray):
                if k.dtype.kind != "i":
                    raise model_exc(IndexError("arrays used as indices must be of integer type"))
                sel = selection_of(k, n)
                arrs[p] = sel.pos if sel is not None else index_array(k, n)
                bshape = bcast(bshape, k.shape)
            else:
                arrs[p] = (lambda v: (lambda *ix: v))(self.norm(k, n))
        nb = len(bshape)
        from .runtime import slice_bounds
        pre, post = [], []
        specs = []
        for p, k in enumerate(key):
            if p in arrs:
                specs.append(("adv", p))
            elif k is None:
                specs.append(("new", 1))
            else:
                specs.append(("sl",) + slice_bounds(k, self.shape[axis[p]]))
        shape = []
        if contiguous:
            done = False
            for s in specs:
                if s[0] == "adv":
                    if not done:
                        shape.append(("b",))
                        done = True
                else:
                    shape.append(("d", s))
        else:
            shape = [("b",)] + [("d", s) for s in specs if s[0] != "adv"]
        oshape = []
        for s in shape:
            if s[0] == "b":
                oshape += list(bshape)
            else:
                oshape.append(1 if s[1][0] == "new" else s[1][2])
        cell = self.freeze_cell()
        kshapes = {p: ones(key[p].shape) if isinstance(key[p], NDArray) else () for p in adv}

        def f(*ix):
            q = 0
            bi = ()
            rest = []
            for s in shape:
                if s[0] == "b":
                    bi = ix[q:q + nb]
                    q += nb
                else:
                    rest.append(ix[q])
                    q += 1
            out = []
            r = 0
            for s in specs:
                if s[0] == "adv":
                    out.append(arrs[s[1]](*bidx(bi, kshapes[s[1]])))
                elif s[0] == "new":
                    r += 1
                else:
                    out.append(s[1] + rest[r] * s[3])
                    r += 1
            return cell(*out)
        return NDArray.make(oshape, self.dtype, f)

    def __setitem__(self, key, val):
        key = self._expand(key)
        if self.inv is None:
            raise Unsupported("write through this view")
        isarr = isinstance(val, (NDArray, PList))
        if isarr:
            val = asarray(val)
        if any(isinstance(k, NDArray) and (k.shape != () or k.dtype.kind == "b") for k in key):
            return self.set_fancy(key, val)
        v = self.basic(key)
        v.write(val)

    def write(self, val):
        if isinstance(val, PList):
            val = asarray(val)
        if isinstance(val, NDArray):
            # shape must broadcast to self.shape
            sh = bcast(self.shape, val.shape, into=True)
            vc = val.freeze_cell()
            vs = ones(val.shape)
            src = lambda ix: vc(*bidx(ix, vs))
        else:
            src = lambda ix: val
        self.buf._touch()
        old, inv, dt = self.buf.cell, self.inv, self.buf.dtype
        if eng.wlogs:
            eng.wlogs[-1].setdefault(id(self.buf), []).append(
                (self.buf, lambda bi: inv(bi)[0], lambda bi: castq(src(inv(bi)[1]), dt)))

        def cell(bi):
            c, ix = inv(bi)
            if c is False:
                return old(bi)
            if c is True:
                return castq(src(ix), dt)
            return merge(c, lambda: castq(src(ix), dt), lambda: old(bi))
        self.buf.cell = cell

    def set_fancy(self, key, val):
        arrs = [p for p, k in enumerate(key) if isinstance(k, NDArray) and (k.shape != () or k.dtype.kind == "b")]
        if len(arrs) != 1:
            raise Unsupported("multi-array assignment")
        p = arrs[0]
        k = key[p]
        inv, buf = self.inv, self.buf
        if any(x is None for x in key):
            raise Unsupported("newaxis in assignment")
        rest = [j for j in range(len(key)) if j != p]
        from .runtime import slice_bounds
        specs = {}
        for j in rest:
            if isinstance(key[j], slice):
                specs[j] = ("sl",) + slice_bounds(key[j], self.shape[j])
            else:
                specs[j] = ("int", self.norm(key[j], self.shape[j]))
        if k.dtype.kind == "b":
            if k.ndim != 1 and not (k.ndim == self.ndim):
                raise Unsupported("mask assignment")
            if k.ndim == self.ndim and k.ndim > 1:
                if isinstance(val, NDArray):
                    raise Unsupported("mask assignment of array")
                mc = k.freeze_cell()
                self._overlay(lambda ix: mc(*ix), lambda ix: val)
                return
            mc = k.freeze_cell()
            if isinstance(val, NDArray):
                sel = mask_select(k)
                rank = sel.rank
                count = sel.count
                hit = lambda i: mc(i)
            else:
                hit, rank, count = (lambda i: mc(i)), (lambda i: 0), None
        else:
            n = self.shape[p]
            sel = selection_of(k, n)
            ia = index_array(k, n) if sel is None else None
            m = k.shape[0]
        if k.dtype.kind != "b" and sel is not None:
            hit, rank, count = sel.mask, sel.rank, sel.count
        elif k.dtype.kind != "b":
            # inverse: last position writing index i
            f = eng.fresh_fn("wrinv", [z3.IntSort()], z3.IntSort())
            g = lambda i: SNum.atom(f(iz(i)), "int")
            eng.forall(0, m, lambda q: And(g(ia(q)) >= q, g(ia(q)) < m, ia_safe(ia, g(ia(q))) == ia(q)))
            hit = lambda i: And(0 <= g(i), g(i) < m, ia(g(i)) == i)
            rank = g
            count = m
        if isinstance(val, NDArray):
            vsh = [count] + [specs[j][2] for j in rest if specs[j][0] == "sl"]
            order = []
            pre = [j for j in rest if specs[j][0] == "sl" and j < p]
            post = [j for j in rest if specs[j][0] == "sl" and j > p]
            vshape = [specs[j][2] for j in pre] + [count] + [specs[j][2] for j in post]
            bcast(vshape, val.shape, into=True)
            vc, vs = val.freeze_cell(), ones(val.shape)
        else:
            vc = None

        def cond(ix):
            cs = [hit(ix[p])]
            for j in rest:
                s = specs[j]
                if s[0] == "int":
                    cs.append(ix[j] == s[1])
                else:
                    q = (ix[j] - s[1]) // s[3] if s[3] != 1 else ix[j] - s[1]
                    cs += [0 <= q, q < s[2]] + ([q * s[3] == ix[j] - s[1]] if s[3] != 1 else [])
            return And(*cs)

        def value(ix):
            if vc is None:
                return val
            vi = []
            for j in range(len(key)):
                if j == p:
                    vi.append(rank(ix[p]))
                elif specs[j][0] == "sl":
                    s = specs[j]
                    vi.append((ix[j] - s[1]) // s[3] if s[3] != 1 else ix[j] - s[1])
            return vc(*bidx(tuple(vi), vs))
        self._overlay(cond, value)

    def _overlay(self, cond, value):
        self.buf._touch()
        old, inv, dt = self.buf.cell, self.inv, self.buf.dtype
        if eng.wlogs:
            def hit(bi):
                c, ix = inv(bi)
                return And(c, cond(ix)) if c is not False else False
            eng.wlogs[-1].setdefault(id(self.buf), []).append((self.buf, hit, lambda bi: castq(value(inv(bi)[1]), dt)))

        def cell(bi):
            c, ix = inv(bi)
            c = And(c, cond(ix)) if c is not False else False
            if c is False:
                return old(bi)
            if c is True:
                return castq(value(ix), dt)
            return merge(c, lambda: castq(value(ix), dt), lambda: old(bi))
        self.buf.cell = cell

    # -- methods ----------------------------------------------------------
    def copy(self, *a):
        c = self.freeze_cell()
        return NDArray.make(self.shape, self.dtype, c)

    def astype(self, dt, copy=True, **kw):
        dt = as_dtype(dt)
        c = self.freeze_cell()
        if dt.kind == self.dtype.kind or dt.kind == "O":
            return NDArray.make(self.shape, dt, c)
        return NDArray.make(self.shape, dt, lambda *ix: cast_scalar(c(*ix), dt))

    def tolist(self):
        c = self.freeze_cell()
        if self.ndim == 0:
            return c()
        if self.ndim == 1:
            return PList.sym(self.shape[0], lambda i: c(i))
        return PList.sym(self.shape[0], lambda i: self[i].tolist())

    def flatten(self, *a):
        c = self.freeze_cell()
        return flat(self, c)

    def ravel(self, *a):
        return self.flatten()

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, PList)):
            shape = tuple(shape[0])
        f = self.flatten() if self.ndim != 1 else self
        total = f.shape[0]
        if any(isinstance(s, int) and s == -1 for s in shape):
            known = 1
            for s in shape:
                if not (isinstance(s, int) and s == -1):
                    known = known * s
            q = total // known
            if not decide(q * known == total):
                raise model_exc(ValueError("cannot reshape array"))
            shape = tuple(q if isinstance(s, int) and s == -1 else s for s in shape)
        prod = 1
        for s in shape:
            prod = prod * s
        if not decide(prod == total):
            raise model_exc(ValueError("cannot reshape array"))
        c = f.freeze_cell()

        def cell(*ix):
            lin = 0
            for i, s in zip(ix, shape):
                lin = lin * s + i
            return c(lin)
        return NDArray.make(shape, self.dtype, cell)

    def squeeze(self, axis=None):
        from .libs.numpy_ import squeeze
        return squeeze(self, axis)

    def fill(self, v):
        self.write(v)

    def any(self, *a, **k):
        from .libs import numpy_
        return numpy_.any_(self, *a, **k)

    def all(self, *a, **k):
        from .libs import numpy_
        return numpy_.all_(self, *a, **k)

    def sum(self, *a, **k):
        from .libs import numpy_
        return numpy_.sum_(self, *a, **k)

    def mean(self, *a, **k):
        from .libs import numpy_
        return numpy_.mean(self, *a, **k)

    def max(self, *a, **k):
        from .libs import numpy_
        return numpy_.max_(self, *a, **k)

    def min(self, *a, **k):
        from .libs import numpy_
        return numpy_.min_(self, *a, **k)

    def conj(self):
        from .libs import numpy_
        return numpy_.conj(self)
    conjugate = conj

    def round(self, *a):
        from .libs import numpy_
        return numpy_.round_(self, *a)

    # -- operators --------------------------------------------------------
    def _op(self, o, f, kind=None):
        return elementwise(f, (self, o), kind)

    def _rop(self, o, f, kind=None):
        return elementwise(f, (o, self), kind)

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __radd__(self, o): return self._rop(o, lambda a, b: a + b)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._rop(o, lambda a, b: a - b)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._rop(o, lambda a, b: a * b)
    def __truediv__(self, o): return self._op(o, lambda a, b: num(a) / num(b), "div")
    def __rtruediv__(self, o): return self._rop(o, lambda a, b: num(a) / num(b), "div")
    def __floordiv__(self, o): return self._op(o, lambda a, b: num(a) // num(b))
    def __mod__(self, o): return self._op(o, lambda a, b: num(a) % num(b))
    def __pow__(self, o): return self._op(o, N.power)
    def __rpow__(self, o): return self._rop(o, N.power)
    def __neg__(self): return elementwise(lambda a: -a, (self,))
    def __abs__(self): return elementwise(abs, (self,), "abs")
    def __lt__(self, o): return self._op(o, lambda a, b: a < b, "bool")
    def __le__(self, o): return self._op(o, lambda a, b: a <= b, "bool")
    def __gt__(self, o): return self._op(o, lambda a, b: a > b, "bool")
    def __ge__(self, o): return self._op(o, lambda a, b: a >= b, "bool")
    def __eq__(self, o): return self._op(o, lambda a, b: V.scalar_eq(a, b), "bool")
    def __ne__(self, o): return self._op(o, lambda a, b: Not(V.scalar_eq(a, b)), "bool")
    def __and__(self, o): return self._op(o, lambda a, b: And(a, b), "bool")
    def __or__(self, o): return self._op(o, lambda a, b: Or(a, b), "bool")
    def __invert__(self): return elementwise(lambda a: Not(a), (self,), "bool")
    __hash__ = None

    def _inplace(self, r):
        self.write(r)
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)

    def __bool__(self):
        if all(isinstance(s, int) and s == 1 for s in self.shape):
            return bool(self.item())
        raise model_exc(ValueError("truth value of an array is ambiguous"))

    def __iter__(self):
        c = clen(self.n)
        if c is None:
            raise Unsupported("native iteration over symbolic array")
        return iter([self[i] for i in range(c)])

    def __contains__(self, v):
        return decide(V.seq_member(PList.sym(self.shape[0], self.freeze_cell()), v))

    def __repr__(self):
        return f"NDArray{self.shape}"


def ia_safe(ia, g):
    return ia(g)


def is0(x):
    return isinstance(x, int) and x == 0


def castq(v, dt):
    if dt.kind in "fic" and isinstance(v, (SNum, int, Fraction, SComplex, bool, SBool)):
        if dt.kind == "i" and isinstance(v, SNum) and v.kind == "real" or dt.kind == "c" and not isinstance(v, SComplex) \
                or dt.kind == "f":
            return cast_scalar(v, dt)
    if dt.kind == "b" and not isinstance(v, (bool, SBool)):
        return num(v) != 0
    return v


def merge(c, a, b):
    """value-level conditional; c an SBool."""
    if isinstance(c, bool):
        return a() if c else b()
    x, y = a(), b()
    if V.is_scalar(x) and V.is_scalar(y):
        return Ite(c, x, y)
    return a() if decide(c) else b()


def bcast(a, b, into=False):
    """broadcast shape; into=True: b must broadcast to a."""
    a, b = list(a), list(b)
    la, lb = len(a), len(b)
    if into:
        while len(b) > len(a):
            if isinstance(b[0], int) and b[0] == 1:
                b = b[1:]
            else:
                raise model_exc(ValueError("could not broadcast input array"))
    n = max(len(a), len(b))
    a = [1] * (n - len(a)) + a
    b = [1] * (n - len(b)) + b
    out = []
    for x, y in zip(a, b):
        if isinstance(y, int) and y == 1:
            out.append(x)
        elif isinstance(x, int) and x == 1 and not into:
            out.append(y)
        elif decide(x == y):
            out.append(x if isinstance(x, int) else (y if isinstance(y, int) else x))
        elif decide(y == 1):
            out.append(x)
        elif not into and decide(x == 1):
            out.append(y)
        else:
            raise model_exc(ValueError("operands could not be broadcast together"))
    return tuple(out)


def ones(shape):
    """the shape with the lengths that are one on this path as such (they repeat)."""
    return tuple(1 if not isinstance(s, int) and N.bz(num(s) == 1).get_id() in eng.pcset else s for s in shape)


def bidx(ix, shape):
    """index into an operand of the given shape for a broadcast index."""
    ix = ix[len(ix) - len(shape):] if len(shape) else ()
    return tuple(0 if isinstance(s, int) and s == 1 else i for i, s in zip(ix, shape))


def lazily(f):
    def g(*a):
        old = eng.lazy
        eng.lazy = True
        try:
            return f(*a)
        finally:
            eng.lazy = old
    return g


def elementwise(f, args, kind=None, dtype=None):
    args = [asarray(a) if isinstance(a, PList) else a for a in args]
    if any(not isinstance(a, NDArray) and not is_cellvalue(a) for a in args):
        return NotImplemented
    shape = ()
    for a in args:
        if isinstance(a, NDArray):
            shape = bcast(shape, a.shape)
    cells = []
    dts = []
    for a in args:
        if isinstance(a, NDArray):
            cells.append((a.freeze_cell(), ones(a.shape)))
            dts.append(a.dtype)
        else:
            cells.append(((lambda a: (lambda *ix: a))(a), ()))
            dts.append(None)
    if dtype is None:
        dtype = infer_dtype(dts, args, kind)
    f = lazily(f)

    def cell(*ix):
        return f(*[c(*bidx(ix, s)) for c, s in cells])
    return NDArray.make(shape, dtype, cell)


def infer_dtype(dts, args, kind):
    if kind == "bool":
        return BOOL
    r = None
    for d, a in zip(dts, args):
        if d is None:
            d = dtype_of_scalar(a)
            # python scalars do not upcast within the same kind
            arr = [x for x in dts if x is not None]
            if arr and d.kind in _rank and all(x.kind in _rank and _rank[x.kind] >= _rank[d.kind] for x in arr):
                continue
        r = d if r is None else result_dtype(r, d)
    if kind == "div" and r.kind in "ib":
        return F64
    if kind == "abs" and r.kind == "c":
        return F64
    return r


def is_cellvalue(a):
    return V.is_scalar(a) or getattr(a, "_cellvalue", False)


def asarray(x, dtype=None):
    if isinstance(x, NDArray):
        return x
    if hasattr(x, "to_ndarray"):
        return x.to_ndarray()
    if isinstance(x, (PList, tuple, list)):
        if not isinstance(x, PList):
            x = PList(x)
        cc = x.concrete()
        if cc is not None:
            if len(cc) == 0:
                return NDArray.make((0,), as_dtype(dtype) or F64, lambda i: num(0))
            if isinstance(cc[0], (PList, tuple, NDArray)):
                rows = [asarray(r, dtype) for r in cc]
                sh = rows[0].shape
                for r in rows[1:]:
                    if len(r.shape) != len(sh) or not all(decide(p == q) for p, q in zip(sh, r.shape)):
                        raise Unsupported("ragged array")
                dt = rows[0].dtype
                for r in rows[1:]:
                    dt = result_dtype(dt, r.dtype)
                cells = [r.freeze_cell() for r in rows]

                def cell(i, *rest):
                    return V.select([c(*rest) for c in cells], i) if not isinstance(i, int) else cells[i](*rest)
                return NDArray.make((len(rows),) + sh, as_dtype(dtype) or dt, cell)
            dt = dtype_of_scalar(cc[0])
            for v in cc[1:]:
                dt = result_dtype(dt, dtype_of_scalar(v))
            dt = as_dtype(dtype) or dt
            st = PList(x)
            return NDArray.make((len(cc),), dt, lambda i: castq(st.get(i), dt))
        st = PList(x)
        probe = z3.Int("probe!elt")
        dt = as_dtype(dtype)
        if dt is None:
            e = V.generic(st.n, lambda k: st.get(k))
            vals = [p.value for p in e.paths if p.kind == "ret"]
            if not vals:
                dt = F64
            elif isinstance(vals[0], (NDArray, PList)):
                raise Unsupported("array of symbolic nested list")
            else:
                dt = dtype_of_scalar(vals[0])
                for v in vals[1:]:
                    dt = result_dtype(dt, dtype_of_scalar(v))
        return NDArray.make((st.n,), dt, lambda i: castq(st.get(i), dt))
    dt = as_dtype(dtype) or dtype_of_scalar(x)
    return NDArray.make((), dt, lambda: castq(x, dt))


def index_array(k, n):
    """cells of an integer index array, bounds checked, negatives wrapped."""
    c = k.freeze_cell()
    if k.ndim == 0:
        return c
    if k.ndim != 1:
        raise Unsupported("multi-dimensional index array")
    m = k.shape[0]
    cm = clen(m)
    if cm is not None and cm <= 32:
        vals = [k.norm(c(i), n) for i in range(cm)]
        return lambda i: V.select(vals, i) if not isinstance(i, int) else vals[i]
    if forall_valid(m, lambda q: And(0 <= c(q), c(q) < n)):
        return c
    ok = N.sbool("inbounds")
    if bool(ok):
        eng.forall(0, m, lambda q: And(-n <= c(q), c(q) < n))
        if forall_valid(m, lambda q: 0 <= c(q)):
            return c
        return lambda i: Ite(c(i) < 0, c(i) + n, c(i))
    w = N.sint("oob")
    eng.assume(And(0 <= w, w < m))
    eng.assume(Not(And(-n <= c(w), c(w) < n)))
    raise model_exc(IndexError("index out of bounds"))


def forall_valid(n, fn):
    k = z3.Int(eng.name("fa"))
    ks = SNum.atom(k, "int")
    b = fn(ks)
    if isinstance(b, bool):
        if b:
            return True
        b = z3.BoolVal(False)
    else:
        b = b.z
    return eng.valid(z3.Implies(z3.And(0 <= k, k < iz(n)), b), quick=False)


class MaskSel:
    """positions of the true entries of a boolean vector."""
    def __init__(self, mask):
        self.n = mask.shape[0]
        c = mask.freeze_cell()
        self.mask = c
        same = self.canonical(c)
        if same is None:
            self.count = N.sint("cnt")
            f = eng.fresh_fn("pos", [z3.IntSort()], z3.IntSort())
            g = eng.fresh_fn("rank", [z3.IntSort()], z3.IntSort())
        else:
            self.count = SNum.atom(z3.Int(f"cnt!m{same}"), "int")
            f, g = (z3.Function(f"{x}!m{same}", z3.IntSort(), z3.IntSort()) for x in ("pos", "rank"))
        self.f, self.g = f, g

        def pos(j):
            """position of the j-th true entry; of the rank of x, x itself (ranks are used
            under the condition that the mask holds at x)."""
            if isinstance(j, SNum):
                t = iz(j)
                r = g(z3.IntVal(0))
                if z3.is_app(t) and t.decl().eq(r.decl()) and all(t.arg(p).eq(r.arg(p)) for p in range(t.num_args() - 1)):
                    return SNum.atom(t.arg(t.num_args() - 1), "int")
            return SNum.atom(f(iz(j)), "int")
        self.pos = lambda j: SNum.atom(f(iz(j)), "int")
        self.rank = lambda i: SNum.atom(g(iz(i)), "int")
        cnt, n, raw, rank = self.count, self.n, self.pos, self.rank
        self.pos, pos = pos, raw
        eng.assume(And(0 <= cnt, cnt <= n))
        eng.forall(0, cnt, lambda j: And(0 <= pos(j), pos(j) < n, c(pos(j)), rank(pos(j)) == j, pos(j) >= j))
        eng.forall(0, n, lambda i: Implies(c(i), And(0 <= rank(i), rank(i) < cnt, pos(rank(i)) == i, pos(0) <= i, i <= pos(cnt - 1))))
        eng.forall(0, cnt - 1, lambda j: pos(j) < pos(j + 1))
        nm = f(z3.IntVal(0)).decl().name()
        cz, nz, bs = iz(cnt), iz(n), list(eng.binders)

        def increasing(t, u):
            """two positions: ordered as their ranks."""
            i, j = t.arg(t.num_args() - 1), u.arg(u.num_args() - 1)
            if any(not t.arg(p).eq(u.arg(p)) for p in range(t.num_args() - 1)):
                return []
            c_ = z3.substitute(cz, *[(b, t.arg(p)) for p, b in enumerate(bs)]) if bs else cz
            inr = lambda a: z3.And(0 <= a, a < c_)
            return [z3.Implies(z3.And(inr(i), inr(j)), (i < j) == (t < u))]
        increasing.base = True
        core.PAIR_AXIOMS[nm] = increasing
        for h in eng.hint_terms:      # instances of: positions are increasing
            hs = SNum.atom(h, "int")
            eng.forall(0, cnt, lambda j: Implies(And(0 <= hs, hs < n, c(hs)), (pos(j) < hs) == (j < rank(hs))))

    def canonical(self, c):
        """equal masks have the same selection."""
        if eng.binders or eng.subst_stack:
            return None
        pos = len(eng.pc)
        b = c(SNum.atom(z3.Int("probe!key"), "int"))
        if any(kind == "dec" for kind, e in eng.pc[pos:]):
            raise Unsupported("mask with a case distinction")
        t, n = eng.sub(N.bz(b)), eng.sub(iz(self.n))
        i = ("mask", t.get_id(), n.get_id())
        if i not in eng.cache_inv:
            eng.cache_inv[i] = (len(eng.cache_inv), t, n)
        return eng.cache_inv[i][0]

    def positions(self):
        r = NDArray.make((self.count,), I64, lambda j: self.pos(j))
        r.sel, r.selcell = self, r.buf.cell
        return r


def selection_of(k, n):
    """the selection whose positions the index array k is, for an axis of n."""
    sel = getattr(k, "sel", None)
    if sel is None or k.buf.cell is not k.selcell or k.ndim != 1:
        return None
    return sel if sel.n is n or eng.valid(N.bz(num(sel.n) == n)) else None


def mask_select(mask):
    """one MaskSel per (buffer contents): cached on the current path."""
    key = ("mask", id(mask.buf), id(mask.buf.cell), id(mask.imap))
    for k, o, sel, depth in eng.__dict__.setdefault("masksels", []):
        if k == key and o[0] is mask.buf and depth == tuple(x.get_id() for x in eng.binders) and sel.path is eng.trace:
            return sel
    sel = MaskSel(mask)
    sel.path = eng.trace
    eng.masksels.append((key, (mask.buf, mask.buf.cell, mask.imap), sel, tuple(x.get_id() for x in eng.binders)))
    return sel


def flat(a, c):
    sh = a.shape
    if len(sh) == 1:
        return NDArray.make(sh, a.dtype, c)
    if len(sh) == 0:
        return NDArray.make((1,), a.dtype, lambda i: c())
    total = a.size
    # drop unit dimensions
    live = [p for p, s in enumerate(sh) if not (isinstance(s, int) and s == 1)]

    def cell(i):
        ix = [0] * len(sh)
        r = i
        for p in reversed(live[1:]):
            ix[p], r = split_lin(r, sh[p])
        if live:
            ix[live[0]] = r
        return c(*ix)
    return NDArray.make((total,), a.dtype, cell)


def split_lin(i, s):
    """(i mod s, i div s); recognises i = q*s + r with 0 <= r < s."""
    if isinstance(i, SNum) and not isinstance(s, int):
        m, = [m for m in s.p] if len(s.p) == 1 else (None,)
        if m is not None and s.p[m] == 1:
            q, r = {}, {}
            for t, co in i.p.items():
                d = N.m_mul(t, tuple((a, -e) for a, e in m))
                if all(e > 0 for a, e in d):
                    q[d] = co
                else:
                    r[t] = co
            qq, rr = N.mk(q, "int"), N.mk(r, "int")
            if q and eng.valid(N.bz(And(0 <= rr, rr < s))):
                return rr, qq
    return i % s, i // s


class Lifted(Buf):
    """the buffers of all members of a family as one: the member's index comes first."""


def lifted(b, k):
    """the buffer created by iteration k, for every k."""
    g = getattr(b, "_lift", None)
    if g is None:
        cell = b.cell
        g = Lifted((None,) + b.shape, b.dtype, lambda ix: V.under(k, iz(ix[0]), lambda: cell(ix[1:])))
        object.__setattr__(g, "_stamp", b._stamp)
        b._lift = g
    return g


def subst_nd(a, k, i):
    start = eng.binder_start.get(k.get_id())
    im, inv = a.imap, a.inv
    shape = tuple(V.subst(s, k, i) for s in a.shape)
    sim = im if im is identity else (lambda ix: V.under(k, i, lambda: im(ix)))
    sinv = inv if inv is identity_inv or inv is None else (lambda ix: V.under(k, i, lambda: inv(ix)))
    if start is None or a.buf._frozen or a.buf._src is not None:
        b = Buf(tuple(V.subst(s, k, i) for s in a.buf.shape), a.buf.dtype,
                lambda ix, f=a.buf.cell: V.under(k, i, lambda: f(ix)))
        V.fam_copy(b, a.buf)
    elif a.buf._stamp > start:         # made by the iteration: a member of the family of buffers
        b = lifted(a.buf, k)
        m = SNum.atom(i, "int")
        sim0, sinv0 = sim, sinv
        sim = lambda ix: (m,) + tuple(sim0(ix))

        def sinv(bi):
            c, ix = sinv0(bi[1:])
            return (And(bi[0] == m, c) if c is not False else False), ix
        if sinv0 is None:
            sinv = None
    else:                              # an object from before: the same for every iteration
        b = a.buf
    r = NDArray(b, shape, sim, sinv, a.dtype)
    r.part = a.part
    return r


V.SUBST[NDArray] = subst_nd
V.SUBST[DType] = lambda v, k, i: v


# ---------------------------------------------------------------- functionals
_lamdepth = [0]


def canon_lambda(fn):
    """z3 array (Int -> Real) of a real-valued function of one index."""
    v0 = z3.Int(f"lam!v{_lamdepth[0]}")
    _lamdepth[0] += 1
    try:
        v = N.rz(fn(SNum.atom(v0, "int")))
    finally:
        _lamdepth[0] -= 1
    j = z3.Int("lam!j")
    return z3.Lambda([j], z3.substitute(v, (v0, j)))


def canon_lambda2(fn):
    """z3 array (Int, Int -> Real) of a real-valued function of two indices."""
    v = [z3.Int(f"lam!v{_lamdepth[0] + d}") for d in range(2)]
    _lamdepth[0] += 2
    try:
        b = N.rz(fn(*[SNum.atom(x, "int") for x in v]))
    finally:
        _lamdepth[0] -= 2
    js = [z3.Int("lam!j"), z3.Int("lam!j2")]
    return z3.Lambda(js, z3.substitute(b, *zip(v, js)))


class Rows2:
    """a functional's argument with two indices."""
    def __init__(self, fn):
        self.fn = fn


def functional(name, rows, args, out_args, out="real"):
    """Real-valued uninterpreted functional: rows are functions of one index,
    args and out_args scalars (numbers, strings, bools)."""
    zs = []
    for r in rows:
        zs.append(canon_lambda2(r.fn) if isinstance(r, Rows2) else canon_lambda(r))
    for a in list(args) + list(out_args):
        if isinstance(a, (str, SStr)):
            zs.append(N.code(a))
        elif isinstance(a, (bool, SBool)):
            zs.append(N.bz(a))
        elif z3.is_expr(a):
            zs.append(a)
        else:
            zs.append(N.rz(a))
    f = z3.Function(name + "/" + "_".join(z.sort().sexpr().replace(" ", "") for z in zs), *[z.sort() for z in zs], z3.RealSort() if out == "real" else z3.IntSort())
    t = f(*zs)
    eng.keep.append(t)
    return SNum.atom(t, out)
