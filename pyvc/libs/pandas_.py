"""pandas tables (registered with the scalar parts in times.py)."""
from . import reg
from . import times
import z3
from ..core import Unsupported, model_exc, eng, QFact
from .. import num as N
from ..num import SNum, SStr, num, And, Or, Not, Implies, Ite, iz
from .. import values as V
from ..values import PList, PDict, PObject, clen, decide
from .. import arrays as A
from ..arrays import NDArray, asarray
from ..runtime import PRange, to_seq


class Series(PObject):
    """a column: values under the labels 0..n-1, or under the labels idx."""
    idx = where = None

    def __new__(cls, data=None, index=None, dtype=None, name=None):
        if cls is Series and (index is not None or data is None):
            return parts(data, index, dtype)
        return PObject.__new__(cls)

    def __init__(self, data=None, index=None, dtype=None, name=None):
        if dtype is not None:
            raise Unsupported("Series")
        self.arr = asarray(data)

    @staticmethod
    def labelled(idx, arr, where=None):
        """where(w): the position of label w, if it is there."""
        s = PObject.__new__(Series)
        s.idx, s.arr, s.where = idx, arr, where and Where(where)
        return s

    def has(self, w):
        p = self.where(w)
        return And(0 <= p, p < self.idx.shape[0], self.idx.at(p) == w)

    @property
    def index(self):
        return RangeIndex(self.arr.shape[0]) if self.idx is None else Labels(self.idx)

    def count(self):
        if self.arr.dtype.kind not in "bU":
            raise Unsupported("Series.count")
        return self.arr.shape[0]

    def sum(self):
        if self.arr.dtype.kind != "b":
            raise Unsupported("Series.sum")
        return A.mask_select(self.arr).count

    def eq(self, o):
        return self._op(lambda a, b: a == b, o)

    def ne(self, o):
        return self._op(lambda a, b: a != b, o)

    def __eq__(self, o):
        return self._op(lambda a, b: a == b, o)

    def __ne__(self, o):
        return self._op(lambda a, b: a != b, o)

    __hash__ = None

    @property
    def values(self):
        return self.arr

    def to_numpy(self, *a, **k):
        return self.arr

    @property
    def shape(self):
        return self.arr.shape

    @property
    def size(self):
        return self.arr.shape[0]

    def pv_len(self):
        return self.arr.shape[0]

    def tolist(self):
        return PList.sym(self.arr.shape[0], lambda i: self.arr.at(i))

    to_list = tolist

    def to_seq(self):
        return self.tolist()

    def to_ndarray(self):
        return self.arr

    def _op(self, f, o):
        if isinstance(o, Series):
            if self.idx is not o.idx or not decide(num(self.arr.shape[0]) == o.arr.shape[0]):
                raise Unsupported("columns of different tables")
            o = o.arr
        return Series(f(self.arr, o)) if self.idx is None else Series.labelled(self.idx, f(self.arr, o))

    def __add__(self, o): return self._op(lambda a, b: a + b, o)
    def __radd__(self, o): return self._op(lambda a, b: b + a, o)
    def __sub__(self, o): return self._op(lambda a, b: a - b, o)
    def __rsub__(self, o): return self._op(lambda a, b: b - a, o)
    def __mul__(self, o): return self._op(lambda a, b: a * b, o)
    def __rmul__(self, o): return self._op(lambda a, b: b * a, o)

    def __getitem__(self, i):
        if isinstance(i, (Series, NDArray)):
            m = i.arr if isinstance(i, Series) else i
            if m.dtype.kind != "b" or not decide(num(m.shape[0]) == self.arr.shape[0]):
                raise Unsupported("Series[...]")
            return Series.labelled((self.idx if self.idx is not None else NDArray.make(self.arr.shape, A.I64, lambda j: num(j)))[m], self.arr[m])
        if self.idx is not None or not (N.isnum(i) and num(i).kind == "int"):
            raise Unsupported("Series[...]")
        return label(self.arr, i)

    @property
    def iloc(self):
        return Rows(lambda i: self.arr[i])

    @property
    def loc(self):
        return Rows(lambda i: label(self.arr, i))

    def min(self):
        return self.arr.min()

    def max(self):
        return self.arr.max()

    def unique(self):
        """distinct values in order of appearance."""
        if self.idx is not None:
            return V.Distinct(self.tolist())
        n = num(self.arr.shape[0])
        if decide(n <= 0):
            return self.arr[0:0]
        i = N.sint("row")
        eng.assume(And(0 <= i, i < n))
        if not eng.valid(V.scalar_eq(self.arr.at(i), self.arr.at(0))):
            raise Unsupported("unique values of a column")
        return self.arr[0:1]


def label(arr, i):
    if not decide(And(0 <= num(i), num(i) < num(arr.shape[0]))):
        raise model_exc(KeyError(i))
    return arr.at(i)


class Rows:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, i):
        return self.f(i)


class RangeIndex(PObject):
    def __init__(self, n):
        self.n = n

    def pv_len(self):
        return self.n

    @property
    def size(self):
        return self.n

    def __getitem__(self, i):
        if not N.isnum(i):
            raise Unsupported("index[...]")
        return NDArray.make((self.n,), A.I64, lambda j: num(j))[i]

    def to_seq(self):
        return PList.sym(self.n, lambda i: num(i))


class _DTI(type):
    def __instancecheck__(cls, x):
        return isinstance(x, NDArray) and x.dtype.kind == "M"


class DatetimeIndex(metaclass=_DTI):
    pass


class DataFrame(PObject):
    """columns of equal length under the labels 0..n-1."""
    def __new__(cls, data=None, columns=None, index=None, dtype=None):
        if cls is DataFrame and isinstance(data, PDict) and columns is None and index is None and joinable(data):
            return Joined(data)
        return PObject.__new__(cls)

    def __init__(self, data=None, columns=None, index=None, dtype=None):
        if columns is not None or index is not None or dtype is not None or not isinstance(data, (PDict, dict)):
            raise Unsupported("DataFrame")
        items = list(data.items()) if isinstance(data, dict) else PList(data.items()).concrete()
        if items is None or not all(isinstance(k, str) for k, _ in items):
            raise Unsupported("DataFrame of unknown columns")
        cols = {k: asarray(v.arr if isinstance(v, Series) else v) for k, v in items}
        if not cols or any(len(c.shape) != 1 for c in cols.values()):
            raise Unsupported("DataFrame of other than columns")
        ns = [c.shape[0] for c in cols.values()]
        for m in ns[1:]:
            if not decide(num(m) == ns[0]):
                raise model_exc(ValueError("All arrays must be of the same length"))
        self.cols = {k: c.copy() for k, c in cols.items()}
        self.n = ns[0]

    @property
    def index(self):
        return RangeIndex(self.n)

    @property
    def columns(self):
        return PList(list(self.cols))

    @property
    def shape(self):
        return (self.n, len(self.cols))

    @property
    def empty(self):
        return num(self.n) == 0

    def pv_len(self):
        return self.n

    def __getitem__(self, k):
        if not isinstance(k, str):
            raise Unsupported("DataFrame[...]")
        if k not in self.cols:
            raise model_exc(KeyError(k))
        return Series(self.cols[k])

    def _cell(self, ix, at):
        if isinstance(ix, tuple) and len(ix) == 2 and isinstance(ix[1], str):
            if ix[1] not in self.cols:
                raise model_exc(KeyError(ix[1]))
            return at(self.cols[ix[1]], ix[0])
        raise Unsupported("DataFrame.loc[...]")

    @property
    def loc(self):
        return Rows(lambda ix: self._cell(ix, label))

    @property
    def at(self):
        return Rows(lambda ix: self._cell(ix, label))


# ------------------------------------------------------------------ labelled series and tables
class Where:
    """the position of a label."""
    def __init__(self, f):
        self.f = f

    def __call__(self, w):
        return self.f(w)


V.SUBST[Where] = lambda v, k, i: Where(lambda w: V.under(k, i, lambda: v.f(w)))


def joinable(d):
    j = N.sint("column")
    if PList(d.keys()).concrete() is not None:
        vs = list(PList(d.values()).concrete())
    else:
        vs = [PList(d.values()).get(j)]
    return bool(vs) and all(isinstance(v, Series) and v.where is not None for v in vs)


BIG = 2 ** 62            # labels are 64 bit integers


class LabelParts(PList):
    """a series built by appending: parts (value, first label, number of consecutive labels)."""
    def append(self, o):
        if not isinstance(o, LabelParts):
            raise Unsupported("Series.append")
        r = LabelParts()
        r.chunks = self.chunks + o.chunks
        return r

    @property
    def index(self):
        return PartsIndex(self)

    def __getitem__(self, m):
        if isinstance(m, FirstMask) and m.of is self and m.keep:
            return Deduplicated(self)
        raise Unsupported("Series[...]")

    loc = property(lambda self: Rows(self.__getitem__))

    def sort_index(self):
        raise Unsupported("Series.sort_index with duplicates")


class PartsIndex:
    def __init__(self, of):
        self.of = of

    def duplicated(self, keep="first"):
        if keep != "first":
            raise Unsupported("duplicated(keep)")
        return FirstMask(self.of, False)


class FirstMask:
    def __init__(self, of, keep):
        self.of, self.keep = of, keep

    def __invert__(self):
        return FirstMask(self.of, not self.keep)


class Deduplicated:
    """the first value under each label, in order of appearance."""
    def __init__(self, of):
        self.of = of

    def sort_index(self):
        ps = self.of
        c = ps.n
        n = N.sint("n_labels")
        f = {k: eng.fresh_fn(k, [z3.IntSort()], z3.IntSort()) for k in ("label", "at", "part")}
        lab, at, part = (lambda i, g=f[k]: SNum.atom(g(iz(i)), "int") for k in ("label", "at", "part"))
        inside = lambda q, w: And(num(ps.get(q)[1]) <= w, w < num(ps.get(q)[1]) + ps.get(q)[2])
        eng.assume(n >= 0)
        eng.forall(0, n, lambda i: And(0 <= part(i), part(i) < c, inside(part(i), lab(i)), at(lab(i)) == i))
        eng.forall(0, num(n) - 1, lambda i: lab(i) < lab(i + 1))

        def where(w):
            eng.forall(0, c, lambda q: Implies(inside(q, w), And(0 <= at(w), at(w) < n, lab(at(w)) == w, part(at(w)) <= q)))
            return at(w)
        return Series.labelled(NDArray.make((n,), A.I64, lab), NDArray.make((n,), A.STR, lambda i: ps.get(part(i))[0]), where)


def parts(data, index, dtype):
    if data is None and index is None:
        return LabelParts()
    if isinstance(index, PRange):
        index = asarray(to_seq(index))
    if isinstance(data, (str, SStr)) and isinstance(index, NDArray) and index.dtype.kind == "i" and index.ndim == 1:
        i = N.sint("row")
        if eng.valid(index.at(i) - index.at(0) == i):
            r = LabelParts()
            r.chunks = (("c", ((data, index.at(0), index.shape[0]),)),)
            return r
    raise Unsupported("Series")


class Joined:
    """columns aligned by label."""
    def __init__(self, cols):
        self.cols = cols

    def dropna(self, axis=0, how="any"):
        if (axis, how) not in ((0, "any"), ("index", "any")):
            raise Unsupported("DataFrame.dropna")
        cols = self.cols
        nc = cols.n
        keys, values = PList(cols.keys()), PList(cols.values())
        if values.concrete() is not None:
            raise Unsupported("DataFrame of listed columns")
        col = values.get
        n = N.sint("n_rows")
        f = {k: eng.fresh_fn(k, [z3.IntSort()], z3.IntSort()) for k in ("row", "rowat", "lacks")}
        lab, at, lacks = (lambda i, g=f[k]: SNum.atom(g(iz(i)), "int") for k in ("row", "rowat", "lacks"))
        cell = eng.fresh_fn("cell", [z3.IntSort(), z3.IntSort()], z3.IntSort())
        eng.assume(n >= 0)
        eng.forall(0, n, lambda i: at(lab(i)) == i)
        eng.forall(0, num(n) - 1, lambda i: lab(i) < lab(i + 1))
        eng.forall(-BIG, BIG, lambda w: Or(And(0 <= at(w), at(w) < n, lab(at(w)) == w),
                                           And(0 <= lacks(w), lacks(w) < nc, Not(col(lacks(w)).has(w)))))
        c, i = z3.Int(eng.name("c")), z3.Int(eng.name("i"))
        cs, is_ = SNum.atom(c, "int"), SNum.atom(i, "int")
        s, w = col(cs), lab(is_)
        eng.assume_q(QFact.several(((c, z3.IntVal(0), iz(nc)), (i, z3.IntVal(0), iz(n))), And(s.has(w), SStr(cell(c, i)) == s.arr.at(s.where(w))).z, [cell(c, i)]))
        idx = NDArray.make((n,), A.I64, lab)
        return Table(idx, PDict.family(nc, lambda j: keys.get(j), lambda j: NDArray.make((n,), A.STR, lambda r: SStr(cell(iz(j), iz(r))))), PDict(), at)


class Table(DataFrame):
    """rows under labels; columns under names (cols) and under numbers (more)."""
    def __init__(self, idx, cols, more, where=None):
        self.idx, self.cols, self.more = idx, cols, more
        self.n = idx.shape[0]
        self.where = where and Where(where)

    def column(self, k):
        v = (self.cols if isinstance(k, (str, SStr)) else self.more).lookup(k)
        if v is V.MISSING:
            raise model_exc(KeyError(k))
        return v

    @property
    def index(self):
        return Labels(self.idx)

    def copy(self, deep=True):
        if deep is not True:
            raise Unsupported("DataFrame.copy(deep=False)")
        return Table(self.idx, self.cols.copy(), self.more.copy(), self.where and self.where.f)

    def _chosen(self, k):
        if isinstance(k, (Series, NDArray)):
            return self[k]
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], (Series, NDArray)) and isinstance(k[1], (str, SStr)):
            return self[k[0]][k[1]]
        raise Unsupported("DataFrame.loc[...]")

    loc = property(lambda self: Rows(self._chosen))

    def sort_index(self):
        if decide(num(self.n) <= 1):
            return self.copy()
        i = N.sint("row")
        eng.assume(And(0 <= i, i < num(self.n) - 1))
        if not eng.valid(self.idx.at(i) < self.idx.at(i + 1), quick=False):
            raise Unsupported("DataFrame.sort_index")
        return Table(self.idx, self.cols.copy(), self.more.copy(), self.where and self.where.f)

    def filtered(self, f):
        def part(d):
            r = PDict()
            r.layers = tuple(("i", l[1], f(l[2])) if l[0] == "i" else ("f", l[1].revalued(lambda q, fam=l[1]: f(fam.valfn(q)))) for l in d.layers if l[0] != "d")
            if len(r.layers) != len(d.layers):
                raise Unsupported("rows of a table with columns taken out")
            return r
        return Table(f(self.idx), part(self.cols), part(self.more))

    def __getitem__(self, k):
        if isinstance(k, (str, SStr)) or N.isnum(k):
            return Series.labelled(self.idx, self.column(k))
        if isinstance(k, (Series, NDArray)):
            m = k.arr if isinstance(k, Series) else k
            if m.dtype.kind != "b" or not decide(num(m.shape[0]) == self.n):
                raise Unsupported("DataFrame[...]")
            return self.filtered(lambda a: a[m])
        if isinstance(k, PList):
            if decide(num(k.n) <= 0):
                return Table(self.idx, PDict(), PDict())
            j = N.sint("column")
            eng.assume(And(0 <= j, j < k.n))
            if not isinstance(k.get(j), (str, SStr)) or self.cols.lookup(k.get(j)) is V.MISSING:
                raise Unsupported("columns that may be missing")
            return Table(self.idx, PDict.family(k.n, k.get, lambda q: self.cols.lookup(k.get(q))), PDict())
        raise Unsupported("DataFrame[...]")

    def __setitem__(self, k, v):
        if isinstance(v, Series):
            if v.idx is not self.idx:
                raise Unsupported("columns of different tables")
            v = v.arr
        if isinstance(v, (PRange, PList)):
            v = asarray(v if isinstance(v, PList) else to_seq(v))
        if isinstance(v, bool):
            a = NDArray.make((self.n,), A.BOOL, lambda i: v)
        elif isinstance(v, NDArray) and decide(num(v.shape[0]) == self.n):
            a = v.copy()
        else:
            raise Unsupported("DataFrame[...] = ...")
        if isinstance(k, (str, SStr)):
            self.cols[k] = a
        else:
            self.more[k] = a


class Labels(PObject):
    def __init__(self, arr):
        self.arr = arr

    values = property(lambda self: self.arr)
    size = property(lambda self: self.arr.shape[0])

    def to_numpy(self):
        return self.arr

    def pv_len(self):
        return self.arr.shape[0]

    def tolist(self):
        return PList.sym(self.arr.shape[0], lambda i: self.arr.at(i))

    to_list = to_seq = tolist

    def to_ndarray(self):
        return self.arr

reg("pandas", Timestamp=times.Timestamp, Timedelta=times.Timedelta, to_datetime=times.to_datetime, date_range=times.date_range,
    DataFrame=DataFrame, Series=Series, DatetimeIndex=DatetimeIndex)
