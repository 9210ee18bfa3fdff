"""The `__pv` object of desugared modules and the shadowed builtins."""
import builtins as B
from fractions import Fraction
import z3
from .core import eng, Unsupported, PathEnd, model_exc, sanctioned, QFact, describe_exc, offset
from . import num as N
from .num import SNum, SBool, SStr, SComplex, num, iz, And, Or, Not, Implies, Ite
from . import values as V
from .values import PList, PDict, PSet, PObject, Tracked, UNBOUND, clen, decide
from . import arrays as A
from .arrays import NDArray


class Ret:
    __slots__ = ("value",)

    def __init__(self, v):
        self.value = v


class _Brk:
    pass


BRK = _Brk()


# ---------------------------------------------------------------- sequences
class PRange:
    def __init__(self, *a):
        a = [x.item() if isinstance(x, NDArray) else x for x in a]
        for x in a:
            if not (isinstance(x, int) or isinstance(x, SNum) and x.kind == "int"):
                raise model_exc(TypeError("range() integer argument expected"))
        if len(a) == 1:
            self.lo, self.hi, self.st = 0, a[0], 1
        elif len(a) == 2:
            self.lo, self.hi, self.st = a[0], a[1], 1
        else:
            self.lo, self.hi, self.st = a
        if not isinstance(self.st, int):
            raise Unsupported("symbolic range step")

    @property
    def n(self):
        d = self.hi - self.lo
        if self.st == 1:
            r = d
        elif self.st > 0:
            r = (d + (self.st - 1)) // self.st
        else:
            r = (-d + (-self.st - 1)) // (-self.st)
        if isinstance(r, int):
            return max(r, 0)
        if decide(r <= 0):
            return 0
        return r

    def get(self, i):
        return self.lo + i * self.st

    def __iter__(self):
        n = clen(self.n)
        if n is None:
            raise Unsupported("native iteration over symbolic range")
        return iter([self.get(i) for i in B.range(n)])

    def __len__(self):
        return clen(self.n)

    def __contains__(self, v):
        return decide(And(self.lo <= v, v < self.hi))

    def __getitem__(self, i):
        return to_seq(self)[i]


def to_seq(o):
    """PList over any iterable."""
    if isinstance(o, PList):
        return o
    if isinstance(o, (tuple, list)):
        return PList(o)
    if isinstance(o, PRange):
        return PList.sym(o.n, o.get)
    if isinstance(o, PDict):
        return o.keys()
    if isinstance(o, PSet):
        if o.member is not None:
            if o.seqs is not None or o.seqs2 is not None:
                return distinct_seq(o)
            raise Unsupported("iteration over a symbolic set")
        return PList(o.items)
    if isinstance(o, NDArray):
        return PList.sym(o.n, lambda i: o[i])
    if hasattr(o, "to_seq"):
        return o.to_seq()
    if isinstance(o, str):
        return PList(tuple(o))
    if hasattr(o, "__iter__"):
        return PList(tuple(o))
    raise model_exc(TypeError(f"{type(o).__name__} object is not iterable"))


def distinct_seq(s):
    """the distinct elements of a set built from sequences, in unknown order; `locate`
    gives the position of a value, so membership is decided without quantifiers."""
    two = s.seqs2
    if two is not None:
        n, inner = two
        s.lift()
        z0 = SNum.atom(z3.IntVal(0), "int")
        e0 = inner(z0).get(z0)
        get = lambda i: inner(i[0]).get(i[1])
    else:
        st = s.seqs
        n = st.n
        e0 = st.get(SNum.atom(z3.Int("probe!key"), "int"))
        get = lambda i: st.get(i[0])
    if isinstance(e0, (B.str, SStr)):
        code = N.code
    elif isinstance(e0, (B.int, SNum)) and not isinstance(e0, B.bool):
        code = N.rz
    else:
        raise Unsupported(f"set of {type(e0).__name__}")
    I = z3.IntSort()
    m = N.sint("ndist")
    h = eng.fresh_fn("locate", [code(e0).sort()], I)
    fs = [eng.fresh_fn("src", [I], I) for _ in B.range(2 if two else 1)]
    src = lambda j: tuple(SNum.atom(f(iz(j)), "int") for f in fs)
    loc = lambda x: SNum.atom(h(code(x)), "int")
    eng.assume(0 <= m)
    if two is not None:
        size = lambda i: inner(i).n
        ok = lambda i: And(0 <= i[0], i[0] < n, 0 <= i[1], i[1] < size(i[0]))
        k1, k2 = z3.Int(eng.name("q")), z3.Int(eng.name("q"))
        i = (SNum.atom(k1, "int"), SNum.atom(k2, "int"))
        body = And(0 <= loc(get(i)), loc(get(i)) < m, V.key_eq(get(src(loc(get(i)))), get(i)))
        vs = [(k1, z3.IntVal(0), iz(n)), (k2, z3.IntVal(0), iz(size(i[0])))]
        eng.assume_q(QFact.several(vs, N.bz(body), heads_of(code(get(i)), (k1, k2))))
    else:
        ok = lambda i: And(0 <= i[0], i[0] < n)
        eng.assume(And(m <= n, Implies(n > 0, m > 0)))
        eng.forall(0, n, lambda i: And(0 <= loc(get((i,))), loc(get((i,))) < m, V.key_eq(get(src(loc(get((i,))))), get((i,)))))
    eng.forall(0, m, lambda j: And(ok(src(j)), loc(get(src(j))) == j))
    g = lambda j: get(src(j))
    V.located(m, g, loc)
    return PList.sym(m, g)


V.heads_of = lambda t, ks: heads_of(t, ks)


def heads_of(t, ks):
    """applications in t whose arguments are the variables ks (plus numbers)."""
    out, vis, stack = [], set(), [t]
    while stack:
        u = stack.pop()
        if u.get_id() in vis:
            continue
        vis.add(u.get_id())
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.num_args() and all(any(a.eq(k) or z3.is_add(a) and offset(a, k.get_id()) is not None for a in u.children()) for k in ks):
                out.append(u)
            stack.extend(u.children())
    return out


def slice_bounds(s, n):
    """(lo, length, step) of a slice over a length n."""
    st = 1 if s.step is None else s.step
    if isinstance(st, SNum):
        if not decide(st > 0):
            raise Unsupported("symbolic step not positive")
    elif st == 0:
        raise model_exc(ValueError("slice step cannot be zero"))

    def norm(x, d):
        if x is None:
            return d
        if isinstance(x, NDArray):
            x = x.item()
        if isinstance(x, SNum) and x.kind != "int" or not isinstance(x, (int, SNum)):
            raise model_exc(TypeError("slice indices must be integers"))
        return x
    if isinstance(st, int) and st < 0:
        if s.start is None and s.stop is None and st == -1:
            return n - 1, n, -1
        raise Unsupported("negative slice step")
    lo, hi = norm(s.start, 0), norm(s.stop, n)

    def clip(x):
        if decide(x < 0):
            x = x + n
            if decide(x < 0):
                return 0
            return x
        if decide(x > n):
            return n
        return x
    if not (isinstance(lo, int) and lo == 0):
        lo = clip(lo)
    if hi is not n:
        hi = clip(hi)
    d = hi - lo
    if not decide(d > 0):
        return lo, 0, st
    if isinstance(st, int) and st == 1:
        return lo, d, 1
    return lo, (d + (st - 1)) // st, st


# ------------------------------------------------------------- scalar builtins
class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, (bool, SBool)):
            return True
        return isinstance(x, int) or isinstance(x, SNum) and x.kind == "int" and not getattr(x, "np", False)

    def __subclasscheck__(cls, c):
        return c is cls or c is B.int

    def __eq__(cls, o):
        return cls is o or o is B.int

    def __hash__(cls):
        return hash("pint")


class PInt(metaclass=_IntMeta):
    def __new__(cls, x=0, *base):
        if isinstance(x, NDArray):
            x = x.item()
        if isinstance(x, B.int):
            return int(x)
        if isinstance(x, (SNum, Fraction, float)):
            return N.trunc(num(x))
        if isinstance(x, SBool):
            return Ite(x, 1, 0)
        if isinstance(x, B.str):
            try:
                return B.int(x)
            except ValueError as e:
                raise model_exc(e)
        if isinstance(x, SStr):
            if x.parts is None and hasattr(x, "of_int"):
                return x.of_int
            r = parse_inverse(x, "int")
            if r is not None:
                return r
            raise Unsupported("int of symbolic string")
        if hasattr(x, "__pvint__"):
            return x.__pvint__()
        raise model_exc(TypeError(f"int() argument {type(x).__name__}"))


STR_OF_INT = z3.Function("str_of_int", z3.IntSort(), z3.IntSort())


def parse_inverse(s, kind):
    t = s.z
    if z3.is_app(t) and t.decl().name() == "str_of_int":
        return SNum.atom(t.arg(0), "int")
    return None


from .core import axiom


@axiom("str_of_int")
def _soi(t):
    inv = z3.Function("int_of_str", z3.IntSort(), z3.IntSort())
    return [inv(t) == t.arg(0)]


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (B.float, Fraction)) or isinstance(x, SNum) and x.kind == "real"

    def __subclasscheck__(cls, c):
        return c is cls or c is B.float

    def __eq__(cls, o):
        return cls is o or o is B.float

    def __hash__(cls):
        return hash("pfloat")


def pfloat_of(x):
    if isinstance(x, NDArray):
        x = x.item()
    if isinstance(x, (SNum, B.int, Fraction, B.float)):
        x = num(x)
        return SNum(x.p, "real", x.nan)
    if isinstance(x, SBool):
        return num(Ite(x, num(1), num(0)))
    if isinstance(x, B.str):
        try:
            B.float(x)
        except ValueError as e:
            raise model_exc(e)
        if x.strip().lower() in ("nan", "inf", "-inf"):
            raise Unsupported("nan/inf literal")
        return N.const(Fraction(x.strip()))
    if isinstance(x, SStr):
        ok = z3.Function("is_float_str", z3.IntSort(), z3.BoolSort())(x.z)
        if bool(SBool(ok)):
            t = z3.Function("float_of_str", z3.IntSort(), z3.RealSort())(x.z)
            return SNum.atom(t, "real")
        raise model_exc(ValueError("could not convert string to float"))
    if hasattr(x, "__pvfloat__"):
        return x.__pvfloat__()
    raise model_exc(TypeError(f"float() argument {type(x).__name__}"))


class PFloat(metaclass=_FloatMeta):
    def __new__(cls, x=0):
        return pfloat_of(x)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (B.str, SStr))

    def __subclasscheck__(cls, c):
        return c is cls or c is B.str

    def __eq__(cls, o):
        return cls is o or o is B.str

    def __hash__(cls):
        return hash("pstr")


class PStr(metaclass=_StrMeta):
    def __new__(cls, x=""):
        return pstr(x)

    @staticmethod
    def join(sep, items):
        return strjoin(sep, items)


def strjoin(sep, items):
    items = to_seq(items).concrete()
    if items is None:
        return N.sstr("joined")
    if all(isinstance(x, B.str) for x in items):
        return sep.join(items)
    out = []
    for j, x in enumerate(items):
        if j:
            out.append(sep)
        out.append(x)
    return N.str_concat(out) if out else ""


def pstr(x, spec=""):
    if isinstance(x, SStr):
        if spec:
            return N.strfn("fmt:" + spec, x)
        return x
    if isinstance(x, (B.str, bool)) or x is None or isinstance(x, (tuple, type)):
        return format(x, spec) if not isinstance(x, (tuple, type)) else opaque_str("str", x)
    if isinstance(x, B.int):
        return format(x, spec)
    if isinstance(x, SNum):
        c = x.const()
        if c is not None and x.nan is None:
            return format(B.float(c), spec)
        if x.kind == "int" and not spec:
            t = STR_OF_INT(iz(x))
            eng.keep.append(t)
            return SStr(t)
        return N.strfn("fmt:" + x.kind + ":" + spec, x)
    if isinstance(x, Fraction):
        return format(B.float(x), spec)
    if isinstance(x, SBool):
        return N.strfn("strbool", x)
    if hasattr(x, "pv_str"):
        return x.pv_str(spec)
    if hasattr(x, "isoformat"):
        return N.strfn("str:dt", x)
    return opaque_str("str", x)


def str_format(t, args, kw):
    """str.format of a literal with plain fields."""
    import string
    parts, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(t):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == "":
            field, auto = auto, auto + 1
        elif field.isdigit():
            field = B.int(field)
        elif field not in kw:
            raise Unsupported("format field " + field)
        if "{" in spec:
            raise Unsupported("nested format field")
        parts.append(((args[field] if isinstance(field, B.int) else kw[field]), conv or "", spec))
    return PV.fstr(parts)


def percent(t, args):
    """"..." % (...), with %s, %d, %f and %%."""
    import re
    parts, j = [], 0
    for lit, spec in re.findall(r"([^%]+)|%([^%sdfgr]*[%sdfgr])", t):
        if lit:
            parts.append(lit)
        elif spec == "%":
            parts.append("%")
        else:
            x, j = args[j], j + 1
            if spec[-1] == "r" or spec[-1] == "d" and not N.isnum(x):
                return opaque_str("%", args)
            if spec == "s":
                parts.append((x, "", ""))
            elif spec == "d":
                parts.append((PInt(x), "", ""))
            else:
                parts.append((x, "", spec))
    if j != len(args):
        raise model_exc(TypeError("not all arguments converted during string formatting"))
    return PV.fstr(parts)


def opaque_str(tag, x):
    """text of a compound value: only its existence matters (messages)."""
    return N.sstr("text")


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, PList)

    def __getitem__(cls, a):
        return cls

    def __eq__(cls, o):
        return cls is o or o is B.list

    def __hash__(cls):
        return hash("plist")


class PListT(metaclass=_ListMeta):
    def __new__(cls, x=()):
        return PList(to_seq(x))


class _DictMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, PDict)

    def __eq__(cls, o):
        return cls is o or o is B.dict

    def __hash__(cls):
        return hash("pdict")


class PDictT(metaclass=_DictMeta):
    def __new__(cls, x=(), **kw):
        if not isinstance(x, (PDict, PList, dict)):
            x = PList(to_seq(x))
        if isinstance(x, PList) and x.concrete() is None and not kw:
            return dict_of_pairs(x.n, lambda i: x.get(i)[0], lambda i: x.get(i)[1])
        return PDict(x, **{k: v for k, v in kw.items()})


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, PSet)

    def __eq__(cls, o):
        return cls is o or o is B.set

    def __hash__(cls):
        return hash("pset")


class PSetT(metaclass=_SetMeta):
    def __new__(cls, x=()):
        return PSet(x)


class _TupleMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, B.tuple)

    def __eq__(cls, o):
        return cls is o or o is B.tuple

    def __hash__(cls):
        return hash("ptuple")


class PTupleT(metaclass=_TupleMeta):
    def __new__(cls, x=()):
        cc = to_seq(x).concrete()
        if cc is None:
            raise Unsupported("tuple of symbolic length")
        return tuple(cc)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (B.bool, SBool))

    def __eq__(cls, o):
        return cls is o or o is B.bool

    def __hash__(cls):
        return hash("pbool")


class PBool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        if isinstance(x, SBool):
            return x
        return B.bool(x)


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (B.complex, SComplex))

    def __eq__(cls, o):
        return cls is o or o is B.complex

    def __hash__(cls):
        return hash("pcomplex")


class PComplex(metaclass=_ComplexMeta):
    def __new__(cls, re=0, im=0):
        if isinstance(re, SComplex) and im == 0:
            return re
        return SComplex(num(re), num(im))


def plen(x):
    if isinstance(x, (PList, PDict, PSet, NDArray, PRange)) or hasattr(x, "pv_len"):
        return x.pv_len() if hasattr(x, "pv_len") else x.n
    if isinstance(x, (B.str, B.tuple, B.list, B.dict)):
        return B.len(x)
    if isinstance(x, SStr):
        t = z3.Function("str_len", z3.IntSort(), z3.IntSort())(x.z)
        eng.assume(t >= 0)
        return SNum.atom(t, "int")
    if hasattr(type(x), "__len__"):
        return type(x).__len__(x)
    raise model_exc(TypeError(f"object of type {type(x).__name__} has no len()"))


def pmin(*a, key=None, default=V.MISSING):
    return extremum(a, lambda x, y: x < y, key, default, "min")


def pmax(*a, key=None, default=V.MISSING):
    return extremum(a, lambda x, y: x > y, key, default, "max")


def extremum(a, better, key, default, nm):
    if key is not None:
        raise Unsupported("min/max key")
    if len(a) == 1:
        s = to_seq(a[0])
        cc = s.concrete()
        if cc is None:
            n = s.n
            if decide(n == 0):
                if default is not V.MISSING:
                    return default
                raise model_exc(ValueError(f"{nm}() arg is an empty sequence"))
            w = N.sint("arg" + nm)
            eng.assume(And(0 <= w, w < n))
            st = PList(s)
            r = st.get(w)
            eng.forall(0, n, lambda q: Not(better(st.get(q), r)))
            return r
        a = cc
        if not a:
            if default is not V.MISSING:
                return default
            raise model_exc(ValueError(f"{nm}() arg is an empty sequence"))
    r = a[0]
    for x in a[1:]:
        c = better(x, r)
        if isinstance(c, bool):
            r = x if c else r
        elif V.is_scalar(x) and V.is_scalar(r) and not isinstance(x, (B.str, SStr)):
            r = Ite(c, x, r)
        else:
            r = x if bool(c) else r
    return r


def psorted(x, key=None, reverse=False):
    s = to_seq(x)
    cc = s.concrete()
    if cc is not None:
        ks = [(key(v) if key else v) for v in cc]
        if all(isinstance(k, (B.str, B.int)) for k in ks):
            order = B.sorted(range(len(cc)), key=lambda i: ks[i], reverse=bool(reverse))
            return PList([cc[i] for i in order])
        out = []
        for v, k in zip(cc, ks):          # stable insertion
            p = len(out)
            while p > 0 and decide((k > out[p - 1][0]) if reverse else (k < out[p - 1][0])):
                p -= 1
            out.insert(p, (k, v))
        return PList([v for k, v in out])
    if key is not None or reverse:
        raise Unsupported("sorted with key over a symbolic sequence")
    n = s.n
    perm, inv = sort_perm(n, lambda i: s.get(i))
    st = PList(s)
    g = lambda j: st.get(perm(j))
    where = V.locator(st)

    def ranked(j):
        """the first is the least, the last the greatest."""
        t = z3.simplify(iz(j))
        if t.eq(z3.IntVal(0)):
            eng.forall(0, n, lambda q: Not(st.get(q) < st.get(perm(0))))
        elif t.eq(z3.simplify(iz(n - 1))):
            eng.forall(0, n, lambda q: Not(st.get(perm(n - 1)) < st.get(q)))
        return g(j)
    if where is not None:
        V.located(n, ranked, lambda x: inv(where(x)))
    return PList.sym(n, ranked)


def sort_perm(n, keyfn):
    """contract of a stable sort: a permutation with non-decreasing keys."""
    f = eng.fresh_fn("perm", [z3.IntSort()], z3.IntSort())
    g = eng.fresh_fn("permi", [z3.IntSort()], z3.IntSort())
    perm = lambda j: SNum.atom(f(iz(j)), "int")
    inv = lambda j: SNum.atom(g(iz(j)), "int")
    eng.forall(0, n, lambda j: And(0 <= perm(j), perm(j) < n, inv(perm(j)) == j))
    eng.forall(0, n, lambda i: And(0 <= inv(i), inv(i) < n, perm(inv(i)) == i))
    eng.forall(0, n - 1, lambda j: Not(keyfn(perm(j + 1)) < keyfn(perm(j))))
    return perm, inv


def pall(x):
    cc = to_seq(x).concrete()
    if cc is None:
        s = to_seq(x)
        n = s.n
        st = PList(s)
        p = N.sbool("all")
        w = N.sint("allw")
        if bool(p):
            eng.forall(0, n, lambda q: truth(st.get(q)))
            return True
        eng.assume(And(0 <= w, w < n))
        eng.assume(Not(truth(st.get(w))))
        return False
    for v in cc:
        if not v:
            return False
    return True


def pany(x):
    cc = to_seq(x).concrete()
    if cc is None:
        s = to_seq(x)
        return not pall(PList.sym(s.n, lambda q: Not(truth(s.get(q)))))
    for v in cc:
        if v:
            return True
    return False


def truth(v):
    if isinstance(v, (B.bool, SBool)):
        return v
    if isinstance(v, (B.int, SNum)):
        return v != 0
    raise Unsupported("truth of sequence element")


def psum(x, start=0):
    s = to_seq(x)
    cc = s.concrete()
    if cc is None:
        return num(start) + seq_sum(s.n, s.get)
    r = start
    for v in cc:
        r = r + v
    return r


def seq_sum(n, get):
    """sum over a symbolic range: functional of the summand."""
    return A.functional("sum", [get], [n], [])


def penumerate(x, start=0):
    s = to_seq(x)
    cc = s.concrete()
    if cc is not None:
        return PList(tuple((start + i, v) for i, v in enumerate(cc)))
    st = PList(s)
    return PList.sym(st.n, lambda i: (start + i, st.get(i)))


def pzip(*xs):
    ss = [PList(to_seq(x)) for x in xs]
    if not ss:
        return PList()
    n = ss[0].n
    for s in ss[1:]:
        m = s.n
        if not decide(n == m):
            n = n if decide(n < m) else m
    return PList.sym(n, lambda i: tuple(s.get(i) for s in ss))


def preversed(x):
    return V.reversed_list(to_seq(x))


def pround(x, nd=None):
    x = num(x)
    if nd is None:
        return N.round_half_even(x)
    if not isinstance(nd, int):
        raise Unsupported("round digits")
    s = Fraction(10) ** nd
    r = num(N.round_half_even(x * N.const(s))) / N.const(s)
    return r


def pabs(x):
    return abs(x)


def pmap(f, *xs):
    if len(xs) == 1:
        s = to_seq(xs[0])
        return pv.comp("list", s, f, None)
    raise Unsupported("map")


def pfilter(f, x):
    return pv.comp("list", x, lambda v: v, f if f is not None else (lambda v: v))


def pisinstance(x, c):
    if isinstance(c, tuple):
        return any(pisinstance(x, y) for y in c)
    k = getattr(type(x), "_stands_for", None)       # an arbitrary object of that class
    if k is not None:
        return isinstance(c, type) and issubclass(k(x), c)
    if c is B.int:
        c = PInt
    elif c is B.float:
        c = PFloat
    elif c is B.str:
        c = PStr
    elif c is B.list:
        c = PListT
    elif c is B.dict:
        c = PDictT
    elif c is B.bool:
        c = PBool
    elif c is B.complex:
        c = PComplex
    if c is PFloat and getattr(x, "nan", None) is not None and isinstance(x, SNum):
        return True
    return B.isinstance(x, c)


def ptype(x, *a):
    if a:
        return B.type(x, *a)
    if isinstance(x, SNum):
        return PInt if x.kind == "int" else PFloat
    if isinstance(x, SStr) or isinstance(x, B.str):
        return PStr
    if isinstance(x, PList):
        return PListT
    if isinstance(x, PDict):
        return PDictT
    return B.type(x)


def pprint_(*a, **k):
    return None


def pnext(it, *d):
    if hasattr(it, "pv_next"):
        return it.pv_next(*d)
    if hasattr(it, "__next__"):
        return B.next(it, *d)
    s = to_seq(it)
    raise Unsupported("next()")


class _Iter:
    def __init__(self, x):
        self.s = PList(to_seq(x))
        self.i = 0

    def pv_next(self, *d):
        if decide(self.i < self.s.n):
            v = self.s.get(self.i)
            self.i = self.i + 1
            return v
        if d:
            return d[0]
        raise model_exc(StopIteration())

    def to_seq(self):
        return self.s


def piter(x):
    return _Iter(x)


def pgetattr(o, n, *d):
    return B.getattr(o, n, *d)


class _ObjMeta(type):
    def __instancecheck__(cls, x):
        return True


def build_class(func, name, *bases, metaclass=None, **kw):
    bs = []
    for b in bases:
        if b is B.object:
            continue
        bs.append(b)
    special = any(isinstance(b, type) and (issubclass(b, BaseException) or issubclass(b, Tracked) or getattr(b, "_pv_native", False))
                  for b in bs)
    if not special and name != "Config":
        bs.append(PObject)
    if metaclass is not None:
        return B.__build_class__(func, name, *bs, metaclass=metaclass, **kw)
    return B.__build_class__(func, name, *bs, **kw)


def popen(*a, **k):
    raise Unsupported("open()")


def make_builtins(importer):
    d = {k: getattr(B, k) for k in dir(B)}
    for k in ("eval", "exec", "compile", "input", "globals", "locals", "vars", "id", "memoryview", "bytearray"):
        d.pop(k, None)
    d.update(int=PInt, float=PFloat, str=PStr, list=PListT, dict=PDictT, set=PSetT, frozenset=PSetT, tuple=PTupleT,
             bool=PBool, complex=PComplex,
             len=plen, range=PRange, min=pmin, max=pmax, sorted=psorted, all=pall, any=pany, sum=psum,
             enumerate=penumerate, zip=pzip, reversed=preversed, round=pround, abs=pabs, map=pmap, filter=pfilter,
             isinstance=pisinstance, type=ptype, print=pprint_, next=pnext, iter=piter, open=popen,
             object=PObject, __build_class__=build_class, __import__=importer)
    return d


# --------------------------------------------------------------------- __pv
class PV:
    UNBOUND = UNBOUND
    BRK = BRK
    Ret = Ret

    @staticmethod
    def is_ret(r):
        return isinstance(r, Ret)

    @staticmethod
    def mklist(l):
        return PList(tuple(l))

    @staticmethod
    def mkset(l):
        return PSet(list(l))

    @staticmethod
    def catlist(parts):
        """[*a, x, ...]"""
        r = PList()
        for v, star in parts:
            r = r + (PListT(v) if star else PList((v,)))
        return r

    @staticmethod
    def catset(parts):
        if len(parts) == 1:
            return PSetT(parts[0][0])
        return PSetT(PV.catlist(parts))

    @staticmethod
    def mkdict(items):
        d = PDict()
        for k, v, star in items:
            if star:
                d.update(v)
            else:
                d.layers = d._set(k, v)
        return d

    @staticmethod
    def kwdict(d):
        return PDict(d)

    @staticmethod
    def star(x):
        if isinstance(x, (tuple, list)):
            return x
        cc = to_seq(x).concrete()
        if cc is None:
            raise Unsupported("* of symbolic length")
        return cc

    @staticmethod
    def starstar(x):
        if isinstance(x, dict):
            return x
        if isinstance(x, PDict):
            cc = x.concrete()
            if cc is None:
                return SymKw(x)
            return {k: v for k, v in cc}
        raise model_exc(TypeError("argument after ** must be a mapping"))

    @staticmethod
    def lit(s):
        return N.const(Fraction(s))

    @staticmethod
    def clit(s):
        return SComplex(num(0), N.const(Fraction(s)))

    @staticmethod
    def div(a, b):
        if isinstance(a, (int, Fraction, float, bool)) and isinstance(b, (int, Fraction, float, bool)):
            if b == 0:
                raise model_exc(ZeroDivisionError("division by zero"))
            return N.const(Fraction(a) / Fraction(b))
        return a / b

    @staticmethod
    def mod(a, b):
        if isinstance(a, str):
            return percent(a, b if isinstance(b, tuple) else (b,))
        return a % b

    @staticmethod
    def strmethod(o, name):
        if not isinstance(o, B.str):
            return getattr(o, name)
        return (lambda items: strjoin(o, items)) if name == "join" else (lambda *a, **k: str_format(o, a, k))

    @staticmethod
    def pow(a, b):
        if isinstance(a, NDArray) or isinstance(b, NDArray):
            return a ** b
        if isinstance(a, int) and isinstance(b, int):
            if b >= 0:
                return a ** b
            return N.const(Fraction(a) ** b)
        return N.power(num(a), num(b))

    @staticmethod
    def fstr(parts):
        out = []
        for p in parts:
            if isinstance(p, tuple):
                v, conv, spec = p
                if not isinstance(spec, str):
                    spec = "?"
                if conv == "r":
                    out.append(repr(v) if isinstance(v, (str, int)) else opaque_str("repr", v))
                else:
                    out.append(pstr(v, spec))
            else:
                out.append(p)
        return N.str_concat(out)

    @staticmethod
    def chk(e):
        if not sanctioned(e):
            raise Unsupported("internal: " + describe_exc(e))

    # -- comprehensions -------------------------------------------------
    @staticmethod
    def comp(kind, it, f, cond):
        s = PList(to_seq(it))
        cc = s.concrete()
        if cc is not None:
            vals = []
            for x in cc:
                if cond is None or cond(x):
                    vals.append(f(x))
            return PV.comp_kind(kind, PList(tuple(vals)))
        n = s.n
        if cond is not None:
            s, n = filtered(s, n, cond)
        r = V.gen_map(n, lambda k: f(s.get(k)))
        return PV.comp_kind(kind, r, lambda k: f(s.get(k)))

    @staticmethod
    def comp_kind(kind, r, fn=None):
        if kind == "list":
            return r
        if kind == "set":
            return PSet(r)
        cc = r.concrete()
        if cc is not None:
            return PDict([kv for kv in cc])
        n = r.n
        return dict_of_pairs(n, lambda i: r.get(i)[0], lambda i: r.get(i)[1])

    @staticmethod
    def comp_flat(it, f, cond):
        s = PList(to_seq(it))
        cc = s.concrete()
        if cc is None:
            raise Unsupported("nested comprehension over a symbolic sequence")
        out = PList()
        for x in cc:
            if cond is None or cond(x):
                out.extend(f(x))
        return out

    # -- loops ------------------------------------------------------------
    @staticmethod
    def for_loop(it, body, acc, names, carried, live, where):
        from .loops import for_loop
        return for_loop(it, body, acc, names, carried, live, where)

    @staticmethod
    def while_loop(test, body, acc, names, carried, live, where):
        from .loops import while_loop
        return while_loop(test, body, acc, names, carried, live, where)


class SymKw(dict):
    """** of a dictionary with symbolic keys."""
    def __init__(self, d):
        super().__init__({"__pv_symkw__": d})


def filtered(s, n, cond):
    """subsequence of the elements satisfying cond: order-preserving positions."""
    c = V.generic(n, lambda k: V.decide(truthy(cond(s.get(k)))))
    good = [p for p in c.paths if p.kind == "ret"]
    if any(p.kind == "exc" for p in c.paths):
        V.exits(n, c, good, lambda m: cond(s.get(m)))
    g = V.PathFn(c.k, good, n)
    g.lift()
    mask = NDArray.make((n,), A.BOOL, lambda i: g.at(i) if isinstance(g.at(i), (bool, SBool)) else truth(g.at(i)))
    sel = A.MaskSel(mask)
    return PList.sym(sel.count, lambda j: s.get(sel.pos(j))), sel.count


def truthy(v):
    if isinstance(v, (bool, SBool)):
        return v
    return bool(v)


def dict_of_pairs(n, keyfn, valfn):
    """dictionary from n (key, value) pairs, later ones winning; keys must be distinct
    (proved) so that the family layer is exact."""
    if distinct_keys(n, keyfn):
        return PDict.family(n, keyfn, valfn)
    raise Unsupported("dictionary with possibly repeated symbolic keys")


def distinct_keys(n, keyfn):
    """keyfn injective on [0,n): either syntactically by a family inverse or by the solver."""
    i, j = z3.Int(eng.name("dk")), z3.Int(eng.name("dk"))
    si, sj = SNum.atom(i, "int"), SNum.atom(j, "int")
    e = V.key_eq(keyfn(si), keyfn(sj))
    if e is False:
        return True
    if e is True:
        return False
    goal = z3.Implies(z3.And(0 <= i, i < iz(n), 0 <= j, j < iz(n), N.bz(e)), i == j)
    return eng.valid(goal, quick=False)


pv = PV()
