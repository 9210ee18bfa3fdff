"""Symbolic scalars: numbers in Laurent-polynomial normal form, booleans,
complex numbers, names (strings as codes)."""
from fractions import Fraction
import math
import z3
from .core import eng, Unsupported, model_exc, axiom, pair_axiom

# ---------------------------------------------------------------- polynomials
# poly: dict { ((atom_id, exp), ...) sorted : Fraction }
_atoms = {}       # atom id -> z3 expr
INV = z3.Function("inv", z3.RealSort(), z3.RealSort())


@axiom("inv")
def _inv_ax(t):
    x = t.arg(0)
    return [z3.Implies(x != 0, x * t == 1), z3.Implies(x > 0, t > 0), z3.Implies(x < 0, t < 0)]


def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_atom(e):
    i = e.get_id()
    if i not in _atoms:
        _atoms[i] = e
    return {((i, 1),): Fraction(1)}


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        v = d.get(i, 0) + e
        if v:
            d[i] = v
        else:
            del d[i]
    return tuple(sorted(d.items()))


def p_scale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    # cancellation  Q * inv(Q)
    for x, y in ((a, b), (b, a)):
        if len(x) == 1 and len(y) > 1:
            (m, c), = x.items()
            for i, e in m:
                at = _atoms[i]
                if e >= 1 and z3.is_app(at) and at.decl().name() == "inv":
                    q = _invpoly.get(i)
                    if q is not None:
                        r = p_ratio(y, q)
                        if r is not None:
                            rest = dict(m)
                            rest[i] -= 1
                            if not rest[i]:
                                del rest[i]
                            return p_mul({tuple(sorted(rest.items())): c}, r)
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


_invpoly = {}


def p_ratio(y, q):
    """y / q when it is a monomial, else None."""
    if not y or not q or len(y) != len(q):
        return None
    ym = max(y)
    for qm, qc in q.items():
        d = m_mul(ym, tuple((i, -e) for i, e in qm))
        c = y[ym] / qc
        if all(y.get(m_mul(m, d)) == v * c for m, v in q.items()):
            return {d: c}
    return None


def p_common(a):
    """the largest monomial that divides every term (in both directions of exponents)."""
    ms = [dict(m) for m in a]
    g = dict(ms[0])
    for m in ms[1:]:
        for i in list(g):
            e = m.get(i, 0)
            if e * g[i] <= 0:
                del g[i]
            elif abs(e) < abs(g[i]):
                g[i] = e
        if not g:
            return ()
    return tuple(sorted(g.items()))


def positive(i):
    """is the atom assumed positive?"""
    a = _atoms[i]
    pc = eng.pcset
    if a.is_int():
        return (a >= 1).get_id() in pc or (a > 0).get_id() in pc
    return (a > 0).get_id() in pc


def p_inv(a):
    if not a:
        raise ZeroDivisionError
    if len(a) == 1:
        (m, c), = a.items()
        return {tuple((i, -e) for i, e in m): 1 / c}
    g = p_common(a)
    if g:
        return p_mul({tuple((i, -e) for i, e in g): Fraction(1)}, p_inv(p_mul({tuple((i, -e) for i, e in g): Fraction(1)}, a)))
    # content out
    lead = max(a)
    c = a[lead]
    n = p_scale(a, 1 / c)
    t = INV(p_emit(n, "real"))
    eng.keep.append(t)
    r = p_atom(t)
    _invpoly[t.get_id()] = n
    return p_scale(r, 1 / c)


def is_int_atom(i):
    return _atoms[i].is_int()


def p_is_intform(a):
    return all(c.denominator == 1 and all(e > 0 and is_int_atom(i) for i, e in m) for m, c in a.items())


def _numz(c, kind):
    if kind == "int":
        return z3.IntVal(c.numerator)
    return z3.RealVal(str(c))


_emit_cache = {}


def p_emit(a, kind):
    key = (kind, tuple(sorted(a.items())))
    r = _emit_cache.get(key)
    if r is not None:
        return r
    terms = []
    for m, c in sorted(a.items()):
        fs = []
        for i, e in m:
            at = _atoms[i]
            if kind == "real" and at.is_int():
                at = z3.ToReal(at)
            if e < 0:
                at = INV(at)
                e = -e
            fs.extend([at] * e)
        if c != 1 or not fs:
            fs.insert(0, _numz(c, kind))
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        terms.append(t)
    if not terms:
        r = _numz(Fraction(0), kind)
    else:
        r = terms[0] if len(terms) == 1 else z3.Sum(terms) if False else _sum(terms)
    _emit_cache[key] = r
    return r


def _sum(ts):
    r = ts[0]
    for t in ts[1:]:
        r = r + t
    return r


_from_cache = {}


def p_from(e):
    i = e.get_id()
    r = _from_cache.get(i)
    if r is not None:
        return r
    r = _p_from(e)
    eng.keep.append(e)
    _from_cache[i] = r
    return r


def _p_from(e):
    if z3.is_int_value(e):
        return p_const(e.as_long())
    if z3.is_rational_value(e):
        return p_const(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    if z3.is_add(e):
        r = {}
        for c in e.children():
            r = p_add(r, p_from(c))
        return r
    if z3.is_sub(e):
        cs = e.children()
        r = p_from(cs[0])
        for c in cs[1:]:
            r = p_add(r, p_from(c), -1)
        return r
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        return p_scale(p_from(e.arg(0)), -1)
    if z3.is_mul(e):
        r = p_const(1)
        for c in e.children():
            r = p_mul(r, p_from(c))
        return r
    if z3.is_div(e):
        d = p_from(e.arg(1))
        if d:
            return p_mul(p_from(e.arg(0)), p_inv(d))
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return p_from(e.arg(0))
    if z3.is_app_of(e, z3.Z3_OP_TO_INT):
        return num_floor_poly(p_from(e.arg(0)))
    if z3.is_app(e) and e.decl().name() == "inv" and e.num_args() == 1:
        d = p_from(e.arg(0))
        if d:
            if len(d) == 1:
                return p_inv(d)
            return p_inv(d)
    if z3.is_app(e) and e.decl().name() == "ipow":
        return p_ipow(e.arg(0), p_from(e.arg(1)))
    return p_atom(e)


IPOW = z3.Function("ipow", z3.IntSort(), z3.IntSort(), z3.IntSort())
IQUO = z3.Function("iquo", z3.IntSort(), z3.IntSort(), z3.IntSort())
ILOG = z3.Function("ilog", z3.IntSort(), z3.IntSort(), z3.IntSort())


def p_ipow(b, e):
    """b ** e for integers, e >= 0, with the constant part of the exponent split off."""
    c = e.get((), Fraction(0))
    rest = {m: v for m, v in e.items() if m != ()}
    if c < 0 or c.denominator != 1 or c > 64:
        rest, c = e, 0
    r = p_const(1)
    for _ in range(int(c)):
        r = p_mul(r, p_from(b))
    if rest:
        t = IPOW(b, p_emit(rest, "int"))
        eng.keep.append(t)
        r = p_mul(r, p_atom(t))
    return r


@axiom("ipow")
def _ipow_ax(t):
    b, e = t.arg(0), t.arg(1)
    return [z3.Implies(b >= 1, t >= 1), z3.Implies(e == 0, t == 1), z3.Implies(z3.And(b >= 2, e >= 0), ILOG(b, t) == e), z3.Implies(z3.And(b >= 2, e >= 1), t >= b)]


@pair_axiom("ipow")
def _ipow_pair(t, u):
    b, e, f = t.arg(0), t.arg(1), u.arg(1)
    if not b.eq(u.arg(0)):
        return []
    R = z3.ToReal
    return [z3.Implies(z3.And(f >= 0, e == f + 1), z3.And(t == b * u, INV(R(t)) == INV(R(b)) * INV(R(u)))),
            z3.Implies(z3.And(e >= 0, f == e + 1), z3.And(u == b * t, INV(R(u)) == INV(R(b)) * INV(R(t)))),
            z3.Implies(z3.And(b >= 2, e >= 0, f >= 0), z3.And((e < f) == (t < u), (e == f) == (t == u))),
            z3.Implies(z3.And(b >= 1, e >= f, f >= 0), t == u * IQUO(t, u)),
            z3.Implies(z3.And(b >= 1, f >= e, e >= 0), u == t * IQUO(u, t))]


@axiom("ilog")
def _ilog_ax(t):
    b, x = t.arg(0), t.arg(1)
    return [z3.Implies(z3.And(b >= 2, x == 1), z3.And(t == 0, IPOW(b, z3.IntVal(0)) == 1))]


def ipower(a, k):
    """a ** k for k = 0, 1, 2, ... (k integer valued); None when a has no such form."""
    a, k = num(a), num(k)
    if len(a.p) != 1 or a.nan is not None:
        return None
    (m, c), = a.p.items()
    out = {(): Fraction(1)}

    def times(b, e):
        nonlocal out
        p = p_ipow(b, k.p)
        for _ in range(abs(e)):
            out = p_mul(out, p if e > 0 else p_inv(p))
    if c <= 0:
        return None
    for v, e in ((c.numerator, 1), (c.denominator, -1)):
        if v != 1:
            times(z3.IntVal(v), e)
    for i, e in m:
        if not is_int_atom(i):
            return None
        times(_atoms[i], e)
    return SNum(out, a.kind)


def num_floor_poly(p):
    """floor of a polynomial, integer part extracted."""
    ip, fp = {}, {}
    for m, c in p.items():
        if all(e > 0 and is_int_atom(i) for i, e in m):
            w = c.numerator // c.denominator
            if w:
                ip[m] = Fraction(w)
            if c - w:
                fp[m] = c - w
        else:
            fp[m] = c
    if not fp:
        return ip
    if list(fp) == [()]:
        return ip        # 0 <= frac const < 1
    t = z3.ToInt(p_emit(fp, "real"))
    eng.keep.append(t)
    return p_add(ip, p_atom(t))


# ------------------------------------------------------------------- booleans
def bz(x):
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_bool(x):
        return x
    raise Unsupported(f"not a boolean: {type(x)}")


class SBool:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return eng.branch(self.z)

    def __and__(self, o):
        return mkbool(z3.And(self.z, bz(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.z, bz(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def __eq__(self, o):
        return mkbool(self.z == bz(o))

    def __ne__(self, o):
        return mkbool(self.z != bz(o))

    def __hash__(self):
        raise Unsupported("hash of symbolic bool")

    def __repr__(self):
        return f"SBool({self.z})"


def mkbool(z):
    if isinstance(z, bool):
        return z
    s = z3.simplify(z)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SBool(z)


def And(*xs):
    zs = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        zs.append(bz(x))
    if not zs:
        return True
    return SBool(z3.And(*zs)) if len(zs) > 1 else SBool(zs[0])


def Or(*xs):
    zs = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        zs.append(bz(x))
    if not zs:
        return False
    return SBool(z3.Or(*zs)) if len(zs) > 1 else SBool(zs[0])


def Not(x):
    return (not x) if isinstance(x, bool) else mkbool(z3.Not(bz(x)))


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    """Value-level conditional on scalars (no branching)."""
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, SComplex) or isinstance(b, SComplex):
        a, b = to_complex(a), to_complex(b)
        return SComplex(Ite(c, a.re, b.re), Ite(c, a.im, b.im))
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(z3.If(bz(c), bz(a), bz(b)))
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return SStr(z3.If(bz(c), code(a), code(b)))
    a, b = num(a), num(b)
    kind = "int" if a.kind == b.kind == "int" else "real"
    d = p_add(a.p, b.p, -1)
    if not d:
        return SNum(a.p, kind)
    nan = None
    if a.nan is not None or b.nan is not None:
        nan = Ite(c, a.nan if a.nan is not None else False, b.nan if b.nan is not None else False)
        if nan is False:
            nan = None
    t = z3.If(bz(c), p_emit(a.p, kind), p_emit(b.p, kind))
    eng.keep.append(t)
    return SNum(p_atom(t), kind, nan)


# -------------------------------------------------------------------- numbers
class SNum:
    """kind 'int' or 'real'.  nan: None or SBool/True when the value may be NaN."""
    __slots__ = ("p", "kind", "nan")

    def __init__(self, p, kind, nan=None):
        self.p, self.kind, self.nan = p, kind, nan

    @staticmethod
    def atom(e, kind=None):
        return SNum(p_from(e), kind or ("int" if e.is_int() else "real"))

    @property
    def z(self):
        return p_emit(self.p, self.kind if self.kind == "real" or p_is_intform(self.p) else "real")

    @property
    def zr(self):
        return p_emit(self.p, "real")

    def const(self):
        """Fraction when constant, else None."""
        if not self.p:
            return Fraction(0)
        if len(self.p) == 1 and () in self.p:
            return self.p[()]
        return None

    def _bin(self, o, f):
        o = num(o, True)
        if o is None:
            return NotImplemented
        if isinstance(o, SComplex):
            return f(to_complex(self), o)
        nan = None
        if self.nan is not None or o.nan is not None:
            nan = Or(self.nan if self.nan is not None else False, o.nan if o.nan is not None else False)
        return f(self, o, nan)

    def __add__(self, o):
        return self._bin(o, lambda a, b, n=None: mk(p_add(a.p, b.p), jk(a, b), n) if isinstance(a, SNum) else a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b, n=None: mk(p_add(a.p, b.p, -1), jk(a, b), n) if isinstance(a, SNum) else a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b, n=None: mk(p_add(b.p, a.p, -1), jk(a, b), n) if isinstance(a, SNum) else b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b, n=None: mk(p_mul(a.p, b.p), jk(a, b), n) if isinstance(a, SNum) else a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b, n=None: divide(a, b, n) if isinstance(a, SNum) else a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b, n=None: divide(b, a, n) if isinstance(a, SNum) else b / a)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b, n=None: floordiv(a, b))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b, n=None: floordiv(b, a))

    def __mod__(self, o):
        return self._bin(o, lambda a, b, n=None: mod(a, b))

    def __rmod__(self, o):
        return self._bin(o, lambda a, b, n=None: mod(b, a))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(num(o), self)

    def __neg__(self):
        return mk(p_scale(self.p, -1), self.kind, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        c = self.const()
        if c is not None:
            return mk(p_const(abs(c)), self.kind)
        return Ite(self >= 0, self, -self)

    def _cmp(self, o, op):
        o = num(o, True)
        if o is None or isinstance(o, SComplex):
            return NotImplemented
        d = p_add(self.p, o.p, -1)
        if not d or (len(d) == 1 and () in d):
            c = d.get((), Fraction(0))
            r = {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
        else:
            g = p_common(d) if len(d) > 1 else ()
            g = tuple((i, e) for i, e in g if positive(i))
            if g:                  # cancel positive factors
                d = p_mul(d, {tuple((i, -e) for i, e in g): Fraction(1)})
            # positive / negative sides apart, integer scaling
            l = math.lcm(*[v.denominator for v in d.values()])
            pos = {m: v * l for m, v in d.items() if v > 0}
            neg = {m: -v * l for m, v in d.items() if v < 0}
            kind = "int" if p_is_intform(pos) and p_is_intform(neg) else "real"
            a, b = p_emit(pos, kind), p_emit(neg, kind)
            r = SBool({"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
                       ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[op]())
        for x in (self.nan, o.nan):
            if x is not None:
                r = Or(x, r) if op == "!=" else And(Not(x), r)
        return r

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if isinstance(o, SComplex):
            return to_complex(self) == o
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        if isinstance(o, SComplex):
            return Not(to_complex(self) == o)
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __hash__(self):
        c = self.const()
        if c is not None:
            return hash(c)
        return hash(tuple(sorted(self.p.items())))

    def __bool__(self):
        r = self._cmp(0, "!=")
        return bool(r)

    def __index__(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return c.numerator
        raise Unsupported("symbolic number used as a native index")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        raise Unsupported("symbolic number used as a native float")

    def __repr__(self):
        c = self.const()
        if c is not None:
            return f"{c}"
        return f"SNum({p_emit(self.p, 'real')})"

    # python float / numpy scalar surface
    def is_integer(self):
        if p_is_intform(self.p):
            return True
        return SNum(num_floor_poly(self.p), "int") == self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return mk({}, self.kind)

    def conjugate(self):
        return self

    def item(self):
        return self

    def astype(self, dt):
        from .arrays import cast_scalar
        return cast_scalar(self, dt)

    @property
    def dtype(self):
        from .arrays import dtype_of_scalar
        return dtype_of_scalar(self)

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def tolist(self):
        return self

    def as_integer_ratio(self):
        raise Unsupported("as_integer_ratio")


def jk(a, b):
    return "int" if a.kind == b.kind == "int" else "real"


def mk(p, kind, nan=None):
    if kind == "int" and nan is None:
        if not p:
            return 0
        if len(p) == 1 and () in p:
            c = p[()]
            if c.denominator == 1:
                return c.numerator
    return SNum(p, kind, nan)


def const(c, kind="real"):
    if kind == "int":
        return int(c)
    return SNum(p_const(c), "real")


def num(x, soft=False):
    if isinstance(x, SNum):
        return x
    if isinstance(x, bool):
        return SNum(p_const(int(x)), "int")
    if isinstance(x, int):
        return SNum(p_const(x), "int")
    if isinstance(x, Fraction):
        return SNum(p_const(x), "real")
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported(f"float {x}")
        return SNum(p_const(Fraction(x)), "real")
    if isinstance(x, SComplex):
        return x
    if isinstance(x, complex):
        return SComplex(num(Fraction(x.real)), num(Fraction(x.imag)))
    if isinstance(x, SBool):
        t = z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
        return SNum(p_atom(t), "int")
    if soft:
        return None
    raise Unsupported(f"not a number: {type(x)}")


def iz(x):
    """z3 Int term."""
    x = num(x)
    if not p_is_intform(x.p):
        raise Unsupported("integer expected")
    return p_emit(x.p, "int")


def rz(x):
    return p_emit(num(x).p, "real")


def isnum(x):
    return isinstance(x, (SNum, int, float, Fraction)) and not isinstance(x, bool)


def nonzero_or_raise(b):
    if b.const() is not None:
        if b.const() == 0:
            raise model_exc(ZeroDivisionError("division by zero"))
        return
    if eng.lazy:
        return
    if bool(b == 0):
        raise model_exc(ZeroDivisionError("division by zero"))


def divide(a, b, nan=None):
    nonzero_or_raise(b)
    return SNum(p_mul(a.p, p_inv(b.p)), "real", nan)


FDIV = z3.Function("fdiv", z3.IntSort(), z3.IntSort(), z3.IntSort())      # python's floor division


@axiom("fdiv")
def _fdiv_ax(t):
    a, b = t.arg(0), t.arg(1)
    return [z3.Implies(b > 0, z3.And(b * t <= a, a < b * t + b)), z3.Implies(b < 0, z3.And(b * t >= a, a > b * t + b)), z3.Implies(z3.And(b > 0, a >= 0), z3.And(t >= 0, t <= a))]


def floordiv(a, b):
    nonzero_or_raise(b)
    kind = jk(a, b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return mk(p_const((ca / cb).__floor__()), kind)
    if cb is not None:
        return mk(num_floor_poly(p_scale(a.p, 1 / cb)), kind)
    if kind == "int":
        q = p_mul(a.p, p_inv(b.p))
        if p_is_intform(q):
            return mk(q, "int")
        w = whole_part(a, b)
        if w is not None:
            return w
        az, bzz = p_emit(a.p, "int"), p_emit(b.p, "int")
        t = FDIV(az, bzz)
        eng.keep.append(t)
        return mk(p_atom(t), "int")
    return mk(num_floor_poly(p_mul(a.p, p_inv(b.p))), kind)


def whole_part(a, b):
    """a // b when b is a product and what remains of a after its multiples of b is within [0, b)."""
    if len(b.p) != 1 or not a.p:
        return None
    (mb, cb), = b.p.items()
    q, rest = {}, {}
    for m, c in a.p.items():
        d = dict(m)
        if all(d.get(x, 0) >= e > 0 for x, e in mb) and all(e > 0 for e in d.values()) and (c / cb).denominator == 1:
            for x, e in mb:
                d[x] -= e
            q[tuple(sorted((x, e) for x, e in d.items() if e))] = c / cb
        else:
            rest[m] = c
    if not q:
        return None
    r = SNum(rest, "int")
    ok = And(r >= 0, r < b, b > 0)
    if ok is True or not isinstance(ok, bool) and eng.valid(ok):
        return mk(q, "int")
    return None


def mod(a, b):
    nonzero_or_raise(b)
    return a - num(floordiv(a, b)) * b


POW = z3.Function("rpow", z3.RealSort(), z3.RealSort(), z3.RealSort())


@axiom("rpow")
def _pow_ax(t):
    b, e = t.arg(0), t.arg(1)
    return [z3.Implies(b > 0, t > 0), z3.Implies(z3.And(b > 0, e == 0), t == 1)]


@pair_axiom("rpow")
def _pow_mono(t, u):
    """a base above 1 is strictly increasing in the exponent."""
    if not t.arg(0).eq(u.arg(0)):
        return []
    b = t.arg(0)
    return [z3.Implies(b > 1, z3.And((t.arg(1) < u.arg(1)) == (t < u), (t.arg(1) == u.arg(1)) == (t == u)))]


def power(a, b):
    a, b = num(a), num(b)
    if isinstance(a, SComplex):
        c = b.const()
        if c == 2:
            return a * a
        raise Unsupported("complex power")
    cb = b.const()
    if cb is not None and cb.denominator == 1 and abs(cb) <= 64:
        n = int(cb)
        r = mk(p_const(1), "int")
        r = num(1)
        x = a
        for _ in range(abs(n)):
            r = num(r * x)
        if n < 0:
            return 1 / r
        return mk(r.p, r.kind, a.nan)
    if cb is not None and cb == Fraction(1, 2):
        return sqrt(a)
    ca = a.const()
    if ca is not None and ca > 0:
        # constant base, symbolic exponent: split off the constant part of the exponent
        ce = b.p.get((), Fraction(0))
        w = ce.__floor__()
        rest = {m: c for m, c in b.p.items() if m != ()}
        fr = ce - w
        if fr:
            rest[()] = fr
        coef = ca ** w
        if not rest:
            return mk(p_const(coef), jk(a, b))
        t = POW(_numz(ca, "real"), p_emit(rest, "real"))
        eng.keep.append(t)
        return SNum(p_scale(p_atom(t), coef), "real" if not (a.kind == "int" and b.kind == "int") else "real")
    t = POW(rz(a), rz(b))
    eng.keep.append(t)
    return SNum(p_atom(t), "real")


SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())


@axiom("sqrt")
def _sqrt_ax(t):
    x = t.arg(0)
    return [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x))]


def sqrt(a):
    a = num(a)
    c = a.const()
    if c is not None and c >= 0:
        rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if rn * rn == c.numerator and rd * rd == c.denominator:
            return const(Fraction(rn, rd))
    t = SQRT(rz(a))
    eng.keep.append(t)
    return SNum(p_atom(t), "real", a.nan)


def floor(x):
    x = num(x)
    r = mk(num_floor_poly(x.p), "int")
    return r


def ceil(x):
    return -floor(-num(x))


def trunc(x):
    x = num(x)
    if p_is_intform(x.p):
        return mk(x.p, "int")
    c = x.const()
    if c is not None:
        return int(c)
    if eng.valid(bz(x >= 0)):
        return floor(x)
    return Ite(x >= 0, floor(x), ceil(x))


def round_half_even(x):
    x = num(x)
    if p_is_intform(x.p):
        return mk(x.p, "int")
    c = x.const()
    if c is not None:
        return round(c)
    f = num(floor(x))
    d = x - f
    half = const(Fraction(1, 2))
    even = (f % 2) == 0
    return Ite(Or(d < half, And(d == half, even)), f, f + 1)


def smin(a, b):
    return Ite(a <= b, a, b)


def smax(a, b):
    return Ite(a >= b, a, b)


def sint(base):
    return SNum.atom(eng.fresh(base, z3.IntSort()), "int")


def sreal(base):
    return SNum.atom(eng.fresh(base, z3.RealSort()), "real")


def sbool(base):
    return SBool(eng.fresh(base, z3.BoolSort()))


# -------------------------------------------------------------------- complex
class SComplex:
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = num(re), num(im)

    def _o(self, o):
        o = num(o, True)
        return None if o is None else to_complex(o)

    def __add__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else SComplex(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __sub__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else SComplex(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else o - self

    def __mul__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return SComplex(self.re * o.re - num(self.im * o.im), self.re * o.im + num(self.im * o.re))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = num(o, True)
        if o is None:
            return NotImplemented
        if isinstance(o, SNum):
            return SComplex(self.re / o, self.im / o)
        d = num(o.re * o.re + num(o.im * o.im))
        n = self * o.conjugate()
        return SComplex(SNum(p_mul(n.re.p, p_inv(d.p)), "real"), SNum(p_mul(n.im.p, p_inv(d.p)), "real"))

    def __rtruediv__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else o / self

    def __neg__(self):
        return SComplex(-self.re, -self.im)

    def __pow__(self, o):
        return power(self, o)

    def __abs__(self):
        return sqrt(self.re * self.re + num(self.im * self.im))

    def conjugate(self):
        return SComplex(self.re, -self.im)

    @property
    def real(self):
        return mk(self.re.p, "real")

    @property
    def imag(self):
        return mk(self.im.p, "real")

    def __eq__(self, o):
        o = self._o(o)
        if o is None:
            return False
        return And(self.re == o.re, self.im == o.im)

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        raise Unsupported("hash of symbolic complex")

    def __repr__(self):
        return f"SComplex({self.re!r}, {self.im!r})"

    def astype(self, dt):
        from .arrays import cast_scalar
        return cast_scalar(self, dt)


def to_complex(x):
    if isinstance(x, SComplex):
        return x
    x = num(x)
    if isinstance(x, SComplex):
        return x
    return SComplex(x, num(0))


# -------------------------------------------------------------------- strings
_codes = {}
_texts = []


def lit_code(s):
    c = _codes.get(s)
    if c is None:
        c = len(_texts)
        _codes[s] = c
        _texts.append(s)
    return c


def code(x):
    if isinstance(x, SStr):
        return x.z
    if isinstance(x, str):
        return z3.IntVal(lit_code(x))
    raise Unsupported(f"not a string: {type(x)}")


def strfn(name, *args):
    """Uninterpreted string-valued function; args: strings, numbers, bools."""
    zs, sorts = [], []
    for a in args:
        if isinstance(a, (str, SStr)):
            zs.append(code(a)); sorts.append(z3.IntSort())
        elif isinstance(a, (bool, SBool)):
            zs.append(bz(a)); sorts.append(z3.BoolSort())
        elif isinstance(a, (int, float, Fraction, SNum)):
            zs.append(rz(a)); sorts.append(z3.RealSort())
        elif z3.is_expr(a):
            zs.append(a); sorts.append(a.sort())
        else:
            raise Unsupported(f"string function argument {type(a)}")
    n = name + "/" + "".join("i" if s == z3.IntSort() else "b" if s == z3.BoolSort() else "r" for s in sorts)
    if not zs:
        return SStr(z3.Int(n))
    return SStr(z3.Function(n, *sorts, z3.IntSort())(*zs))


CONTAINS = z3.Function("contains", z3.IntSort(), z3.IntSort(), z3.BoolSort())


def text(s):
    """a literal as a string with methods that accept unknown strings."""
    return SStr(code(s), (s,))


class SStr:
    """A symbolic string: an integer code; equal codes iff equal strings."""
    __slots__ = ("z", "parts")

    def __init__(self, z, parts=None):
        self.z = z
        self.parts = parts

    def __eq__(self, o):
        if isinstance(o, (str, SStr)):
            return mkbool(self.z == code(o))
        return False

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        raise Unsupported("hash of symbolic string")

    def __bool__(self):
        return bool(self != "")

    def __add__(self, o):
        return str_concat([self, o])

    def __radd__(self, o):
        return str_concat([o, self])

    def __len__(self):
        raise Unsupported("len of symbolic string")

    def _lt(self, o):
        return STRLT(self.z, code(o))

    def __lt__(self, o):
        return SBool(STRLT(self.z, code(o)))

    def __gt__(self, o):
        return SBool(STRLT(code(o), self.z))

    def __le__(self, o):
        return Or(self == o, self < o)

    def __ge__(self, o):
        return Or(self == o, self > o)

    def __repr__(self):
        return f"SStr({self.z})"

    def __str__(self):
        return f"SStr({self.z})"

    def __format__(self, spec):
        return f"SStr({self.z})"

    def lower(self):
        return strfn("lower", self)

    def upper(self):
        return strfn("upper", self)

    def strip(self, *a):
        return strfn("strip" + repr(a), self)

    def lstrip(self, *a):
        return strfn("lstrip" + repr(a), self)

    def rstrip(self, *a):
        return strfn("rstrip" + repr(a), self)

    def replace(self, a, b):
        if self.parts and isinstance(a, str) and a:
            return self.replace_parts(a, b)
        return strfn("replace", self, a, b)

    def replace_parts(self, a, b):
        """in the literal parts; the others must be known not to contain the first character."""
        out = []
        for j, p in enumerate(self.parts):
            if isinstance(p, str):
                if j + 1 < len(self.parts) and any(p.endswith(a[:m]) for m in range(1, len(a))):
                    raise Unsupported("replacement across parts of a string")
                for m, q in enumerate(p.split(a)):
                    out += [b, q] if m else [q]
            elif eng.valid(Not(mkbool(CONTAINS(p.z, code(a[0]))))):
                out.append(p)
            else:
                raise Unsupported("replacement in an unknown string")
        r = str_concat(out)
        return text(r) if isinstance(r, str) else r

    def split(self, *a):
        return SplitList(self, a)

    def join(self, items):
        return strfn("join", self)

    def startswith(self, x):
        return mkbool(z3.Function("startswith", z3.IntSort(), z3.IntSort(), z3.BoolSort())(self.z, code(x)))

    def endswith(self, x):
        return mkbool(z3.Function("endswith", z3.IntSort(), z3.IntSort(), z3.BoolSort())(self.z, code(x)))

    def __contains__(self, x):
        return bool(mkbool(CONTAINS(self.z, code(x))))


class SplitList:
    """line.split(sep): element access is an uninterpreted function of line, sep, index."""
    def __init__(self, s, a):
        self.s, self.a = s, a

    def __getitem__(self, i):
        return strfn("split" + repr(self.a), self.s, num(i))


STRLT = z3.Function("str_lt", z3.IntSort(), z3.IntSort(), z3.BoolSort())


def str_concat(parts):
    flat = []
    for p in parts:
        if isinstance(p, SStr) and p.parts:
            flat.extend(p.parts)
        else:
            flat.append(p)
    merged = []
    for p in flat:
        if isinstance(p, str) and merged and isinstance(merged[-1], str):
            merged[-1] += p
        elif isinstance(p, str) and p == "":
            continue
        else:
            merged.append(p)
    if not merged:
        return ""
    if len(merged) == 1:
        return merged[0]
    for p in merged:
        if not isinstance(p, (str, SStr)):
            raise Unsupported(f"string concatenation with {type(p)}")
    tmpl = "concat[" + "|".join(p.replace("%", "%%").replace("|", "%v") if isinstance(p, str) else "%s" for p in merged) + "]"
    r = strfn(tmpl, *[p for p in merged if isinstance(p, SStr)])
    r.parts = tuple(merged)
    return r


def sstr(base):
    return SStr(eng.fresh(base, z3.IntSort()))


eng.lazy = False
