"""attotime, datetime and the scalar part of pandas: instants as real seconds."""
from fractions import Fraction
import z3
from . import reg, Mod
from ..core import eng, Unsupported, model_exc, axiom
from .. import num as N
from ..num import SNum, SBool, SStr, num, And, Or, Not, Implies, Ite
from .. import values as V
from .. import arrays as A
from ..arrays import NDArray

NS = Fraction(1, 10 ** 9)
_FIELDS = ("year", "month", "day", "hour", "minute", "second", "microsecond")
STRF, STRP = "strftime", "strptime"


def frac(n, d=1):
    return N.const(Fraction(n, d))


class Instant:
    """t: seconds since the epoch as a real."""
    _cellvalue = True
    _pv_native = True
    is_rs = False

    def __init__(self, t):
        self.t = num(t)

    def key(self):
        return self.t

    def _lens(self):
        return self.t, type(self).of

    def _cmp(self, o, f):
        if isinstance(o, Instant):
            return f(self.t, o.t)
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self.t == o.t if isinstance(o, Instant) else False

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        raise Unsupported("hash of a symbolic instant")

    def __add__(self, o):
        if isinstance(o, Delta):
            return type(self).of(self.t + o.d)
        if isinstance(o, NDArray):
            return A.elementwise(lambda a, b: a + b, (self, o), dtype=A.OBJ)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Delta):
            return type(self).of(self.t - o.d)
        if isinstance(o, Instant):
            return self.delta_cls(self.t - o.t)
        if isinstance(o, NDArray):
            return A.elementwise(lambda a, b: a - b, (self, o), dtype=A.OBJ)
        return NotImplemented

    @classmethod
    def of(cls, t):
        r = cls.__new__(cls)
        r.t = num(t)
        return r

    def _f(self, nm):
        f = z3.Function("cal_" + nm, z3.RealSort(), z3.IntSort())
        # calendar fields depend on the whole second (or microsecond) only
        return SNum.atom(f(N.rz(self.t)), "int")

    year = property(lambda s: s._f("year"))
    month = property(lambda s: s._f("month"))
    day = property(lambda s: s._f("day"))
    hour = property(lambda s: s._f("hour"))
    minute = property(lambda s: s._f("minute"))
    second = property(lambda s: s._f("second"))
    microsecond = property(lambda s: s._f("microsecond"))

    def isoformat(self, *a):
        return SStr(ISO(N.rz(self.t)))

    def strftime(self, fmt):
        return N.strfn("strftime:" + fmt, self.t)

    def pv_str(self, spec=""):
        return N.strfn("str:dt", self.t)

    def __repr__(self):
        return f"{type(self).__name__}({self.t!r})"


ISO = z3.Function("iso", z3.RealSort(), z3.IntSort())


class attodatetime(Instant):
    """attotime.attodatetime: exact instants."""
    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, nanosecond=0, tzinfo=None):
        src = None
        vals = (year, month, day, hour, minute, second, microsecond)
        for nm, v in zip(_FIELDS, vals):
            t = getattr(v, "p", None)
            x = cal_of(v, nm)
            if x is None or src is not None and not z3.eq(x, src):
                src = False
                break
            src = x
        if src is not None and src is not False:
            # rebuilt from the fields of one instant: floor to the microsecond + nanoseconds
            base = SNum.atom(src, "real")
            us = N.floor(base * 10 ** 6)
            self.t = us * frac(1, 10 ** 6) + nanos(nanosecond)
            return
        if all(isinstance(v, int) for v in vals):
            import datetime as D
            d = D.datetime(*vals) - D.datetime(1970, 1, 1)
            self.t = frac(d.days * 86400 + d.seconds) + frac(d.microseconds, 10 ** 6) + nanos(nanosecond)
            return
        raise Unsupported("attodatetime from symbolic calendar fields")

    @property
    def nanosecond(self):
        us = N.floor(self.t * 10 ** 6)
        return SNum((self.t * 10 ** 9 - us * 1000).p, "real")

    @classmethod
    def strptime(cls, s, fmt):
        if isinstance(s, str):
            import datetime as D
            f = fmt.replace("_%o_%q_%v", "")
            try:
                parts = s.split("_")
                base = D.datetime.strptime(parts[0], f)
                if len(parts) != 4:
                    raise ValueError("time data does not match format")
                extra = Fraction(int(parts[1]), 10 ** 12) + Fraction(int(parts[2]), 10 ** 18) + Fraction(int(parts[3]), 10 ** 24)
            except ValueError as e:
                raise model_exc(ValueError(str(e)))
            d = base - D.datetime(1970, 1, 1)
            return cls.of(frac(d.days * 86400 + d.seconds) + frac(d.microseconds, 10 ** 6) + N.const(extra))
        if isinstance(s, SStr):
            t = s.z
            if z3.is_app(t) and t.decl().name() == "strftime:" + fmt + "/r":
                eng.trust("strptime inverts strftime at full resolution (attotime)")
                return cls.of(SNum.atom(t.arg(0), "real"))
            ok = z3.Function("isdt:" + fmt, z3.IntSort(), z3.BoolSort())(t)
            if bool(SBool(ok)):
                return cls.of(SNum.atom(z3.Function("dtof:" + fmt, z3.IntSort(), z3.RealSort())(t), "real"))
            raise model_exc(ValueError("time data does not match format"))
        raise model_exc(TypeError("strptime() argument 1 must be str"))


def nanos(x):
    x = num(x)
    return x * frac(1, 10 ** 9)


def cal_of(v, nm):
    """the z3 instant when v is the calendar field nm of one instant."""
    if isinstance(v, SNum) and len(v.p) == 1:
        (m, c), = v.p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = N._atoms[m[0][0]]
            if z3.is_app(at) and at.decl().name() == "cal_" + nm:
                return at.arg(0)
    return None


class Delta:
    _cellvalue = True
    _pv_native = True

    def __init__(self, d):
        self.d = num(d)

    def _lens(self):
        return self.d, type(self).of

    @classmethod
    def of(cls, d):
        r = cls.__new__(cls)
        r.d = num(d)
        return r

    @property
    def days(self):
        return N.floor(self.d * frac(1, 86400))

    @property
    def seconds(self):
        return N.floor(self.d) - self.days * 86400

    @property
    def microseconds(self):
        return N.floor(self.d * 10 ** 6) - N.floor(self.d) * 10 ** 6

    def total_seconds(self):
        return SNum(self.d.p, "real")

    def total_nanoseconds(self):
        return SNum((self.d * 10 ** 9).p, "real")

    def _cmp(self, o, f):
        return f(self.d, o.d) if isinstance(o, Delta) else NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self.d == o.d if isinstance(o, Delta) else False

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        raise Unsupported("hash of a symbolic delta")

    def __add__(self, o):
        if isinstance(o, Delta):
            return type(self).of(self.d + o.d)
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, Delta):
            return type(self).of(self.d - o.d)
        return NotImplemented

    def __neg__(self):
        return type(self).of(-self.d)

    def __mul__(self, o):
        if N.isnum(o):
            return type(self).of(self.d * num(o))
        if isinstance(o, NDArray):
            return A.elementwise(lambda a, b: a * b, (self, o), dtype=A.OBJ)
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Delta):
            return self.d / o.d
        if N.isnum(o):
            return type(self).of(self.d / num(o))
        return NotImplemented

    def pv_str(self, spec=""):
        return N.strfn("str:td", self.d)

    def __repr__(self):
        return f"{type(self).__name__}({self.d!r})"


class attotimedelta(Delta):
    def __init__(self, days=0, seconds=0, microseconds=0, nanoseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        self.d = num(num(days) * 86400 + num(seconds) + num(microseconds) * frac(1, 10 ** 6) + num(nanoseconds) * frac(1, 10 ** 9)
                     + num(milliseconds) * frac(1, 1000) + num(minutes) * 60 + num(hours) * 3600 + num(weeks) * 604800)

    @property
    def nanoseconds(self):
        return SNum((self.d * 10 ** 9 - N.floor(self.d * 10 ** 6) * 1000).p, "real")


attodatetime.delta_cls = attotimedelta.of


# ------------------------------------------------------------------ datetime
class timedelta(Delta):
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        self.d = attotimedelta(days, seconds, microseconds, 0, milliseconds, minutes, hours, weeks).d


class datetime(Instant):
    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, *a, **k):
        x = attodatetime(*a, **k)
        self.t = x.t

    @classmethod
    def now(cls, tz=None):
        return cls.of(N.sreal("now"))

    utcnow = now

    @classmethod
    def fromisoformat(cls, s):
        return cls.of(iso_time(s))

    @classmethod
    def strptime(cls, s, f):
        return cls.of(attodatetime.strptime(s, f).t)


datetime.delta_cls = timedelta.of


class date:
    pass


def iso_time(s):
    """instant denoted by an ISO string."""
    t = s.z
    if z3.is_app(t) and t.decl().name() == "iso":
        return SNum.atom(t.arg(0), "real")
    raise Unsupported("parse of a symbolic date string")


# -------------------------------------------------------------------- pandas
def to_ns(t):
    """nearest representable pandas instant: whole nanoseconds, exact when already whole
    (pandas truncates further digits)."""
    t = num(t)
    return N.floor(t * 10 ** 9) * N.const(NS)


class Timedelta(timedelta):
    def __init__(self, value=0, unit=None, **kw):
        if isinstance(value, Delta):
            self.d = to_ns(value.d)
            return
        if kw:
            self.d = attotimedelta(**kw).d
            return
        if N.isnum(value):
            u = {None: Fraction(1, 10 ** 9), "ns": Fraction(1, 10 ** 9), "s": Fraction(1), "S": Fraction(1), "ms": Fraction(1, 1000),
                 "us": Fraction(1, 10 ** 6), "m": Fraction(60), "min": Fraction(60), "h": Fraction(3600), "D": Fraction(86400)}[unit]
            # pandas rounds the fraction of the unit to whole nanoseconds
            x = num(value) * N.const(u)
            c = x.const()
            if c is not None:
                self.d = N.const(Fraction(round(c * 10 ** 9), 10 ** 9))
                return
            self.d = num(near_ns(x))
            return
        raise Unsupported("Timedelta()")

    @property
    def nanoseconds(self):
        r = N.floor(self.d * 10 ** 9) - N.floor(self.d * 10 ** 6) * 1000
        return r

    @property
    def value(self):
        return N.floor(self.d * 10 ** 9)


def near_ns(x):
    """some whole number of nanoseconds within one of x, exact when x is whole."""
    x = num(x)
    q = N.floor(x * 10 ** 9)
    f = z3.Function("ns_round", z3.RealSort(), z3.IntSort())
    r = SNum.atom(f(N.rz(x * 10 ** 9)), "int")
    eng.assume(And(q <= r, r <= q + 1, Implies(num(q) == x * 10 ** 9, r == q)))
    return r * N.const(NS)


class Timestamp(datetime):
    def __init__(self, x=None, *a, unit=None, **kw):
        if a or kw:
            self.t = attodatetime(x, *a, **kw).t
        elif isinstance(x, Instant):
            self.t = num(to_ns(x.t)) if not isinstance(x, Timestamp) else x.t
        elif isinstance(x, SStr):
            self.t = num(to_ns(iso_time(x)) if z3.is_app(x.z) and x.z.decl().name() == "iso" else to_ns(parsed(x)))
        elif isinstance(x, str):
            self.t = parse_const(x)
        else:
            raise Unsupported("Timestamp()")

    @property
    def nanosecond(self):
        return N.floor(self.t * 10 ** 9) - N.floor(self.t * 10 ** 6) * 1000

    @property
    def value(self):
        return N.floor(self.t * 10 ** 9)

    def to_pydatetime(self, *a, **k):
        return datetime.of(N.floor(self.t * 10 ** 6) * frac(1, 10 ** 6))

    def round(self, *a):
        raise Unsupported("Timestamp.round")
    floor = ceil = round


Timestamp.delta_cls = Timedelta.of


def parsed(s):
    ok = z3.Function("is_ts", z3.IntSort(), z3.BoolSort())(s.z)
    if bool(SBool(ok)):
        return SNum.atom(z3.Function("ts_of", z3.IntSort(), z3.RealSort())(s.z), "real")
    raise model_exc(ValueError("could not convert string to Timestamp"))


def parse_const(s):
    import datetime as D
    main, _, fr = s.strip().partition(".")
    for f in ("%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S", "%Y-%m-%d", "%Y-%m-%d %H:%M"):
        try:
            d = D.datetime.strptime(main, f) - D.datetime(1970, 1, 1)
            return frac(d.days * 86400 + d.seconds) + (N.const(Fraction(int(fr[:9]), 10 ** len(fr[:9]))) if fr else frac(0))
        except ValueError:
            continue
    raise model_exc(ValueError("could not parse timestamp"))


def to_datetime(x, *a, **k):
    if isinstance(x, (Instant, str, SStr)):
        return Timestamp(x)
    if isinstance(x, NDArray):
        return x
    from ..values import PList
    if isinstance(x, PList):
        return A.elementwise(lambda v: Timestamp(v), (A.asarray(x),), dtype=A.DT64)
    if hasattr(x, "pd_to_datetime"):
        return x.pd_to_datetime()
    raise Unsupported("pd.to_datetime")


def date_range(start=None, end=None, periods=None, freq=None, **k):
    if start is None or periods is None or not isinstance(freq, Delta):
        raise Unsupported("pd.date_range")
    t0, d = Timestamp(start).t, freq.d
    if not V.decide(d > 0):
        raise Unsupported("non-positive date_range frequency")
    return NDArray.make((periods,), A.DT64, lambda i: Timestamp.of(t0 + num(i) * d))


def subst_time(v, k, i):
    r = type(v).__new__(type(v)) if isinstance(v, Instant) else type(v).of(0)
    if isinstance(v, Instant):
        r.t = num(V.subst(v.t, k, i))
    else:
        r.d = num(V.subst(v.d, k, i))
    return r


V.SUBST[Instant] = subst_time
V.SUBST[Delta] = subst_time

reg("attotime", attodatetime=attodatetime, attotimedelta=attotimedelta)
reg("datetime", datetime=datetime, timedelta=timedelta, date=date)
