"""Small libraries: logging, plotting, progress (no effect), math, fractions, json, yaml."""
import types as _types
from fractions import Fraction
import z3
from . import reg, Mod
from ..core import eng, Unsupported, model_exc
from .. import num as N
from ..num import SNum, SBool, SStr, num
from .. import values as V
from ..values import PList, PDict, PObject
from .. import arrays as A


class Dummy:
    """An object every use of which does nothing."""
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Dummy()

    def __call__(self, *a, **k):
        return Dummy()

    def __getitem__(self, i):
        return Dummy()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Logger:
    def __getattr__(self, n):
        return lambda *a, **k: None


class Figure(Dummy):
    pass


class _DummyMod(Mod):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Figure


reg("loguru", logger=Logger())
for nm in ("plotly", "plotly.graph_objects", "plotly.express", "plotly.subplots"):
    m = _DummyMod(nm)
    from . import REG
    REG[nm] = m
    if "." in nm:
        setattr(REG["plotly"], nm.split(".")[1], m)
REG["plotly.subplots"].make_subplots = Dummy()
reg("tqdm", tqdm=lambda x, *a, **k: x)
reg("prettyprinter", cpprint=lambda *a, **k: None)
reg("warnings", warn=lambda *a, **k: None, simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None,
    catch_warnings=Dummy)


def _ispow(x):
    return None


def m_floor(x):
    return N.floor(x.item() if isinstance(x, A.NDArray) else x)


def m_ceil(x):
    return N.ceil(x.item() if isinstance(x, A.NDArray) else x)


def gcd(a, b):
    import math
    if isinstance(a, int) and isinstance(b, int):
        return math.gcd(a, b)
    raise Unsupported("gcd")


from . import numpy_ as NP
reg("math", floor=m_floor, ceil=m_ceil, sqrt=lambda x: N.sqrt(x), pow=lambda a, b: N.power(num(a), num(b)), gcd=gcd, pi=NP.PI,
    trunc=lambda x: N.trunc(x), log=NP.rfun("log"), log2=NP.rfun("log2"), log10=NP.rfun("log10"), exp=NP.EXP, sin=NP.SIN, cos=NP.COS,
    isnan=lambda x: NP.isnan_s(x), fabs=lambda x: abs(num(x)), modf=lambda x: (num(x) - N.trunc(x), N.trunc(x)),
    isclose=lambda *a, **k: (_ for _ in ()).throw(Unsupported("isclose")))


class FractionS:
    """fractions.Fraction of a real: numerator/denominator coprime integers whose quotient is the value."""
    def __init__(self, a, b=1):
        self.v = num(a) / num(b)

    def limit_denominator(self, m=1000000):
        r = FractionS.__new__(FractionS)
        f = z3.Function("limit_denominator", z3.RealSort(), z3.IntSort(), z3.RealSort())
        r.v = SNum.atom(f(N.rz(self.v), N.iz(m)), "real")
        return r

    @property
    def numerator(self):
        n, d = self._nd()
        return n

    @property
    def denominator(self):
        return self._nd()[1]

    def _nd(self):
        fn = z3.Function("fr_num", z3.RealSort(), z3.IntSort())(N.rz(self.v))
        fd = z3.Function("fr_den", z3.RealSort(), z3.IntSort())(N.rz(self.v))
        n, d = SNum.atom(fn, "int"), SNum.atom(fd, "int")
        eng.assume(d > 0)
        eng.assume(num(n) == self.v * d)
        return n, d

    def as_integer_ratio(self):
        return self._nd()


reg("fractions", Fraction=FractionS)


# ------------------------------------------------------------------ json text
class JsonText(str):
    """Text of a JSON document; the document it denotes is kept alongside."""
    tree = None

    def __new__(cls, tree):
        s = str.__new__(cls, "<json>")
        s.tree = tree
        return s


def json_loads(s):
    if isinstance(s, JsonText):
        return copy_tree(s.tree)
    raise Unsupported("json.loads of unknown text")


def copy_tree(t):
    if isinstance(t, PDict):
        return map_dict(t, copy_tree)
    if isinstance(t, (PList, tuple)):
        return map_list(t if isinstance(t, PList) else PList(t), copy_tree)
    return t


def map_list(l, f):
    r = PList()
    cs = []
    for c in l.chunks:
        if c[0] == "c":
            cs.append(("c", tuple(f(x) for x in c[1])))
        else:
            cs.append(("s", c[1], lambda i, g=c[2]: f(g(i))))
    r.chunks = tuple(cs)
    return r


def map_dict(d, f, kf=lambda k: k):
    r = PDict()
    ls = []
    for l in d.layers:
        if l[0] == "i":
            ls.append(("i", kf(l[1]), f(l[2])))
        else:
            fam = l[1]
            val = lambda i, fam=fam: f(fam.valfn(i))
            ls.append(("f", fam.revalued(val) if kf.__name__ == "<lambda>" and kf(1) == 1 else V.Family(fam.n, lambda i, fam=fam: kf(fam.keyfn(i)), val)))
    r.layers = tuple(ls)
    return r


def json_dumps(x, *a, **k):
    return JsonText(copy_tree(x))


def json_load(f, *a, **k):
    return json_loads(f.read())


def json_dump(x, f, *a, **k):
    f.write(json_dumps(x))


reg("json", loads=json_loads, dumps=json_dumps, load=json_load, dump=json_dump)
reg("yaml", dump=lambda *a, **k: N.sstr("yaml"))


class PackageNotFoundError(ImportError):
    pass


reg("importlib.metadata", version=lambda n: "1.0.0", PackageNotFoundError=PackageNotFoundError)
reg("types")
REG["types"].__dict__.update({k: getattr(_types, k) for k in ("SimpleNamespace", "FunctionType", "ModuleType", "MethodType", "LambdaType", "BuiltinFunctionType")})
reg("lttbc", downsample=Dummy())
