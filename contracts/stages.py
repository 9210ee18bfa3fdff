"""Stages of a pipeline as functions about which only this is known: the result is
determined by the stage and its arguments."""
import inspect
from objs import *
from pyvc.spec import ident

I = z3.IntSort()
SAME = {}            # objects passed as they are


def code_of(v):
    """a term standing for the value (equal values have equal terms)."""
    if v is None:
        return z3.IntVal(-1)
    if isinstance(v, V.Opaque):
        return v.z
    if isinstance(v, times.Instant):
        return v.t.zr
    if isinstance(v, fs.Path):
        return v.code
    if isinstance(v, (str, SStr)):
        return N.code(v)
    if isinstance(v, (bool, SBool)):
        return N.bz(v)
    if N.isnum(v):
        return num(v).zr
    if isinstance(v, Proc):
        return iz(v.id)
    if isinstance(v, tuple):
        v = PList(list(v))
    if isinstance(v, PList) and v.concrete() is not None:
        cs = [code_of(x) for x in v.concrete()]
        return z3.Function("list%d" % len(cs), *[c.sort() for c in cs], I)(*cs)
    if isinstance(v, dict) and not v:
        return z3.IntVal(-2)
    if isinstance(v, PObject):
        return z3.IntVal(-1000 - SAME.setdefault(ident(v), len(SAME)))
    raise Unsupported(f"stage called with a {type(v).__name__}")


class Kind:
    """what is known of a stage's results: attributes, and an invariant for loops."""
    def __init__(self, name, attrs=None, invariant=None):
        self.name, self.attrs, self.invariant = name, attrs or {}, invariant

    def __repr__(self):
        return self.name


class Stage(V.Opaque):
    __slots__ = ()

    def __getattr__(self, a):
        f = self.what.attrs.get(a)
        if f is None:
            raise AttributeError(a)
        return f(self)


def stage(_name, **attrs):
    return Stage(eng.fresh(_name, I), Kind(_name, attrs))


def number(name):
    f = z3.Function(name, I, z3.RealSort())
    return lambda s: SNum.atom(f(s.z), "real")


def time_of(name):
    f = z3.Function(name, I, z3.RealSort())
    return lambda s: times.attodatetime.of(SNum.atom(f(s.z), "real"))


def part(_name, **attrs):
    f = z3.Function(_name, I, I)
    k = Kind(_name, attrs)
    return lambda s: Stage(f(s.z), k)


ORIGINAL = {}


def method(cls, name, stub):
    """instances of the class meet this contract of the method; returns a stand-in class with the real signature."""
    real = ORIGINAL.setdefault((cls, name), cls.__dict__.get(name, getattr(cls, name)))
    setattr(cls, name, stub)
    return type(cls.__name__, (), {name: real})


def apply(name, kind, args):
    """the value of stage `name` at the arguments."""
    cs = [code_of(a) for a in args]
    f = z3.Function(name + "/" + "".join(str(c.sort())[0] for c in cs), *[c.sort() for c in cs], I)
    return Stage(f(*cs), kind)


def bound(cls, method, a, k):
    b = inspect.signature(getattr(cls, method)).bind(None, *a, **k)
    b.apply_defaults()
    return list(b.arguments.values())[1:]


class Proc:
    """an arbitrary process of a class: run is a function of its arguments."""
    _cellvalue = False
    _stands_for = lambda self: self.cls

    def __init__(self, cls, tag, kind, id=0, fails=None, after=None, result=None):
        self.__dict__.update(cls=cls, tag=tag, kind=kind, id=id, fails=fails, after=after, result=result)
        self.name = SStr(z3.Function("procname_" + tag, I, I)(iz(id)))

    def __eq__(self, o):
        return isinstance(o, Proc) and (self.cls, self.tag) == (o.cls, o.tag) and num(self.id) == num(o.id)
    __hash__ = None

    def args(self, *a, **k):
        return [self] + bound(self.cls, "run", a, k)

    def value(self, *a, **k):
        return apply(self.tag, self.kind, self.args(*a, **k))

    def run(self, *a, **k):
        args = self.args(*a, **k)
        if self.fails is not None:
            self.fails(self, args)
        if self.result is not None:
            return self.result(self, args)
        r = apply(self.tag, self.kind, args)
        if self.after is not None:
            self.after(self, args, r)
        return r


V.SUBST[Proc] = lambda v, k, i: Proc(v.cls, v.tag, v.kind, V.subst(v.id, k, i), v.fails, v.after, v.result)

TIME = {"metadata": part("metadata", fs=number("fs_of"), first_time=time_of("first_of"), last_time=time_of("last_of"))}
DEC = {"metadata": part("metadata", n_levels=number("n_levels_of"), fs=part("fs_list_of"))}
TF = {"name": lambda s: SStr(z3.Function("tf_name", I, I)(s.z)), "variation": lambda s: SStr(z3.Function("tf_variation", I, I)(s.z))}


def chain(name, n, cls, tag, start):
    """n processes run one after the other from `start`: the processes and the results."""
    after = z3.Function(eng.name(name + "_after"), I, I)
    kind = Kind(name, start.what.attrs)
    kind.invariant = lambda v, k: [N.mkbool(v.z == after(iz(k)))]
    x0 = Stage(start.z, kind)
    eng.assume(N.mkbool(after(z3.IntVal(0)) == x0.z))

    def step(p, args, r):
        eng.assume(N.mkbool(z3.Implies(args[1].z == after(iz(p.id)), r.z == after(iz(p.id) + 1))))
    procs = PList.sym(n, lambda i: Proc(cls, tag, kind, i, after=step))
    return procs, x0, lambda k: Stage(after(iz(k)), kind)
