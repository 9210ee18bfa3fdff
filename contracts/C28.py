import typing
from objs import *
from pyvc.libs.pydantic_ import Constrained, MISSING

CMN = "resistics.common."
MODULES = ["time", "decimate", "window", "spectra", "calibrate", "gather", "regression", "transfunc"]


def classes(kind):
    for m in MODULES:
        mod(m)
    base = mod("common").ResisticsProcess if kind == "process" else mod("transfunc").TransferFunction
    return base, [v for k, v in base._types.concrete()]


def arbitrary(t, name):
    """an arbitrary legal value of a field type; MISSING where the type is not a plain one."""
    o = typing.get_origin(t)
    if o is typing.Union:
        args = [a for a in typing.get_args(t) if a is not type(None)]
        if type(None) in typing.get_args(t) and decide(sbool(name + "_none")):
            return None
        for a in args[:-1]:
            if decide(sbool(name + "_" + str(args.index(a)))):
                return arbitrary(a, name)
        return arbitrary(args[-1], name)
    if o in (dict, typing.Dict):
        a, b = typing.get_args(t)
        if typing.get_origin(b) is typing.get_origin(typing.Callable[[int], int]):
            v = UserFn("function")
        else:
            v = arbitrary(b, name + "_value")
        return MISSING if v is MISSING or a != str else PDict([(sstr(name + "_key"), v)])
    if o in (list, typing.List):
        a, = typing.get_args(t)
        v = strings(name, nat("n_" + name), distinct=False) if a == str else MISSING
        return v
    if isinstance(t, Constrained):
        v = arbitrary(t.base, name)
        for k, f in (("gt", lambda a, b: a > b), ("ge", lambda a, b: a >= b), ("lt", lambda a, b: a < b), ("le", lambda a, b: a <= b)):
            if t.c.get(k) is not None:
                require(f(v, t.c[k]))
        return v
    for typ, make in ((bool, sbool), (int, sint), (float, sreal), (str, sstr)):
        if t == typ or getattr(t, "__name__", "") == typ.__name__:
            return make(name)
    return MISSING


def readers(cls, k):
    """calibration readers as dictionaries or instances."""
    kind = mod("calibrate").SensorCalibrationJSON if "Sensor" in cls.__name__ else mod("calibrate").InstrumentCalibrationReader
    s = sstr("file_str" if "Sensor" in cls.__name__ else "extension")
    f = "file_str" if "Sensor" in cls.__name__ else "extension"
    return PList([PDict([("name", kind.__name__), (f, s)]), kind(**{f: s})]), PList([kind(**{f: s}), kind(**{f: s})])


def given(cls):
    """any selection of the plain parameters of a class, with arbitrary values."""
    out, expect = {}, {}
    for k, f in cls.__fields__.items():
        if k == "name":
            continue
        v = arbitrary(f.typ, k)
        if k == "readers":
            v, expect[k] = readers(cls, k)
        if v is MISSING:
            continue
        if f.required or decide(sbool("give_" + k)):
            out[k] = v
    return out, expect


def from_dictionary(cls, base):
    p, expect = given(cls)
    d = PDict([("name", cls.__name__)] + list(p.items()))
    call = base if decide(sbool("through the base class")) else cls
    pre = mark()
    for turn in range(2):
        o = attempt(call.validate, d)
        ref = attempt(cls, **p)
        unchanged(pre, "the caller's dictionary is left unchanged")
        if not ref.ok:
            must_fail(o, ValueError, "illegal parameters are refused")
            return
        ensure(o.ok, "a dictionary with the name of a known class is accepted")
        if not o.ok:
            return
        cover("rebuilt")
        ensure(type(o.value) is cls, "instance of exactly the named class")
        ensure_same(o.value.name, cls.__name__, "name")
        for k in cls.__fields__:
            a = getattr(o.value, k)
            if k in p and cls.__fields__[k].typ is not None and k not in ("from_time", "to_time"):
                ensure_same(a, expect.get(k, p[k]), "given parameters are exactly those of the instance")
            elif k not in p and k != "name" and not cls.__fields__[k].always:
                ensure_same(a, cls.__fields__[k].get_default(), "defaults elsewhere")
    pre = mark()
    again = attempt(call.validate, o.value)
    ensure(again.ok and again.value is o.value, "an instance is returned as it is")
    unchanged(pre, "validating an instance changes nothing")


PROC = [CMN + "ResisticsProcess.validate", CMN + "ResisticsProcess.__init_subclass__", CMN + "ResisticsProcess.validate_name"]
TFF = ["resistics.transfunc.TransferFunction.validate", "resistics.transfunc.TransferFunction.validate_cross_chans",
       "resistics.transfunc.TransferFunction.validate_n_out", "resistics.transfunc.TransferFunction.validate_n_in", "resistics.transfunc.TransferFunction.validate_n_cross"]
base, types_ = classes("process")
for cls in types_:
    if cls.__module__.startswith("resistics"):
        contract("C28", "process " + cls.__name__, PROC, budget=60, limit=3000)(lambda cls=cls: from_dictionary(cls, base))
tbase, ttypes = classes("tf")


def transfer_function(cls):
    p = {}
    for k in ("out_chans", "in_chans", "cross_chans"):
        f = cls.__fields__[k]
        if f.required or decide(sbool("give_" + k)):
            p[k] = strings(k, nat("n_" + k), distinct=False)
    if decide(sbool("give_variation")):
        p["variation"] = "abc"
    d = PDict([("name", cls.__name__)] + list(p.items()))
    pre = mark()
    for turn in range(2):
        o = attempt((tbase if cls is tbase or decide(sbool("through the base class")) else cls).validate, d)
        unchanged(pre, "the caller's dictionary is left unchanged")
        ensure(o.ok, "a dictionary with the name of a known transfer function is accepted")
        if not o.ok:
            return
        t = o.value
        cover("rebuilt")
        ensure(type(t) is cls, "instance of exactly the named class")
        ensure_same(t.name, cls.__name__, "name")
        want = dict(p)
        for k in ("out_chans", "in_chans"):
            want.setdefault(k, None if cls.__fields__[k].required else cls.__fields__[k].get_default())
        want.setdefault("cross_chans", want["in_chans"])
        for k in ("out_chans", "in_chans", "cross_chans"):
            ensure_same(getattr(t, k), want[k], "channels are exactly those given, the defaults elsewhere, cross channels the input channels")
        ensure(And(*[num(getattr(t, a)) == PList(want[b]).n for a, b in (("n_out", "out_chans"), ("n_in", "in_chans"), ("n_cross", "cross_chans"))]), "channel counts")
        ensure_same(t.variation, p.get("variation", cls.__fields__["variation"].get_default()), "variation")
        ensure(And(num(t.n_eqns_per_output()) == PList(want["cross_chans"]).n, num(t.n_regressors()) == PList(want["in_chans"]).n), "numbers of equations and regressors")
    again = attempt(tbase.validate, t)
    ensure(again.ok and again.value is t, "an instance is returned as it is")


for cls in [tbase] + ttypes:
    contract("C28", "transfer function " + cls.__name__, TFF, budget=60)(lambda cls=cls: transfer_function(cls))


def refusals(base, known):
    name = sstr("name")
    for c in known:
        require(Not(name == c))
    pre = mark()
    must_fail(attempt(base.validate, PDict([("name", name), ("x", sreal("x"))])), ValueError, "unknown names are refused")
    must_fail(attempt(base.validate, PDict([("x", sreal("y"))])), KeyError, "missing names are refused")
    must_fail(attempt(base.validate, PDict()), KeyError, "missing names are refused")
    for v in (sreal("v"), sint("i"), sstr("s"), None, PList([sstr("t")]), real_array("a", nat("n"))):
        must_fail(attempt(base.validate, v), ValueError, "values of other types are refused")
    unchanged(pre, "refusals change nothing")
    cover("refused")


contract("C28", "refused processes", PROC)(lambda: refusals(base, [c.__name__ for c in types_]))
contract("C28", "refused transfer functions", TFF)(lambda: refusals(tbase, [c.__name__ for c in ttypes] + ["TransferFunction"]))
