from common import *
from gen import *
from resistics import common as CM, time as T, decimate as D, window as W, spectra as P, calibrate as Cal, gather as G, regression as R, transfunc as X

# class, parameters that may be given (values are legal)
KNOWN = [
    (T.Subsection, dict(from_time=["2021-01-01 00:00:00"], to_time=["2021-01-02 00:00:00"]), ("from_time", "to_time")),
    (T.InterpolateNans, {}, ()), (T.RemoveMean, {}, ()), (T.Add, dict(add=[5.0, {"Ex": 2.0}]), ("add",)), (T.Multiply, dict(multiplier=[5.0, {"Ex": 2.0}]), ("multiplier",)),
    (T.LowPass, dict(cutoff=[3.0], order=[2, 10]), ("cutoff",)), (T.HighPass, dict(cutoff=[3.0], order=[2]), ("cutoff",)),
    (T.BandPass, dict(cutoff_low=[1.0], cutoff_high=[3.0], order=[4]), ("cutoff_low", "cutoff_high")), (T.Notch, dict(notch=[50.0], band=[None, 2.0], order=[3]), ("notch",)),
    (T.Resample, dict(new_fs=[10.0]), ("new_fs",)), (T.Decimate, dict(factor=[2, 16], max_single_factor=[3, 5]), ("factor",)), (T.ShiftTimestamps, dict(shift=[0.25]), ("shift",)),
    (T.TimeReaderAscii, dict(extension=[".txt", ".dat"], n_header=[3], apply_scalings=[False]), ()), (T.TimeReaderNumpy, dict(apply_scalings=[False, True]), ()),
    (T.TimeWriterNumpy, dict(overwrite=[True, False]), ()), (D.DecimationSetup, dict(n_levels=[3, 9], per_level=[4], min_samples=[100], div_factor=[3]), ()),
    (D.Decimator, dict(resample=[True], max_single_factor=[4]), ()), (W.WindowSetup, dict(min_size=[64], min_olap=[16], win_factor=[2], olap_proportion=[0.5], min_n_wins=[7]), ()),
    (W.Windower, {}, ()), (W.WindowerTarget, dict(target=[100], min_size=[32], olap_proportion=[0.5]), ()), (P.FourierTransform, dict(win_fnc=["hann", ("kaiser", 5.0)], detrend=["constant", None], workers=[1]), ()),
    (P.EvaluationFreqs, {}, ()), (P.SpectraSmootherUniform, dict(length_proportion=[0.2]), ()), (P.SpectraSmootherGaussian, dict(sigma=[2.0]), ()),
    (Cal.SensorCalibrationJSON, dict(extension=[".js"], file_str=["x$serial"]), ()), (Cal.SensorCalibrationTXT, dict(file_str=["x$serial"]), ()),
    (Cal.SensorCalibrator, dict(chans=[["Ex"], None], readers=[[{"name": "SensorCalibrationJSON"}, {"name": "SensorCalibrationTXT", "file_str": "q"}]]), ("readers",)),
    (G.Selector, {}, ()), (G.ProjectGather, {}, ()), (G.QuickGather, {}, ()), (R.RegressionPreparerSpectra, {}, ()), (R.RegressionPreparerGathered, {}, ()),
    (R.SolverScikitOLS, dict(n_jobs=[1], fit_intercept=[True]), ()), (R.SolverScikitHuber, dict(epsilon=[2.0]), ()), (R.SolverScikitTheilSen, dict(n_subsamples=[0.5], max_subpopulation=[50]), ()),
    (R.SolverScikitRANSAC, dict(max_trials=[5]), ()), (R.SolverScikitWLS, dict(n_iter=[3]), ()),
]
BASES = [CM.ResisticsProcess]


def plain(v):
    if isinstance(v, CM.ResisticsModel):
        return plain(v.dict())
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


@scenario(weight=4)
def processes(rng):
    cls, opts, need = rng.choice(KNOWN)
    given = {k: rng.choice(v) for k, v in opts.items() if k in need or rng.random() < 0.5}
    d = dict(name=cls.__name__, **given)
    note(d=d)
    base = rng.choice([CM.ResisticsProcess, cls] + [c for c in cls.__mro__ if isinstance(c, type) and issubclass(c, CM.ResisticsProcess)])
    before = freeze(d)
    for turn in range(2):
        p = base.validate(d)
        same(freeze(d), before, "the caller's dictionary")
        check(type(p) is cls, f"instance of {cls.__name__}, got {type(p).__name__}")
        same(p.name, cls.__name__, "name")
        ref = cls(**given)
        for k in cls.__fields__:
            if k in given:
                if k != "readers" and k != "from_time" and k != "to_time":
                    same(plain(getattr(p, k)), plain(given[k]), f"parameter {k}")
            same(plain(getattr(p, k)), plain(getattr(ref, k)), f"field {k}")
        if "readers" in given:
            same([type(r).__name__ for r in p.readers], [r["name"] for r in given["readers"]], "readers")
    check(base.validate(p) is p, "an instance is returned as it is")
    if cls not in (T.Subsection,):
        q = CM.ResisticsProcess.validate(p.parameters())
        check(type(q) is cls, "rebuilt from its parameters")
        same(plain(q.parameters()), plain(p.parameters()), "rebuilt from its parameters")


@scenario()
def in_models(rng):
    """as fields of a configuration."""
    from resistics.config import Configuration
    tp = [dict(name=c.__name__, **{k: rng.choice(v) for k, v in o.items() if k in need or rng.random() < 0.5}) for c, o, need in rng.sample(KNOWN[1:12], rng.randrange(0, 4))]
    tfd = rng.choice([{"name": "ImpedanceTensor"}, {"name": "Tipper", "variation": "q"}, {"name": "TransferFunction", "out_chans": ["Ex"], "in_chans": ["Hx"]}])
    d = dict(name="c", time_processors=tp, tf=tfd, solver={"name": "SolverScikitWLS", "n_iter": 7})
    note(d=d)
    before = freeze(d)
    for turn in range(2):
        c = Configuration(**d)
        same(freeze(d), before, "the caller's dictionary")
        same([type(x).__name__ for x in c.time_processors], [x["name"] for x in tp], "time processors")
        for x, y in zip(c.time_processors, tp):
            for k, v in y.items():
                same(plain(getattr(x, k)), plain(v), f"{y['name']} {k}")
        same([type(c.tf).__name__, c.tf.name], [tfd["name"]] * 2, "transfer function")
        same([type(c.solver).__name__, c.solver.n_iter], ["SolverScikitWLS", 7], "solver")
    e = Configuration.parse_raw(c.json())
    same([type(x).__name__ for x in e.time_processors], [x["name"] for x in tp], "time processors from json")
    same([type(e.tf), e.tf], [type(c.tf), c.tf], "transfer function from json")
    d1, d2 = Configuration(name="one"), Configuration(name="two")
    same(plain(d1.time_processors), plain(d2.time_processors), "defaults")


@scenario(weight=2)
def transfer_functions(rng):
    n = rng.choice(["ImpedanceTensor", "Tipper", "TransferFunction"])
    d = {"name": n}
    ch = lambda: rng.sample(["Ex", "Ey", "Hx", "Hy", "Hz", "q"], rng.randrange(1, 4))
    for k in ("out_chans", "in_chans", "cross_chans"):
        if (n == "TransferFunction" and k != "cross_chans") or rng.random() < 0.4:
            d[k] = ch()
    if rng.random() < 0.4:
        d["variation"] = rng.choice(["abc", "x" * 16])
    note(d=d)
    before = freeze(d)
    cls = getattr(X, n)
    for turn in range(2):
        t = X.TransferFunction.validate(d)
        same(freeze(d), before, "the caller's dictionary")
        check(type(t) is cls, f"instance of {n}, got {type(t).__name__}")
        o = d.get("out_chans", {"ImpedanceTensor": ["Ex", "Ey"], "Tipper": ["Hz"]}.get(n))
        i = d.get("in_chans", ["Hx", "Hy"])
        c = d.get("cross_chans", i)
        same([t.name, t.out_chans, t.in_chans, t.cross_chans, t.n_out, t.n_in, t.n_cross], [n, o, i, c, len(o), len(i), len(c)], "fields")
        same(t.variation, d.get("variation", "generic" if n == "TransferFunction" else "default"), "variation")
        same([t.n_eqns_per_output(), t.n_regressors()], [len(c), len(i)], "counts")
    check(X.TransferFunction.validate(t) is t, "an instance is returned as it is")


@scenario()
def refusals(rng):
    base = rng.choice([CM.ResisticsProcess, T.TimeProcess, X.TransferFunction])
    for v in (5, "Add", None, ["Add"], [("name", "Add")]):
        refused(f"{v!r}", ValueError, base.validate, v)
    refused("no name", KeyError, base.validate, {"add": 5})
    refused("empty", KeyError, base.validate, {})
    refused("unknown name", ValueError, base.validate, {"name": "NoSuchThing"})
    refused("missing parameters", ValueError, CM.ResisticsProcess.validate, {"name": "LowPass"})
    refused("bad parameters", ValueError, CM.ResisticsProcess.validate, {"name": "LowPass", "cutoff": "abc"})
    refused("too long variation", ValueError, X.TransferFunction.validate, {"name": "Tipper", "variation": "x" * 17})
    note(base=base.__name__)


@scenario(limit=40)
def new_classes(rng):
    """user defined processes and transfer functions."""
    k = rng.randrange(10 ** 6)
    A = type(f"Mine{k}", (T.TimeProcess,), {"__annotations__": {"a": int}, "a": 3})
    B = type(f"Tf{k}", (X.TransferFunction,), {"__annotations__": {"out_chans": list, "in_chans": list}, "out_chans": ["a"], "in_chans": ["b", "c"]})
    note(k=k)
    p = T.TimeProcess.validate({"name": f"Mine{k}", "a": 7})
    check(type(p) is A and p.a == 7, "user defined process")
    t = X.TransferFunction.validate({"name": f"Tf{k}"})
    check(type(t) is B and t.n_in == 2 and t.cross_chans == ["b", "c"], "user defined transfer function")
