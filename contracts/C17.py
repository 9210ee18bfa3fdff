from objs import *
import C11
import C13 as P13
import C16 as P16
import C18 as P18

CONTRACTS[:] = [c for c in CONTRACTS if c.prop == "C17"]
S = lambda: mod("spectra")
PER = ["resistics.common.ResisticsProcess._get_record", "resistics.common.get_record", "resistics.common.History.add_record"]
KEPT = FIELDS_POS + ("system", "serial", "first_time", "last_time", "n_chans")


def frame(p, call, inp, same_levels=False):
    """the input as it was; its history and one record; its channels, position, times and channel metadata."""
    a = inp.metadata
    old, nrec, nc = PList(a.history.records), a.history.records.n, a.n_chans
    chans = PList(a.chans)
    m = mark()
    o = attempt(call)
    unchanged(m, "the input and the other arguments are not modified")
    if not o.ok:
        cover("refused")
        return None
    cover("succeeds")
    b = o.value.metadata
    recs = b.history.records
    ensure(num(recs.n) == num(nrec) + 1, "exactly one more record")
    ensure_forall(nrec, lambda i: ensure_same(PList(recs).get(i), old.get(i), "earlier record"), "earlier records")
    ensure(PList(recs).get(nrec).creator["name"] == p.name, "new record names the process")
    for k in KEPT:
        ensure(V.scalar_eq(getattr(b, k), getattr(a, k)), f"{k} of the input")
    ensure_list(b.chans, nc, lambda i: chans.get(i), "channels of the input")
    ensure_same(b.chans_metadata, a.chans_metadata, "channel metadata of the input")
    if same_levels:
        ensure_same(b.levels_metadata, a.levels_metadata, "level metadata of the input")
    return o


def decimate(resample):
    R, p, params, CH, nl, ms, td = C11.levels(resample)
    require(R.n(CH(1)) >= ms)
    frame(p, lambda: p.run(params, td), td)


D = "resistics.decimate.Decimator."
contract("C17", "Decimator, resampling", [D + f for f in ("run", "_resample", "_get_metadata")] + PER, budget=120)(lambda: decimate(True))
contract("C17", "Decimator, decimating", [D + f for f in ("run", "_decimate", "_get_metadata")] + PER, budget=120)(lambda: decimate(False))


def window(make):
    W = mod("window")
    dd = decimated_data()
    md = dd.metadata
    lm = PList(md.levels_metadata)
    ref = instant("ref")
    tabs = P13.Tables()
    wp, wsize, ol, mn = P13.params(nat("n_par"))
    p, wsize, ol = make(md.n_levels, lm, wp, wsize, ol)
    require(num(tabs.of(ref, lm.get(0), wsize(0), ol(0))[0]) >= mn)
    frame(p, lambda: p.run(ref, wp, dd), dd)


W = "resistics.window.Windower"


@contract("C17", "Windower", [W + "." + f for f in ("run", "_get_level_data", "_get_level_metadata", "_get_metadata")] + PER)
def windower():
    def make(nl, lm, wp, ws, ol):
        require(wp.n_levels >= nl)
        return mod("window").Windower(), ws, ol
    window(make)


@contract("C17", "WindowerTarget", [W + "Target.run"] + [W + "." + f for f in ("_get_level_data", "_get_level_metadata", "_get_metadata")] + PER)
def target():
    tg, ms, pr, p = P13.target_params()
    size = P13.sizes_met()

    def make(nl, lm, wp, ws, ol):
        ol = lambda l: N.floor(pr * size(lm.get(l).n_samples))
        require_forall(nl, lambda l: ol(l) >= 1)
        return p, lambda l: size(lm.get(l).n_samples), ol
    window(make)


def fourier(win, det):
    wd = windowed_data()
    p = S().FourierTransform(win_fnc=win, detrend=det)
    ensure(frame(p, lambda: p.run(wd), wd) is not None, "transformed")


F = "resistics.spectra.FourierTransform."
for det in ("linear", "constant", None):
    contract("C17", f"FourierTransform, detrend {det}", [F + f for f in ("run", "_get_level_data", "_get_window", "_get_level_metadata", "_get_metadata")] + PER)(
        lambda det=det: fourier(("kaiser", 14), det))


@contract("C17", "EvaluationFreqs", ["resistics.spectra.EvaluationFreqs." + f for f in ("run", "_get_level_data", "_get_level_metadata", "_get_metadata")] + PER)
def evals():
    sd = spectra_data(increasing=True)
    nlp, per = nat("n_levels_params", 1), nat("per_level", 1)
    require(nlp >= sd.metadata.n_levels)
    dp, ev = P16.dec_params(nlp, per)
    p = S().EvaluationFreqs()
    ensure(frame(p, lambda: p.run(dp, sd), sd) is not None, "reduced")


def smoother(p):
    sd = spectra_data()
    o = frame(p, lambda: p.run(sd), sd, same_levels=True)
    ensure(o is not None, "smoothed")
    if o is None:
        return
    out = o.value
    lm = PList(sd.metadata.levels_metadata)
    ensure(out.data.n == sd.metadata.n_levels, "data of every level and no other")

    def at():
        l = nat("l")
        require(l < sd.metadata.n_levels)
        x, y = sd.data.lookup(l), out.data.lookup(l)
        ensure(y is not V.MISSING, "data of every level")
        if y is not V.MISSING:
            ensure(And(len(x.shape) == len(y.shape), *[num(a) == b for a, b in zip(x.shape, y.shape)]), "shape of the level")
    branches(at)


@contract("C17", "uniform smoother", ["resistics.spectra.SpectraSmootherUniform." + f for f in ("run", "_get_smooth_length")] + PER)
def uniform():
    prop = pos_real("length_proportion")
    smoother(S().SpectraSmootherUniform(length_proportion=prop))


@contract("C17", "Gaussian smoother", ["resistics.spectra.SpectraSmootherGaussian.run"] + PER)
def gaussian():
    smoother(S().SpectraSmootherGaussian(sigma=pos_real("sigma")))


def calibrate(own):
    sd, C, p, asked, has, which = P18.setup(own)
    ensure(frame(p, lambda: p.run(fs.Path.mk(sstr("dir"), ()), sd), sd, same_levels=True) is not None, "calibrated")


contract("C17", "SensorCalibrator, all channels", P18.DOC + PER, budget=120)(lambda: calibrate(False))
contract("C17", "SensorCalibrator, channels asked for", P18.DOC + PER, budget=120)(lambda: calibrate(True))
