from common import *
import levels, C13, C16, C18, procs
from gen import *
from resistics import spectra as P, decimate as D, window as W, calibrate as Cal


def frame(name, run, inp, *others):
    before, ob = freeze(inp), [freeze(o) for o in others]
    hist = [r.dict() for r in inp.metadata.history.records]
    out = run()
    same(freeze(inp), before, f"{name}: the input object")
    for o, b in zip(others, ob):
        same(freeze(o), b, f"{name}: the other arguments")
    levels.carried(inp.metadata, out.metadata, name)
    levels.one_record(inp.metadata, out.metadata, name, name)
    return out


@scenario()
def decimate(rng):
    td = procs.suitable(rng, nmin=500, nmax=900)
    p = D.DecimationSetup(n_levels=rng.randrange(1, 4), per_level=rng.randrange(1, 4), min_samples=30).run(td.metadata.fs)
    note(data=describe(td))
    kw = dict(resample=rng.random() < 0.3)
    dec = D.Decimator(**kw)
    before = freeze(td)
    hist = [r.dict() for r in td.metadata.history.records]
    out = dec.run(p, td)
    same(freeze(td), before, "Decimator: the input object")
    a, b = td.metadata, out.metadata
    for k in ("chans", "n_chans", "system", "serial", "wgs84_latitude", "wgs84_longitude", "easting", "northing", "elevation", "first_time"):
        same(getattr(b, k), getattr(a, k), f"Decimator: {k}")
    same(str(b.last_time), str(a.last_time), "Decimator: last_time")
    same({c: m.dict() for c, m in b.chans_metadata.items()}, {c: m.dict() for c, m in a.chans_metadata.items()}, "Decimator: chans_metadata")
    levels.one_record(a, b, "Decimator", "Decimator")


@scenario()
def window(rng):
    ref, offs, dd = C13.decimated(rng)
    nl = dd.metadata.n_levels
    note(chans=dd.metadata.chans, reference=str(ref))
    ws = [rng.randrange(3, 12) for _ in range(nl)]
    p = W.WindowParameters(n_levels=nl, min_n_wins=1, win_sizes=ws, olap_sizes=[w // 2 for w in ws])
    w = rng.choice([W.Windower(), W.WindowerTarget(target=5, min_size=4)])
    import grid
    if w.name == "Windower" and min(len(grid.expected(offs[l], dd.metadata.levels_metadata[l].n_samples, ws[l], ws[l] // 2)) for l in range(nl)) < 1:
        raise Skip()
    try:
        frame(w.name, lambda: w.run(ref, p, dd), dd, p)
    except KeyError:
        raise Skip()


@scenario()
def fourier(rng):
    wd = levels.windowed(rng)
    note(chans=wd.metadata.chans)
    frame("FourierTransform", lambda: P.FourierTransform(workers=1, detrend=rng.choice([None, "linear", "constant"])).run(wd), wd)


@scenario()
def evals(rng):
    sd = levels.spectra(rng)
    p, ev = C16.params(rng, sd)
    note(chans=sd.metadata.chans)
    frame("EvaluationFreqs", lambda: P.EvaluationFreqs().run(p, sd), sd, p)


@scenario()
def smooth(rng):
    sd = levels.spectra(rng, n_freqs=rng.randrange(5, 40))
    s = rng.choice([P.SpectraSmootherUniform(length_proportion=rng.choice([0.1, 0.3])), P.SpectraSmootherGaussian(sigma=rng.choice([1, 3]))])
    note(chans=sd.metadata.chans, process=s.name)
    out = frame(s.name, lambda: s.run(sd), sd)
    same([x.dict() for x in out.metadata.levels_metadata], [x.dict() for x in sd.metadata.levels_metadata], "level metadata")
    same([v.shape for v in out.data.values()], [v.shape for v in sd.data.values()], "shapes")


@scenario()
def calibrate(rng):
    sd, cals, reader, chosen = C18.setup(rng)
    c = Cal.SensorCalibrator(chans=chosen, readers=[reader])
    note(chans=sd.metadata.chans, calibrated=sorted(cals), asked=chosen)
    with Scratch() as d:
        out = frame("SensorCalibrator", lambda: c.run(d, sd), sd, *cals.values())
    same([x.dict() for x in out.metadata.levels_metadata], [x.dict() for x in sd.metadata.levels_metadata], "level metadata")
