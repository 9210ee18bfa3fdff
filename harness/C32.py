from common import *
import project, procs, C18
from gen import *
from resistics import letsgo as L, config as K, time as T, decimate as D, window as W, spectra as P, calibrate as Cal, gather as G, regression as R, transfunc as X, project as PR
from resistics.errors import TimeDataReadError

CS = ["Ex", "Ey", "Hx", "Hy", "Hz"]


class Reader(T.TimeReader):
    """reads what it was given."""
    held: dict = {}
    calls: list = []
    tag: str = "a"

    def run(self, dir_path, metadata_only=False, metadata=None, from_time=None, to_time=None, from_sample=None, to_sample=None):
        self.calls.append((self.tag, str(dir_path), metadata, from_time, to_time))
        if str(dir_path) not in self.held:
            raise rng_error(self.tag)(dir_path, "not here")
        td = self.held[str(dir_path)]
        if from_time is not None or to_time is not None:
            td = td.subsection(from_time if from_time is not None else S.datetime_to_string(td.metadata.first_time), to_time if to_time is not None else S.datetime_to_string(td.metadata.last_time))
        return T.TimeData(td.metadata.copy(deep=True), td.data.copy())


def rng_error(tag):
    from resistics.errors import MetadataReadError
    return {"a": MetadataReadError, "b": TimeDataReadError}.get(tag, lambda p, m: RuntimeError(m))


class Gain(P.SpectraProcess):
    """does not commute with Shift."""
    by: float = 2.0

    def run(self, spec_data):
        return P.SpectraData(spec_data.metadata, {l: x * self.by for l, x in spec_data.data.items()})


class Shift(P.SpectraProcess):
    by: float = 3.0

    def run(self, spec_data):
        return P.SpectraData(spec_data.metadata, {l: x + self.by for l, x in spec_data.data.items()})


class Weighted(Cal.Calibrator):
    """calibration that depends on the directory it is given."""

    def run(self, dir_path, spec_data):
        k = 1 + len(str(dir_path)) % 7
        return P.SpectraData(spec_data.metadata, {l: x * k + 1j for l, x in spec_data.data.items()})


class Lstsq(R.SolverScikit):
    ridge: float = 0.0

    def run(self, regression_input):
        tf = regression_input.tf
        n = regression_input.n_freqs
        t = np.zeros((n, tf.n_out, tf.n_in), dtype=complex)
        for f in range(n):
            for o, c in enumerate(tf.out_chans):
                y, x = regression_input.get_inputs(f, c)
                k = np.linalg.lstsq(x.T @ x + (self.ridge + 1e-9) * np.eye(x.shape[1]), x.T @ y, rcond=None)[0]
                t[f, o] = k[0::2] + 1j * k[1::2]
        return solution(regression_input, t)


def solution(ri, t):
    tf = ri.tf
    comps = {f"{o}{i}": R.Component(real=[float(x) for x in t[:, a, b].real], imag=[float(x) for x in t[:, a, b].imag])
             for a, o in enumerate(tf.out_chans) for b, i in enumerate(tf.in_chans)}
    return R.Solution(tf=tf, freqs=ri.freqs, components=comps, history=ri.metadata.history, contributors=ri.metadata.contributors)


def time_process(rng, fs, n):
    k = rng.choice(["add", "mul", "mean", "shift", "low", "decimate", "mul2"])
    if k == "add":
        return T.Add(add=rng.choice([5.0, -2.5, {"Hx": 3.0}]))
    if k == "mul":
        return T.Multiply(multiplier=rng.choice([2.0, 0.5, {"Ex": 3.0}]))
    if k == "mul2":
        return T.ApplyFunction(fncs={c: (lambda x: x * x) for c in rng.sample(CS, 2)})
    if k == "mean":
        return T.RemoveMean()
    if k == "shift":
        return T.ShiftTimestamps(shift=0.25 / fs)
    if k == "low":
        return T.LowPass(cutoff=fs * 0.1)
    return T.Decimate(factor=2)


def configuration(rng, fs, n):
    procs_, dec = [], False
    for _ in range(rng.randrange(0, 4)):
        p = time_process(rng, fs, n)
        if p.name == "Decimate":
            if dec:
                continue
            dec = True
        procs_.append(p)
        if p.name == "ShiftTimestamps" or dec:
            break   # these change the sampling grid
    cals = {c: C18.cal_data(rng) for c in rng.sample(CS, 3)}
    sens = Cal.SensorCalibrator(chans=rng.choice([None, ["Hx", "Hy", "Hz"]]), readers=[C18.Given(known=cals)])
    tf = rng.choice([X.ImpedanceTensor(), X.Tipper(), X.ImpedanceTensor(variation="v", cross_chans=["Hx", "Hy", "Hz"])])
    return K.Configuration(
        name=rng.choice(["conf", "default", "other one"]), time_processors=procs_, dec_setup=D.DecimationSetup(n_levels=rng.randrange(1, 4), per_level=rng.randrange(1, 4), min_samples=64),
        decimator=D.Decimator(resample=rng.random() < 0.3), win_setup=W.WindowSetup(min_size=rng.choice([16, 32]), min_olap=rng.choice([4, 8]), min_n_wins=rng.choice([1, 2])),
        windower=W.Windower(), fourier=P.FourierTransform(win_fnc=rng.choice(["hann", "boxcar", ["kaiser", 14]]) if False else rng.choice(["hann", "boxcar"]), detrend=rng.choice(["linear", None])),
        spectra_processors=rng.choice([[], [Gain()], [Gain(), Shift()], [Shift(), Gain(by=1.5)]]), evals=P.EvaluationFreqs(), sensor_calibrator=rng.choice([sens, Weighted()]),
        tf=tf, solver=Lstsq(ridge=rng.choice([0.0, 0.1])))


def recording(rng):
    fs = rng.choice([32.0, 64.0, 128.0])
    n = rng.randrange(500, 1200)
    return time_data(rng, n=n, fs=fs, cs=rng.sample(CS, 5), dtype=np.float64, first=at(start(rng), rng.randrange(0, 1000)))


def staged(cfg, td, ref, upto="evals", cal=None):
    """the documented sequence, one stage after the other."""
    for p in cfg.time_processors:
        td = p.run(td)
    dp = cfg.dec_setup.run(td.metadata.fs)
    dd = cfg.decimator.run(dp, td)
    wp = cfg.win_setup.run(dd.metadata.n_levels, dd.metadata.fs)
    sd = cfg.fourier.run(cfg.windower.run(ref, wp, dd))
    if upto == "fourier":
        return dp, sd
    for p in cfg.spectra_processors:
        sd = p.run(sd)
    ev = cfg.evals.run(dp, sd)
    if cal is not None:
        ev = cfg.sensor_calibrator.run(cal, ev)
    return dp, ev


def outcome(fn):
    """(result, None), or what was raised: the stages themselves may refuse an input."""
    try:
        return fn(), None
    except Exception as e:
        return None, type(e)


def plain(m):
    d = json.loads(m.json())

    def strip(x):
        if isinstance(x, dict):
            return {k: strip(v) for k, v in x.items() if k not in ("time_local", "time_utc")}
        if isinstance(x, list):
            return [strip(v) for v in x]
        return x
    return strip(d)


def same_spectra(a, b, what):
    same(plain(a.metadata), plain(b.metadata), what + " metadata")
    same(sorted(a.data), sorted(b.data), what + " levels")
    for l in b.data:
        same(a.data[l], b.data[l], f"{what} level {l}")


def same_solution(a, b):
    same(plain(a.tf), plain(b.tf), "transfer function")
    close(a.freqs, b.freqs, "frequencies")
    same(sorted(a.components), sorted(b.components), "components")
    for k in b.components:
        close(a.components[k].real, b.components[k].real, f"component {k}", rtol=1e-6)
        close(a.components[k].imag, b.components[k].imag, f"component {k}", rtol=1e-6)
    same(plain(a)["history"], plain(b)["history"], "history")


def describe_config(c):
    note(processors=[p.name for p in c.time_processors], spectra=[p.name for p in c.spectra_processors], calibrator=c.sensor_calibrator.name, tf=c.tf.name, n_levels=c.dec_setup.n_levels, config=c.name)


def given(rng, td, p):
    """configured readers, one of which can read the directory."""
    calls = []
    rs = [Reader(held={str(p): td} if i == 1 else {}, calls=calls, tag=t) for i, t in enumerate(["a", "b", "c"])]
    k = rng.randrange(3)
    rs = [rs[1]] if k == 0 else rs[1:] if k == 1 else rs
    return rs, calls


@scenario(weight=3)
def transfer_function(rng):
    td = recording(rng)
    cfg = configuration(rng, td.metadata.fs, td.metadata.n_samples)
    with Scratch() as d:
        cfg.time_readers, _ = given(rng, td, d)
        cal = rng.choice([None, d / "cal", d / "calibr"])
        describe_config(cfg)
        note(calibration=cal is not None)

        def expected():
            dp, ev = staged(cfg, T.TimeData(td.metadata.copy(deep=True), td.data.copy()), td.metadata.first_time, cal=cal)
            return cfg.solver.run(cfg.regression_preparer.run(cfg.tf, G.QuickGather().run(d, dp, cfg.tf, ev)))
        want, err = outcome(expected)
        got, gerr = outcome(lambda: L.quick_tf(d, cfg, cal))
        same(gerr, err, "exception")
        if err:
            raise Skip()
        same_solution(got, want)
        same(tree(d), {}, "files written by quick processing")


@scenario(weight=2)
def spectra(rng):
    td = recording(rng)
    cfg = configuration(rng, td.metadata.fs, td.metadata.n_samples)
    with Scratch() as d:
        cfg.time_readers, _ = given(rng, td, d)
        describe_config(cfg)
        want, err = outcome(lambda: staged(cfg, T.TimeData(td.metadata.copy(deep=True), td.data.copy()), td.metadata.first_time, upto="fourier")[1])
        got, gerr = outcome(lambda: L.quick_spectra(d, cfg))
        same(gerr, err, "exception")
        if err:
            raise Skip()
        same_spectra(got, want, "spectra")


@scenario(weight=1)
def reading(rng):
    """the first configured reader that can read the directory; an error when none can."""
    td, other = time_data(rng, n=20), time_data(rng, n=30)
    with Scratch() as d:
        n = rng.randrange(0, 5)
        can = [rng.random() < 0.4 for _ in range(n)]
        tags = [rng.choice("abc") for _ in range(n)]
        tds = [time_data(rng, n=20 + i) for i in range(n)]
        note(can=can, tags=tags)
        cfg = K.Configuration(name="c", time_readers=[Reader(held={str(d): t} if k else {}, tag=g) for k, t, g in zip(can, tds, tags)])
        if any(can):
            t = tds[can.index(True)]
            got = L.quick_read(d, cfg)
            same(got.data, t.data, "data")
            same(plain(got.metadata), plain(t.metadata), "metadata")
        else:
            refused("no reader can read", (TimeDataReadError,), L.quick_read, d, cfg)


@scenario(weight=2)
def helpers(rng):
    """each helper runs the configured stage on what it is given."""
    td = recording(rng)
    cfg = configuration(rng, td.metadata.fs, td.metadata.n_samples)
    describe_config(cfg)

    def expected():
        t = td
        for p in cfg.time_processors:
            t = p.run(t)
        dp = cfg.dec_setup.run(t.metadata.fs)
        return t, dp, cfg.decimator.run(dp, t)
    want, err = outcome(expected)
    if err:
        raise Skip()
    t, dp, dd = want
    same(L.run_time_processors(cfg, td).data, t.data, "time processors")
    for q in (None, dp, cfg.dec_setup.copy(update={"n_levels": 1}).run(t.metadata.fs)):
        w, e = outcome(lambda: cfg.decimator.run(q or dp, t))
        g, ge = outcome(lambda: L.run_decimation(cfg, t, q) if q is not None else L.run_decimation(cfg, t))
        same(ge, e, "exception")
        if not e:
            same(g.metadata.n_levels, w.metadata.n_levels, "levels")
            for l in w.data:
                same(g.data[l], w.data[l], f"decimated level {l}")
    ref = at(td.metadata.first_time, -rng.randrange(0, 1000))
    w, e = outcome(lambda: cfg.windower.run(ref, cfg.win_setup.run(dd.metadata.n_levels, dd.metadata.fs), dd))
    g, ge = outcome(lambda: L.run_windowing(cfg, ref, dd))
    same(ge, e, "exception")
    if e:
        raise Skip()
    for l in w.data:
        same(g.data[l], w.data[l], f"windowed level {l}")
        same(g.metadata.levels_metadata[l].index_offset, w.metadata.levels_metadata[l].index_offset, f"offset of level {l}")
    s = cfg.fourier.run(w)
    same_spectra(L.run_fft(cfg, w), s, "transform")
    x = s
    for p in cfg.spectra_processors:
        x = p.run(x)
    same_spectra(L.run_spectra_processors(cfg, s), x, "spectra processors")
    ev = cfg.evals.run(dp, s)
    same_spectra(L.run_evals(cfg, dp, s), ev, "evaluation frequencies")
    from pathlib import Path
    same_spectra(L.run_sensor_calibration(cfg, Path("calx"), ev), cfg.sensor_calibrator.run(Path("calx"), ev), "calibration")


def a_project(rng, d, td):
    site, meas = rng.sample(project.NAMES, 2), rng.sample(project.MEAS, 2)
    calls = []
    ss = {}
    for s in site:
        ms = {}
        for m in meas:
            p = d / "time" / s / m
            x = td if (s, m) == (site[0], meas[0]) else recording(rng)
            ms[m] = PR.Measurement(site_name=s, dir_path=p, metadata=x.metadata, reader=Reader(held={str(p): x}, calls=calls))
        ss[s] = PR.Site(dir_path=d / "time" / s, measurements=ms, begin_time="2019-01-01", end_time="2022-01-01")
    ref = at(td.metadata.first_time, -rng.randrange(0, 100000))
    proj = PR.Project(dir_path=d, begin_time="2019-01-01", end_time="2022-01-01", metadata=PR.ProjectMetadata(ref_time=S.datetime_to_string(ref)), sites=ss)
    return proj, site[0], meas[0], calls


@scenario(weight=3)
def to_evals(rng):
    td = recording(rng)
    cfg = configuration(rng, td.metadata.fs, td.metadata.n_samples)
    describe_config(cfg)
    with Scratch() as d:
        proj, s, m, _ = a_project(rng, d, td)
        env = L.ResisticsEnvironment(proj=proj, config=cfg)
        want, err = outcome(lambda: staged(cfg, T.TimeData(td.metadata.copy(deep=True), td.data.copy()), proj.metadata.ref_time, cal=d / "calibrate")[1])
        got, gerr = outcome(lambda: L.process_time_to_evals(env, s, m))
        same(gerr, err, "exception")
        if err:
            raise Skip()
        p = d / "evals" / s / cfg.name / m
        fs = [x for x in tree(d) if not x.endswith("/")]
        check(all((d / x).parent == p for x in fs) and fs, "files only in the measurement's own directory", files=fs)
        stored = P.SpectraDataReader().run(p)
        same(stored.metadata.ref_time, proj.metadata.ref_time, "reference time")
        h, w = plain(stored.metadata)["history"]["records"], plain(want.metadata)["history"]["records"]
        same([x["creator"]["name"] for x in h][:len(w)], [x["creator"]["name"] for x in w], "stages in the history")
        for i, (x, y) in enumerate(zip(h, w)):
            same(x, y, f"record {i} of the history")
        same(sorted(stored.data), sorted(want.data), "levels")
        for l in want.data:
            same(stored.data[l], want.data[l], f"stored level {l}")
            same(stored.metadata.levels_metadata[l].dict(), want.metadata.levels_metadata[l].dict(), f"metadata of level {l}")


@scenario(weight=2)
def time_only(rng):
    td = recording(rng)
    cfg = configuration(rng, td.metadata.fs, td.metadata.n_samples)
    describe_config(cfg)
    with Scratch() as d:
        proj, s, m, calls = a_project(rng, d, td)
        env = L.ResisticsEnvironment(proj=proj, config=cfg)
        per = 1 / Fraction(str(td.metadata.fs))
        a = rng.choice([None, at(td.metadata.first_time, per * rng.randrange(0, 100))])
        b = rng.choice([None, at(td.metadata.last_time, -per * rng.randrange(0, 100))])
        a, b = [x if x is None else S.datetime_to_string(x) for x in (a, b)]
        note(from_time=a, to_time=b)
        os_, om = rng.choice([s, "newsite"]), "newmeas"

        def expected():
            x = Reader(held={"x": td}).run("x", from_time=a, to_time=b)
            for p in cfg.time_processors:
                x = p.run(x)
            return x
        want, err = outcome(expected)
        got, gerr = outcome(lambda: L.process_time(env, s, m, os_, om, from_time=a, to_time=b))
        same(gerr, err, "exception")
        if err:
            raise Skip()
        p = d / "time" / os_ / om
        fs = [x for x in tree(d) if not x.endswith("/")]
        check(all((d / x).parent == p for x in fs) and fs, "files only in the output measurement's directory", files=fs)
        got = T.TimeReaderNumpy(apply_scalings=False).run(p)
        same(got.data, want.data, "stored data")
        same([got.metadata.first_time, got.metadata.last_time, got.metadata.fs, got.metadata.chans], [want.metadata.first_time, want.metadata.last_time, want.metadata.fs, want.metadata.chans], "stored times")


@scenario(weight=2, limit=200)
def stored_to_tf(rng):
    name = rng.choice(["conf", "default"])
    tf = rng.choice([X.ImpedanceTensor(), X.Tipper(), X.ImpedanceTensor(variation="v w", cross_chans=["Hx", "Hy", "Hz"])])
    post = rng.choice([None, "pf"])
    with Scratch() as d:
        proj, p, have = project.with_evals(rng, d, config=name)
        ok = [s for s in sorted(have) if have[s]]
        if not ok:
            raise Skip()
        o, i, c = rng.choice(ok), rng.choice([None] + ok), rng.choice([None] + ok)
        note(out=o, inp=i, cross=c, tf=tf.name)
        cfg = K.Configuration(name=name, tf=tf, solver=Lstsq(ridge=0.1), dec_setup=D.DecimationSetup(n_levels=p.n_levels, per_level=p.per_level, min_samples=1))
        before = tree(d)

        def expected():
            dp = cfg.dec_setup.run(p.fs)
            sel = G.Selector().run(name, proj, [o] + [x for x in (i, c) if x], dp)
            ga = G.ProjectGather().run(name, proj, sel, tf, out_name=o, in_name=i, cross_name=c)
            return cfg.solver.run(cfg.regression_preparer.run(tf, ga))
        want, err = outcome(expected)
        env = L.ResisticsEnvironment(proj=proj, config=cfg)
        got, gerr = outcome(lambda: L.process_evals_to_tf(env, p.fs, o, i, c, postfix=post))
        same(gerr, err, "exception")
        if err:
            raise Skip()
        same_solution(got, want)
        fn = os.path.join("results", o, name, PR.get_solution_name(p.fs, tf.name, tf.variation, post))
        new = {k: v for k, v in tree(d).items() if not k.endswith("/")}
        same(sorted(set(new) - set(before)), [fn], "file of the solution")
        check(all(new[k] == v for k, v in before.items() if v is not None), "the other files are unchanged")
        same_solution(R.Solution.parse_file(d / fn), want)
