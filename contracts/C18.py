from objs import *
from stages import *
from stages import method

K = lambda: mod("calibrate")
FN = "resistics.calibrate."
I, R = z3.IntSort(), z3.RealSort()


class Calibrations:
    """calibration data as a family: frequencies, magnitudes and phases of every code."""
    def __init__(self):
        n = self.n = per_level("caln", None, "int", 1)
        self.f, self.m, self.p = (eng.fresh_fn(x, [I, I], R) for x in ("calfreq", "calmag", "calphase"))
        name = eng.fresh_fn("calname", [I], I)
        seq = lambda f: lambda c: PList.sym(n(c), lambda i: SNum.atom(f(iz(c), iz(i)), "real"))
        self.freq, self.mag, self.phase = seq(self.f), seq(self.m), seq(self.p)

        def at(c):
            return build(K().CalibrationData, file_info=None, file_path=None, sensor=SStr(name(iz(c))), serial=SStr(name(iz(c))), static_gain=sreal("sgain"), magnitude_unit="mV/nT",
                         phase_unit="radians", chopper=False, frequency=self.freq(c), magnitude=self.mag(c), phase=self.phase(c))
        self.get = generic_object(at)

    def response(self, c, freqs):
        """magnitude * exp(i phase), both interpolated linearly at the frequencies."""
        fr = numpy_.array(freqs)
        mag = numpy_.interp(fr, numpy_.array(self.freq(c)), numpy_.array(self.mag(c)))
        phs = numpy_.interp(fr, numpy_.array(self.freq(c)), numpy_.array(self.phase(c)))
        return lambda k: num(mag.at(k)) * numpy_.exp(N.SComplex(num(0), num(phs.at(k))))


def setup(own):
    """a calibrator for all channels or those asked for, meeting `_get_cal_data` through its contract."""
    sd = spectra_data(increasing=True)
    C = Calibrations()
    has = eng.fresh_fn("has_calibration", [I], z3.BoolSort())
    which = eng.fresh_fn("calibration_of", [I], I)

    def found(self, dir_path, metadata, chan):
        """_get_cal_data met through its contract: the calibration of the channel, or none."""
        if decide(N.mkbool(has(N.code(chan)))):
            return C.get(SNum.atom(which(N.code(chan)), "int"))
        return None
    method(K().SensorCalibrator, "_get_cal_data", found)
    asked = None
    if own:
        asked = strings("asked", nat("n_asked"))         # precondition: no channel is asked for twice
    p = build(K().SensorCalibrator, name="SensorCalibrator", chans=asked, readers=PList([]))
    return sd, C, p, asked, has, which


def calibrate(own):
    sd, C, p, asked, has, which = setup(own)
    md = sd.metadata
    nl, nc, chans = md.n_levels, md.n_chans, PList(md.chans)
    lm = PList(md.levels_metadata)
    m = mark()
    o = attempt(p.run, fs.Path.mk(sstr("dir"), ()), sd)
    ensure(o.ok, "calibrated")
    if not o.ok:
        return
    cover("done")
    unchanged(m, "spectra and calibrations unchanged")
    out = o.value
    ensure(out.data.n == nl, "data of every level and no other")
    l, c = nat("l"), nat("c")

    def at():
        require(And(l < nl, c < nc))
        feasible()
        name = chans.get(c)
        x, y = sd.data.lookup(l), out.data.lookup(l)
        ensure(y is not V.MISSING, "data of every level")
        if y is V.MISSING:
            return
        ensure(And(len(y.shape) == 3, *[num(a) == b for a, b in zip(x.shape, y.shape)]), "shape of the level")
        a = lm.get(l)
        chosen = True if asked is None else V.seq_member(asked, name)
        if decide(chosen) and decide(N.mkbool(has(N.code(name)))):
            cover("calibrated")
            r = C.response(SNum.atom(which(N.code(name)), "int"), a.freqs)
            ensure_cells(y[:, c], lambda w, k: x.at(w, c, k) / r(k), "channels with calibration data are divided by their response")
        else:
            cover("not calibrated")
            ensure_cells(y[:, c], lambda w, k: x.at(w, c, k), "other channels are unchanged")
    branches(at)


DOC = [FN + "SensorCalibrator.run"] + [FN + "Calibrator." + f for f in ("_get_chans", "_calibrate", "_interpolate")]


@contract("C18", "all channels", DOC)
def every():
    calibrate(False)


@contract("C18", "channels asked for", DOC, budget=120)
def some():
    calibrate(True)


@contract("C18", "first reader that can provide it", [FN + "SensorCalibrator._get_cal_data"])
def readers():
    C = Calibrations()
    n = nat("n_readers")
    ok = z3.Function("reader_ok", I, I, z3.BoolSort())
    how, which = (z3.Function(x, I, I, I) for x in ("reader_error", "reader_calibration"))
    chan, d = sstr("chan"), fs.Path.mk(sstr("dir"), ())
    md = spectra_data().metadata
    E = mod("errors")

    def run(p, args):
        _, dp, m, c = args
        ensure(dp is d and m is md, "readers are asked about this directory and data")
        ensure(c == chan, "readers are asked about this channel")
        i = iz(p.id)
        if decide(N.mkbool(ok(i, N.code(c)))):
            return C.get(SNum.atom(which(i, N.code(c)), "int"))
        h = SNum.atom(how(i, N.code(c)), "int")
        if decide(h == 0):
            raise E.CalibrationFileNotFound(dp, dp)
        raise ValueError("unreadable") if decide(h == 1) else KeyError("missing")
    reader = lambda i: Proc(K().SensorCalibrationReader, "reader", Kind("cal"), i, result=run)
    p = build(K().SensorCalibrator, name="SensorCalibrator", chans=None, readers=PList.sym(n, reader))
    good = lambda i: N.mkbool(ok(iz(i), N.code(chan)))
    m = None
    if decide(sbool("some_reader_works")):
        m = sint("first_reader")
        require(And(0 <= m, m < n, good(m)))
        require_forall(m, lambda i: Not(good(i)))
    else:
        require_forall(n, lambda i: Not(good(i)))
    t = mark()
    o = attempt(p._get_cal_data, d, md, chan)
    ensure(o.ok, "readers that fail are passed over")
    if not o.ok:
        return
    unchanged(t, "nothing else changes")
    if m is None:
        cover("none")
        ensure(o.value is None, "no calibration data when no reader has any")
    else:
        cover("one")
        ensure(o.value is not None, "calibration data of the reader")
        if o.value is not None:
            ensure_same(o.value, C.get(SNum.atom(which(iz(m), N.code(chan)), "int")), "calibration data of the first reader that succeeds")


def plain(s):
    """precondition: no placeholder character in the name."""
    require(Not(N.mkbool(N.CONTAINS(N.code(s), N.code("$")))))
    return s


def file_of(template, name, extension):
    md = spectra_data().metadata
    c = nat("c")
    require(c < md.n_chans)
    chan = PList(md.chans).get(c)
    cm = md.chans_metadata.lookup(chan)
    plain(cm.sensor), plain(cm.serial)
    ext = plain(sstr("extension")) if extension else None
    r = build(K().SensorCalibrationReader, name="reader", extension=ext, file_str=N.text(template))
    data = V.opaque("calibration")
    asked = []

    def read(self, file_path, chan_metadata):
        asked.append((file_path, chan_metadata))
        return data
    method(K().SensorCalibrationReader, "read_calibration_data", read)
    d = fs.Path.mk(sstr("dir"), ())
    want = d / N.str_concat(name(cm) + [ext if extension else "$extension"])
    o = attempt(r.run, d, md, chan)
    if decide(want.exists()):
        cover("there")
        ensure(o.ok, "a file that exists is read")
        if o.ok:
            ensure(len(asked) == 1, "once")
            ensure_same(asked[0][1], cm, "for the channel")
            ensure(asked[0][0] == want, "from the file named after the channel's sensor and serial")
            ensure(o.value is data, "what was read is returned")
    else:
        cover("missing")
        must_fail(o, K().CalibrationFileNotFound, "no file")
        ensure(not asked, "nothing is read")


for template, name in (("IC_$sensor$extension", lambda m: ["IC_", m.sensor]), ("cal-$serial-$sensor$extension", lambda m: ["cal-", m.serial, "-", m.sensor]), ("all$extension", lambda m: ["all"])):
    for ext in (True, False):
        contract("C18", f"file {template}" + ("" if ext else ", no extension"), [FN + "SensorCalibrationReader." + f for f in ("run", "_get_path")])(
            lambda t=template, n=name, e=ext: file_of(t, n, e))
