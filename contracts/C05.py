from objs import *


def check(make, implied=lambda p, td: (td.metadata.fs, td.metadata.first_time, td.metadata.n_samples), **kw):
    """the metadata of the result describes the data of the result.
    implied(p, td): the sampling frequency and first time the process implies."""
    td = time_data(**kw)
    fs0, F0, chans0, nc0 = td.metadata.fs, td.metadata.first_time, PList(td.metadata.chans), td.metadata.n_chans
    p = make(td)
    want = implied(p, td)
    require(period_exact(fs0))
    require(period_exact(want[0]))
    o = attempt(p.run, td)
    if not o.ok:
        cover("refused")
        return
    cover("succeeds")
    r = o.value
    md = r.metadata
    ensure(len(r.data.shape) == 2, "data are channels by samples")
    ensure(num(md.n_samples) == num(r.data.shape[1]), "number of samples is that of the data")
    ensure(num(md.n_chans) == num(r.data.shape[0]), "number of channels is that of the data")
    ensure(num(md.n_chans) == num(nc0), "number of channels is unchanged")
    ensure_list(md.chans, nc0, lambda i: chans0.get(i), "channels in their order")
    ensure(num(md.fs) == num(want[0]), "sampling frequency")
    ensure(md.first_time.t == want[1].t, "first time")
    ensure(md.last_time.t == md.first_time.t + (num(md.n_samples) - 1) / num(md.fs), "last time is first time plus (samples - 1)/fs")
    if want[2] is not None:
        ensure(num(md.n_samples) == num(want[2]), "number of samples the process implies")


def T():
    return mod("time")




PER = ["resistics.time.new_time_data", "resistics.time.TimeData.__init__"]


@contract("C05", "RemoveMean", ["resistics.time.RemoveMean.run"] + PER)
def remove_mean():
    check(lambda td: T().RemoveMean())


@contract("C05", "Add a number", ["resistics.time.Add.run", "resistics.time.Add._get_add"])
def add_number():
    check(lambda td: T().Add(add=sreal("v")))


@contract("C05", "Add by channel", ["resistics.time.Add.run", "resistics.time.Add._get_add"])
def add_chan():
    check(lambda td: T().Add(add=values_by_name("v")))


@contract("C05", "Multiply by a number", ["resistics.time.Multiply.run", "resistics.time.Multiply._get_mult"])
def mult_number():
    check(lambda td: T().Multiply(multiplier=sreal("v")))


@contract("C05", "Multiply by channel", ["resistics.time.Multiply.run", "resistics.time.Multiply._get_mult"])
def mult_chan():
    check(lambda td: T().Multiply(multiplier=values_by_name("v")))


@contract("C05", "InterpolateNans", ["resistics.time.InterpolateNans.run", "resistics.time.InterpolateNans._interpolate_nans"])
def interpolate():
    check(lambda td: T().InterpolateNans(), nan=True)


@contract("C05", "Subsection", ["resistics.time.Subsection.run", "resistics.time.adjust_time_metadata"], budget=200)
def subsection():
    S = mod("sampling")

    def implied(p, td):
        m = td.metadata
        a = attempt(S.datetimes_to_samples, m.fs, m.first_time, m.last_time, p.from_time, p.to_time)
        if not a.ok:
            return m.fs, m.first_time, None
        x, y = num(a.value[0]), num(a.value[1])
        return m.fs, times.attodatetime.of(m.first_time.t + x / m.fs), y - x + 1
    check(lambda td: build(T().Subsection, name="Subsection", from_time=instant("a"), to_time=instant("b")), implied)


@contract("C05", "LowPass", ["resistics.time.LowPass.run"])
def low():
    check(lambda td: T().LowPass(cutoff=pos_real("cutoff"), order=nat("order", 1)))


@contract("C05", "HighPass", ["resistics.time.HighPass.run"])
def high():
    check(lambda td: T().HighPass(cutoff=pos_real("cutoff"), order=nat("order", 1)))


@contract("C05", "BandPass", ["resistics.time.BandPass.run"])
def band():
    check(lambda td: T().BandPass(cutoff_low=pos_real("low"), cutoff_high=pos_real("high"), order=nat("order", 1)))


@contract("C05", "Notch", ["resistics.time.Notch.run"])
def notch():
    check(lambda td: T().Notch(notch=pos_real("notch"), band=pos_real("band"), order=nat("order", 1)))


@contract("C05", "Notch with default band", ["resistics.time.Notch.run"])
def notch_default():
    check(lambda td: T().Notch(notch=pos_real("notch")))


@contract("C05", "Resample", ["resistics.time.Resample.run", "resistics.time.adjust_time_metadata"])
def resample():
    check(lambda td: T().Resample(new_fs=pos_real("nfs")), lambda p, td: (p.new_fs, td.metadata.first_time, None))


@contract("C05", "Decimate", ["resistics.time.Decimate.run", "resistics.time.adjust_time_metadata"])
def decimate():
    decimation_steps()
    check(lambda td: T().Decimate(factor=nat("factor", 1), max_single_factor=nat("msf", 2)),
          lambda p, td: (td.metadata.fs / p.factor, td.metadata.first_time, None))


@contract("C05", "ShiftTimestamps", ["resistics.time.ShiftTimestamps.run", "resistics.time.adjust_time_metadata"])
def shift():
    shift = pos_real("shift")
    require(period_exact(1 / shift))
    check(lambda td: T().ShiftTimestamps(shift=shift),
          lambda p, td: (td.metadata.fs, times.attodatetime.of(td.metadata.first_time.t + num(p.shift)), num(td.metadata.n_samples) - 1), n=nat("n", 2))


@contract("C05", "ApplyFunction", ["resistics.time.ApplyFunction.run"])
def apply():
    check(lambda td: T().ApplyFunction(fncs=PDict([(sstr("c1"), lambda x: x * x), (sstr("c2"), lambda x: x + 1)])))
