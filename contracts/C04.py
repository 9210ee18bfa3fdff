from objs import *

PER = ["resistics.time.new_time_data", "resistics.common.get_record", "resistics.common.ResisticsProcess._get_record"]




def check_process(make, pre=None, **kw):
    td = time_data(**kw)
    if pre is not None:
        pre(td)
    p = make(td)
    nrec = td.metadata.history.records.n
    old = PList(td.metadata.history.records)
    m = mark()
    o = attempt(p.run, td)
    unchanged(m, "nothing that existed before is modified")
    if not o.ok:
        cover("refused")
        return
    cover("succeeds")
    r = o.value
    recs = r.metadata.history.records
    ensure(num(recs.n) == num(nrec) + 1, "exactly one more record")
    ensure_forall(nrec, lambda i: ensure_same(PList(recs).get(i), old.get(i), "earlier record"), "earlier records")
    ensure(PList(recs).get(nrec).creator["name"] == p.name, "new record names the process")
    separate(td, r, "result and input share no mutable state")


@contract("C04", "RemoveMean", ["resistics.time.RemoveMean.run"] + PER)
def remove_mean():
    T = mod("time")
    check_process(lambda td: T.RemoveMean())




@contract("C04", "Add a number", ["resistics.time.Add.run", "resistics.time.Add._get_add"])
def add_number():
    T = mod("time")
    check_process(lambda td: T.Add(add=sreal("v")))


@contract("C04", "Add by channel", ["resistics.time.Add.run", "resistics.time.Add._get_add"])
def add_channel():
    T = mod("time")
    check_process(lambda td: T.Add(add=values_by_name("v")))


@contract("C04", "Multiply by a number", ["resistics.time.Multiply.run", "resistics.time.Multiply._get_mult"])
def mul_number():
    T = mod("time")
    check_process(lambda td: T.Multiply(multiplier=sreal("v")))


@contract("C04", "Multiply by channel", ["resistics.time.Multiply.run", "resistics.time.Multiply._get_mult"])
def mul_channel():
    T = mod("time")
    check_process(lambda td: T.Multiply(multiplier=values_by_name("v")))


@contract("C04", "InterpolateNans", ["resistics.time.InterpolateNans.run", "resistics.time.InterpolateNans._interpolate_nans"])
def interpolate():
    T = mod("time")
    check_process(lambda td: T.InterpolateNans(), nan=True)


@contract("C04", "Subsection", ["resistics.time.Subsection.run", "resistics.time.adjust_time_metadata", "resistics.time.TimeData.subsection"], budget=200)
def subsection():
    T = mod("time")
    check_process(lambda td: build(T.Subsection, name="Subsection", from_time=instant("a"), to_time=instant("b")))


@contract("C04", "LowPass", ["resistics.time.LowPass.run"])
def low_pass():
    T = mod("time")
    check_process(lambda td: T.LowPass(cutoff=pos_real("cutoff"), order=nat("order", 1)))


@contract("C04", "HighPass", ["resistics.time.HighPass.run"])
def high_pass():
    T = mod("time")
    check_process(lambda td: T.HighPass(cutoff=pos_real("cutoff"), order=nat("order", 1)))


@contract("C04", "BandPass", ["resistics.time.BandPass.run"])
def band_pass():
    T = mod("time")
    check_process(lambda td: T.BandPass(cutoff_low=pos_real("low"), cutoff_high=pos_real("high"), order=nat("order", 1)))


@contract("C04", "Notch", ["resistics.time.Notch.run"])
def notch():
    T = mod("time")
    check_process(lambda td: T.Notch(notch=pos_real("notch"), band=pos_real("band"), order=nat("order", 1)))


@contract("C04", "Notch with default band", ["resistics.time.Notch.run"])
def notch_default():
    T = mod("time")
    check_process(lambda td: T.Notch(notch=pos_real("notch")))


@contract("C04", "Resample", ["resistics.time.Resample.run", "resistics.time.adjust_time_metadata"])
def resample():
    T = mod("time")
    check_process(lambda td: T.Resample(new_fs=pos_real("nfs")))


@contract("C04", "Decimate", ["resistics.time.Decimate.run", "resistics.time.adjust_time_metadata"])
def decimate():
    T = mod("time")
    decimation_steps()
    check_process(lambda td: T.Decimate(factor=nat("factor", 1), max_single_factor=nat("msf", 2)))


@contract("C04", "ShiftTimestamps", ["resistics.time.ShiftTimestamps.run", "resistics.time.adjust_time_metadata"])
def shift():
    T = mod("time")
    check_process(lambda td: T.ShiftTimestamps(shift=pos_real("shift")), n=nat("n", 2))


@contract("C04", "ApplyFunction", ["resistics.time.ApplyFunction.run"])
def apply():
    T = mod("time")
    check_process(lambda td: T.ApplyFunction(fncs=PDict([(sstr("c1"), lambda x: x * x), (sstr("c2"), lambda x: x + 1)])))


@contract("C04", "copy", ["resistics.time.TimeData.copy"])
def copy():
    td = time_data()
    m = mark()
    r = td.copy()
    unchanged(m, "nothing that existed before is modified")
    separate(td, r, "copy and original share no mutable state")
    ensure_same(r.metadata, td.metadata, "metadata")
    ensure_same_array(r.data, td.data, "data")
