from common import *
from gen import *
import procs
from resistics import time as T


@scenario(weight=13)
def described(rng):
    td = procs.suitable(rng)
    s = td.metadata
    k, p = procs.process(rng, td)
    note(process=k, parameters=p.dict(exclude={"fncs"}), data=describe(td))
    out = p.run(td)
    m = out.metadata
    fs, first = s.fs, Fraction(0)
    if k == "decimate":
        fs = s.fs / p.factor
    if k == "resample":
        fs = p.new_fs
    if k == "shift":
        first = Fraction(str(p.shift)) if Fraction(str(p.shift)) * 10 ** 9 == int(Fraction(str(p.shift)) * 10 ** 9) else Fraction(p.shift)
    if k == "sub":
        from resistics.sampling import to_datetime
        first = secs(to_datetime(p.from_time) - s.first_time)
    same(m.fs, fs, f"{k}: sampling frequency")
    same([m.chans, m.n_chans], [s.chans, len(s.chans)], f"{k}: channels")
    same(out.data.shape, (len(m.chans), m.n_samples), f"{k}: metadata shape of the data")
    close(float(secs(m.first_time - s.first_time)), float(first), f"{k}: first time", rtol=0, atol=1e-12)
    close(float(secs(m.last_time - m.first_time) * Fraction(str(fs))), float(m.n_samples - 1), f"{k}: last time", rtol=1e-12)
    same({c: x.dict() for c, x in m.chans_metadata.items()}, {c: x.dict() for c, x in s.chans_metadata.items()}, f"{k}: channel metadata")
    for q in ("system", "serial", "wgs84_latitude", "wgs84_longitude", "easting", "northing", "elevation"):
        same(getattr(m, q), getattr(s, q), f"{k}: {q}")
    n = s.n_samples
    if k not in ("decimate", "resample", "shift", "sub"):
        same(m.n_samples, n, f"{k}: number of samples")
    if k == "decimate":
        e = n
        for f in [p.factor]:
            e = -(-e // f)
        same(m.n_samples, e, "decimate: number of samples")
    if k == "resample":
        same(m.n_samples, int(-(-Fraction(n) * Fraction(p.new_fs) // Fraction(s.fs))), "resample: number of samples")
    if k == "shift":
        same(m.n_samples, n - 1, "shift: number of samples")
