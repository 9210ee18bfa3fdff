"""The time processes, each with random parameters fitting the data."""
from gen import *
from resistics import time as T, sampling as S


def process(rng, td, kinds=None):
    m = td.metadata
    n, per = m.n_samples, 1 / Fraction(str(m.fs))
    ny = m.fs / 2
    k = rng.choice(kinds or ["sub", "nan", "mean", "add", "mul", "low", "high", "bandp", "notch", "resample", "decimate", "shift", "apply"])
    pc = lambda: {c: rng.choice([2.5, -3.0, 0.5]) for c in rng.sample(m.chans + ["other"], rng.randrange(0, len(m.chans) + 1))}
    if k == "sub":
        a, b = sorted(rng.sample(range(n), 2))
        return k, T.Subsection(from_time=S.datetime_to_string(at(m.first_time, a * per)), to_time=S.datetime_to_string(at(m.first_time, b * per)))
    if k == "nan":
        return k, T.InterpolateNans()
    if k == "mean":
        return k, T.RemoveMean()
    if k == "add":
        return k, T.Add(add=rng.choice([5, -2.5]) if rng.random() < 0.5 else pc())
    if k == "mul":
        return k, T.Multiply(multiplier=rng.choice([5, -2.5]) if rng.random() < 0.5 else pc())
    o = rng.choice([1, 2, 3])
    if k == "low":
        return k, T.LowPass(cutoff=ny * rng.choice([0.2, 0.5, 0.8]), order=o)
    if k == "high":
        return k, T.HighPass(cutoff=ny * rng.choice([0.2, 0.5, 0.8]), order=o)
    if k == "bandp":
        return k, T.BandPass(cutoff_low=ny * rng.choice([0.2, 0.3]), cutoff_high=ny * rng.choice([0.5, 0.8]), order=o)
    if k == "notch":
        return k, T.Notch(notch=ny * rng.choice([0.4, 0.6]), band=rng.choice([None, ny * 0.1]), order=o)
    if k == "resample":
        return k, T.Resample(new_fs=m.fs * rng.choice([0.5, 2, 0.25, 1]))
    if k == "decimate":
        return k, T.Decimate(factor=rng.choice([1, 2, 3, 4, 6]))
    if k == "shift":
        return k, T.ShiftTimestamps(shift=float(per * rng.choice([Fraction(1, 4), Fraction(1, 2), Fraction(1, 8)])))
    fn = {c: rng.choice([(lambda x: x * x), lambda x: x + 1, lambda x: 2 * x]) for c in rng.sample(m.chans, rng.randrange(0, len(m.chans) + 1))}
    return k, T.ApplyFunction(fncs=fn)


def suitable(rng, nan=0.0, nmin=60, nmax=200):
    return time_data(rng, n=rng.randrange(nmin, nmax), nan=nan, fs=rng.choice([1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0, 128.0, 10.0, 50.0, 0.5]))
