from common import *
from gen import *
from resistics import sampling as S
import pandas as pd


def nano(t):
    return (t.isoformat() if not isinstance(t, str) else t)


def inst(t, F):
    """exact seconds of an attodatetime after F."""
    return secs(t - F)


@scenario()
def single_and_pair(rng):
    fs, F, n, period = recording(rng)
    k = rng.choice([0, n - 1, rng.randrange(n)])
    note(fs=fs, first=str(F), n=n, sample=k)
    same(inst(S.sample_to_datetime(fs, F, k), F), k * period, "time of a sample")
    same(inst(S.sample_to_datetime(fs, F, k, n), F), k * period, "time of a sample, number of samples given")
    for bad in (-1, n, n + rng.randrange(1, 9), -n - 1):
        refused(f"sample {bad} of {n}", ValueError, S.sample_to_datetime, fs, F, bad, n)
    a, b = sorted(rng.sample(range(n + 1), 2))
    x, y = S.samples_to_datetimes(fs, F, a, b)
    same([inst(x, F), inst(y, F)], [a * period, b * period], "times of a pair")
    refused("pair not in order", ValueError, S.samples_to_datetimes, fs, F, b, a)
    refused("pair of equal samples", ValueError, S.samples_to_datetimes, fs, F, b, b)


@scenario()
def arrays(rng):
    fs, F, n, period = recording(rng, 200)
    note(fs=fs, first=str(F), n=n)
    xs = S.datetime_array(F, fs, n_samples=n)
    same([inst(x, F) for x in xs], [k * period for k in range(n)], "all samples")
    ks = [rng.randrange(n) for _ in range(rng.randrange(1, 6))]
    note(samples=ks)
    xs = S.datetime_array(F, fs, samples=np.array(ks))
    same([inst(x, F) for x in xs], [k * period for k in ks], "chosen samples")
    refused("nothing asked", ValueError, S.datetime_array, F, fs)
    refused("nothing asked (estimate)", ValueError, S.datetime_array_estimate, F, fs)


def whole_ns(rng):
    while True:
        fs, F, n, period = recording(rng, 300)
        if (period * 10 ** 9).denominator == 1 and secs(F - S.to_datetime("1990-01-01 00:00:00")).limit_denominator(10 ** 9) == secs(F - S.to_datetime("1990-01-01 00:00:00")):
            return fs, F, n, period


def stamp(F, s):
    return pd.Timestamp(at(F, s).isoformat())


@scenario()
def estimates(rng):
    fs, F, n, period = whole_ns(rng)
    note(fs=fs, first=str(F), n=n)
    same(list(S.datetime_array_estimate(F, fs, n_samples=n)), [stamp(F, k * period) for k in range(n)], "all samples, estimate")
    ks = [rng.randrange(n) for _ in range(rng.randrange(1, 6))]
    note(samples=ks)
    same(list(S.datetime_array_estimate(F, fs, samples=np.array(ks))), [stamp(F, k * period) for k in ks], "chosen samples, estimate")


@scenario()
def timestamps_of_data(rng):
    fs, F, n, period = whole_ns(rng)
    td = time_data(rng, n=n, fs=fs, first=F)
    ks = [rng.randrange(n) for _ in range(rng.randrange(1, 6))]
    note(data=describe(td), samples=ks)
    same([inst(x, F) for x in td.get_timestamps(estimate=False)], [k * period for k in range(n)], "timestamps")
    same([inst(x, F) for x in td.get_timestamps(samples=np.array(ks), estimate=False)], [k * period for k in ks], "timestamps of samples")
    same(list(td.get_timestamps()), [stamp(F, k * period) for k in range(n)], "timestamps, estimate")
    same(list(td.get_timestamps(samples=np.array(ks))), [stamp(F, k * period) for k in ks], "timestamps of samples, estimate")


@scenario()
def timestamps_of_levels(rng):
    import levels
    dd = levels.decimated(rng)
    lv = rng.randrange(dd.metadata.n_levels)
    lm = dd.metadata.levels_metadata[lv]
    F, n, period = lm.first_time, lm.n_samples, 1 / Fraction(str(lm.fs))
    ks = [rng.randrange(n) for _ in range(rng.randrange(1, 6))]
    note(level=lv, fs=lm.fs, n=n, first=str(F), samples=ks)
    same([inst(x, F) for x in dd.get_timestamps(lv, estimate=False)], [k * period for k in range(n)], "timestamps of a level")
    same([inst(x, F) for x in dd.get_timestamps(lv, samples=np.array(ks), estimate=False)], [k * period for k in ks], "timestamps of samples of a level")
    if (period * 10 ** 9).denominator == 1 and rng:
        base = pd.Timestamp(F.isoformat())
        if str(F).count(".") == 0 or len(str(F).split(".")[1]) <= 9:
            same(list(dd.get_timestamps(lv)), [stamp(F, k * period) for k in range(n)], "timestamps of a level, estimate")
            same(list(dd.get_timestamps(lv, samples=np.array(ks))), [stamp(F, k * period) for k in ks], "timestamps of samples of a level, estimate")
