"""Generators shared by the scenarios."""
from fractions import Fraction
import numpy as np
from attotime import attodatetime, attotimedelta
from resistics import sampling as S

# sampling frequencies whose period is represented exactly by to_timedelta
FS = [1.0, 2.0, 4.0, 5.0, 8.0, 10.0, 16.0, 20.0, 25.0, 32.0, 40.0, 50.0, 64.0, 100.0, 128.0, 125.0, 200.0, 250.0, 256.0, 500.0, 512.0, 1000.0,
      1024.0, 2048.0, 4096.0, 8192.0, 16384.0, 65536.0, 0.5, 0.25, 0.125, 0.1, 0.2, 0.01, 0.0625, 0.03125]
STARTS = ["2021-01-01 00:00:00", "2020-02-29 23:59:59", "2021-06-30 12:34:56.789", "1999-12-31 23:59:59.999999", "2021-01-01 00:00:00.000244140625"]


def to_atto(fr):
    """a whole number of attoseconds, exactly, as a timedelta."""
    fr = Fraction(fr)
    a = fr * 10 ** 18
    neg = a < 0
    a = abs(int(round(a)))
    s, r = divmod(a, 10 ** 18)
    us, r = divmod(r, 10 ** 12)
    ns, _as = divmod(r, 10 ** 9)
    from decimal import Decimal
    td = attotimedelta(days=int(s // 86400), seconds=int(s % 86400), microseconds=int(us), nanoseconds=Decimal(int(ns)) + Decimal(int(_as)) / 10 ** 9)
    return -td if neg else td


def at(F, fr):
    return F + to_atto(fr)


def start(rng):
    return S.to_datetime(rng.choice(STARTS))


def recording(rng, nmax=4000):
    fs = rng.choice(FS)
    n = rng.choice([1, 2, 3, 10, rng.randrange(1, nmax)])
    return fs, start(rng), n, 1 / Fraction(str(fs))


def secs(td):
    """seconds of a timedelta, exactly."""
    from decimal import Decimal
    d = td.days * 86400 + td.seconds
    return Fraction(d) + Fraction(td.microseconds, 10 ** 6) + Fraction(Decimal(str(td.nanoseconds))) / 10 ** 9


def near_grid(rng):
    return rng.choice([0, Fraction(1, 3), Fraction(1, 2), Fraction(9, 10)])


CHANS = ["Ex", "Ey", "Hx", "Hy", "Hz", "E1", "Bx", "By", "chanA", "zz", "A b"]


def record(rng, name="earlier"):
    from resistics.common import get_record
    return get_record({"name": name, "a": rng.randrange(10)}, [f"message {rng.randrange(100)}"])


def chan_metadata(rng, chan):
    from resistics.time import ChanMetadata
    from resistics.common import get_chan_type
    try:
        typ = get_chan_type(chan) if rng.random() < 0.7 else rng.choice(["electric", "magnetic"])
    except ValueError:
        typ = rng.choice(["electric", "magnetic", "unknown"])
    return ChanMetadata(name=chan, chan_type=typ, sensor=rng.choice(["", "MFS06", "LEMI"]), serial=str(rng.randrange(300)), gain1=rng.choice([1, 2.5]),
                        scaling=rng.choice([1, 0.5]), chopper=rng.random() < 0.5, dipole_dist=rng.choice([1, 60.5]), data_files=["a.npy"])


def chans(rng, lo=1, hi=5):
    return rng.sample(CHANS, rng.randrange(lo, hi + 1))


def time_metadata(rng, n=None, fs=None, first=None, cs=None, exact=True):
    from resistics.time import TimeMetadata
    from resistics.common import History
    cs = chans(rng) if cs is None else cs
    fs = rng.choice(FS) if fs is None else fs
    n = rng.choice([1, 2, 3, 5, 17, 64, 100]) if n is None else n
    first = start(rng) if first is None else first
    period = 1 / Fraction(str(fs))
    return TimeMetadata(fs=fs, chans=cs, n_chans=len(cs), n_samples=n, first_time=first, last_time=at(first, period * (n - 1)),
                        system=rng.choice(["", "ADU"]), serial=rng.choice(["", "17"]), wgs84_latitude=rng.choice([-999.0, 51.25]), wgs84_longitude=rng.choice([-999.0, 3.5]),
                        easting=rng.choice([-999.0, 10.0]), northing=rng.choice([-999.0, 20.0]), elevation=rng.choice([-999.0, 105.5]),
                        chans_metadata={c: chan_metadata(rng, c) for c in rng.sample(cs, len(cs))},
                        history=History(records=[record(rng) for _ in range(rng.randrange(3))]))


def time_data(rng, n=None, fs=None, dtype=None, nan=0.0, first=None, cs=None, scale=10.0):
    from resistics.time import TimeData
    m = time_metadata(rng, n, fs, first, cs)
    dtype = rng.choice([np.float32, np.float64]) if dtype is None else dtype
    data = np.random.normal(rng.choice([0, 5, -100]), scale, size=(len(m.chans), m.n_samples)).astype(dtype)
    if nan:
        data[np.random.random(data.shape) < nan] = np.nan
    return TimeData(m, data)


def describe(td):
    m = td.metadata
    return f"chans={m.chans} fs={m.fs} n={m.n_samples} first={str(m.first_time)} dtype={td.data.dtype}"
