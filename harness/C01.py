from common import *
from fractions import Fraction
from gen import *
from resistics import sampling as S


@scenario(weight=4)
def conversion(rng):
    fs, F, n, period = recording(rng)
    L = at(F, Fraction(n - 1) * period)
    j = rng.choice([-3, -1, 0, 1, n // 2, n - 2, n - 1, n, n + 3, rng.randrange(n)])
    off = rng.choice([Fraction(0), period / 2, period / 3, -period / 3, period * Fraction(9, 10), Fraction(1, 10 ** 9), -Fraction(1, 10 ** 9)])
    q = Fraction(j) * period + off
    x = q / period
    if x > 0 and x != round(x) and abs(x - round(x)) < Fraction(2, 10 ** 14) * (x + 1):
        raise Skip()   # not resolved by double precision
    note(fs=fs, first=str(F), n=n, query_offset_s=str(q), query_in_samples=str(q / period))
    qt = at(F, q)
    last = (n - 1) * period
    if q > last:
        refused("from time after the last sample", ValueError, S.from_time_to_sample, fs, F, L, qt)
    else:
        k = S.from_time_to_sample(fs, F, L, qt)
        e = 0 if q <= 0 else -((-q) // period)
        same(int(k), int(e), "from time to sample")
    if q < 0:
        refused("to time before the first sample", ValueError, S.to_time_to_sample, fs, F, L, qt)
    else:
        k = S.to_time_to_sample(fs, F, L, qt)
        e = n - 1 if q >= last else q // period
        same(int(k), int(e), "to time to sample")


@scenario()
def own_time(rng):
    fs, F, n, period = recording(rng)
    L = at(F, Fraction(n - 1) * period)
    k = rng.choice([0, n - 1, rng.randrange(n)])
    t = S.sample_to_datetime(fs, F, k)
    note(fs=fs, first=str(F), n=n, sample=k, time=str(t))
    same(int(S.from_time_to_sample(fs, F, L, t)), k, "own time as from time")
    same(int(S.to_time_to_sample(fs, F, L, t)), k, "own time as to time")


@scenario()
def pair(rng):
    fs, F, n, period = recording(rng)
    L = at(F, Fraction(n - 1) * period)
    a, b = rng.randrange(-2, n + 2), rng.randrange(-2, n + 2)
    a, b = a * period + rng.choice([0, period / 4]), b * period + rng.choice([0, period / 4])
    note(fs=fs, first=str(F), n=n, from_offset_s=str(a), to_offset_s=str(b))
    last = (n - 1) * period
    if a > last or b < 0:
        refused("range outside the recording", ValueError, S.datetimes_to_samples, fs, F, L, at(F, a), at(F, b))
        return
    x, y = S.datetimes_to_samples(fs, F, L, at(F, a), at(F, b))
    same(int(x), int(0 if a <= 0 else -((-a) // period)), "first sample")
    same(int(y), int(n - 1 if b >= last else b // period), "last sample")
