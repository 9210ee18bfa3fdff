from pyvc.spec import *


def setup():
    S = mod("sampling")
    fs = pos_real("fs")
    F = instant("F")
    n = nat("n", 1)
    L = times.attodatetime.of(F.t + num(n - 1) / fs)
    return S, fs, F, n, L


def resolved(t, F, fs):
    """double precision tells the instant from a sample unless it is one."""
    x = (t - F) * fs
    m = N.floor(x)
    tol = const(Fraction(1, 10 ** 14)) * (x + 1)
    return Or(x < 0, x == m, And(x - m > tol, m + 1 - x > tol))


@contract("C01", "from_time_to_sample", ["resistics.sampling.from_time_to_sample", "resistics.sampling.check_from_time",
                                         "resistics.sampling.to_n_samples", "resistics.sampling.to_seconds"])
def from_time():
    S, fs, F, n, L = setup()
    q = instant("q")
    require(resolved(q.t, F.t, fs))
    o = attempt(S.from_time_to_sample, fs, F, L, q)
    if decide(q.t > L.t):
        cover("after the end")
        must_fail(o, ValueError, "from time after the last sample is refused")
        return
    ensure(o.ok, "from time not after the last sample is accepted")
    if not o.ok:
        return
    k = o.value
    ensure(isinstance(k, (int, SNum)) and num(k).kind == "int", "result is an integer")
    ensure(And(0 <= k, k <= n - 1), "sample within the recording")
    if decide(q.t <= F.t):
        cover("clamped")
        ensure(num(k) == 0, "from time before the first sample is clamped to sample 0")
        return
    cover("inside")
    ensure(F.t + num(k) / fs >= q.t, "sample is not before the from time")
    ensure(F.t + num(k - 1) / fs < q.t, "previous sample is before the from time")


@contract("C01", "to_time_to_sample", ["resistics.sampling.to_time_to_sample", "resistics.sampling.check_to_time",
                                       "resistics.sampling.to_n_samples", "resistics.sampling.to_seconds"])
def to_time():
    S, fs, F, n, L = setup()
    q = instant("q")
    require(resolved(q.t, F.t, fs))
    o = attempt(S.to_time_to_sample, fs, F, L, q)
    if decide(q.t < F.t):
        cover("before the start")
        must_fail(o, ValueError, "to time before the first sample is refused")
        return
    ensure(o.ok, "to time not before the first sample is accepted")
    if not o.ok:
        return
    k = o.value
    ensure(isinstance(k, (int, SNum)) and num(k).kind == "int", "result is an integer")
    ensure(And(0 <= k, k <= n - 1), "sample within the recording")
    if decide(q.t >= L.t):
        cover("clamped")
        ensure(num(k) == n - 1, "to time after the last sample is clamped to the last sample")
        return
    cover("inside")
    ensure(F.t + num(k) / fs <= q.t, "sample is not after the to time")
    ensure(F.t + num(k + 1) / fs > q.t, "next sample is after the to time")


@contract("C01", "datetimes_to_samples", ["resistics.sampling.datetimes_to_samples"])
def both():
    S, fs, F, n, L = setup()
    a, b = instant("a"), instant("b")
    require(resolved(a.t, F.t, fs), resolved(b.t, F.t, fs))
    o = attempt(S.datetimes_to_samples, fs, F, L, a, b)
    x, y = attempt(S.from_time_to_sample, fs, F, L, a), attempt(S.to_time_to_sample, fs, F, L, b)
    ensure(o.ok == (x.ok and y.ok), "fails exactly when one of the conversions fails")
    if o.ok and x.ok and y.ok:
        cover("both")
        ensure(And(num(o.value[0]) == x.value, num(o.value[1]) == y.value), "pair of the two conversions")
    else:
        ensure(o.ok or o.raises(ValueError), "refused with ValueError")


@contract("C01", "own time", ["resistics.sampling.sample_to_datetime", "resistics.sampling.to_timedelta"])
def own():
    S, fs, F, n, L = setup()
    require(period_exact(fs))
    k = sint("k")
    require(And(0 <= k, k < n))
    t = S.sample_to_datetime(fs, F, k)
    ensure(num(S.from_time_to_sample(fs, F, L, t)) == k, "a sample's own time as from time gives the sample")
    ensure(num(S.to_time_to_sample(fs, F, L, t)) == k, "a sample's own time as to time gives the sample")
    cover("own")
