from objs import *

S = lambda: mod("sampling")
FN = "resistics.sampling."


def setup(whole_ns=False):
    fs_, F = pos_real("fs"), instant("F")
    require(period_exact(fs_))
    if whole_ns:
        p, f = sint("period_ns"), sint("first_ns")
        require(p * const(Fraction(1, 10 ** 9)) * fs_ == 1, F.t * 10 ** 9 == f)
        F = times.attodatetime.of(f * const(Fraction(1, 10 ** 9)))
        require(p > 0)
        fs_ = const(10 ** 9) / p
    return fs_, F


def at(F, fs_, k):
    return F.t + num(k) / fs_


@contract("C02", "sample_to_datetime", [FN + "sample_to_datetime", FN + "to_timedelta"])
def single():
    fs_, F = setup()
    k = sint("k")
    limited = decide(sbool("limited"))
    n = nat("n")
    o = attempt(S().sample_to_datetime, fs_, F, k, n) if limited else attempt(S().sample_to_datetime, fs_, F, k)
    if limited and decide(Or(k < 0, k >= n)):
        cover("outside")
        must_fail(o, ValueError, "a sample outside the given number is refused")
        return
    cover("inside")
    ensure(o.ok, "a sample inside has a time")
    if o.ok:
        ensure(o.value.t == at(F, fs_, k), "time of a sample")


@contract("C02", "samples_to_datetimes", [FN + "samples_to_datetimes"])
def pair():
    fs_, F = setup()
    a, b = sint("a"), sint("b")
    o = attempt(S().samples_to_datetimes, fs_, F, a, b)
    if decide(a >= b):
        must_fail(o, ValueError, "a pair not in order is refused")
        return
    cover("pair")
    ensure(o.ok, "a pair in order has times")
    if o.ok:
        ensure(o.value[0].t == at(F, fs_, a), "time of the first of a pair")
        ensure(o.value[1].t == at(F, fs_, b), "time of the second of a pair")


def both(make, name, n, F, fs_):
    """all samples, and chosen ones."""
    o = attempt(make)
    ensure(o.ok, name + " available")
    if o.ok:
        cover(name)
        ensure(num(o.value.shape[0]) == n, name + ": one per sample")
        ensure_cells(o.value, lambda i: times.attodatetime.of(at(F, fs_, i)), name)


def chosen(make, name, F, fs_):
    ks = int_array("ks", nat("n_ks"))
    require_forall(ks.n, lambda i: ks.at(i) >= 0)
    o = attempt(make, ks)
    ensure(o.ok, name + " available")
    if o.ok:
        cover(name)
        ensure(num(o.value.shape[0]) == ks.n, name + ": one per sample")
        ensure_cells(o.value, lambda i: times.attodatetime.of(at(F, fs_, ks.at(i))), name)


@contract("C02", "datetime_array", [FN + "datetime_array"])
def arrays():
    fs_, F = setup()
    n = nat("n")
    both(lambda: S().datetime_array(F, fs_, n_samples=n), "times of all samples", n, F, fs_)
    chosen(lambda ks: S().datetime_array(F, fs_, samples=ks), "times of chosen samples", F, fs_)
    must_fail(attempt(S().datetime_array, F, fs_), ValueError, "nothing asked refused")


@contract("C02", "datetime_array_estimate", [FN + "datetime_array_estimate"])
def estimates():
    fs_, F = setup(True)
    n = nat("n")
    both(lambda: S().datetime_array_estimate(F, fs_, n_samples=n), "estimated times of all samples", n, F, fs_)
    chosen(lambda ks: S().datetime_array_estimate(F, fs_, samples=ks), "estimated times of chosen samples", F, fs_)
    must_fail(attempt(S().datetime_array_estimate, F, fs_), ValueError, "nothing asked refused")


@contract("C02", "timestamps of time data", ["resistics.time.TimeData.get_timestamps"])
def of_time():
    est = decide(sbool("estimate"))
    fs_, F = setup(est)
    td = time_data(fs_=fs_, first=F)
    n = td.metadata.n_samples
    m = mark()
    both(lambda: td.get_timestamps(estimate=est), "timestamps of all samples", n, F, fs_)
    chosen(lambda ks: td.get_timestamps(samples=ks, estimate=est), "timestamps of chosen samples", F, fs_)
    unchanged(m, "asking changes nothing")


@contract("C02", "timestamps of decimated data", ["resistics.decimate.DecimatedData.get_timestamps"])
def of_level():
    est = decide(sbool("estimate"))
    nl = nat("n_levels", 1)
    fs_, F = setup(est)
    l, n = sint("level"), nat("n")
    dd = decimated_data(nl, at=(l, fs_, F, n))
    if decide(l >= nl):
        must_fail(attempt(dd.get_timestamps, l, estimate=est), ValueError, "levels beyond those present are refused")
        return
    require(l >= 0)
    feasible()
    m = mark()
    both(lambda: dd.get_timestamps(l, estimate=est), "timestamps of all samples of a level", n, F, fs_)
    chosen(lambda ks: dd.get_timestamps(l, samples=ks, estimate=est), "timestamps of chosen samples of a level", F, fs_)
    unchanged(m, "asking changes nothing")
