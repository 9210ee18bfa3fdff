from objs import *


@contract("C07", "InterpolateNans", ["resistics.time.InterpolateNans.run", "resistics.time.InterpolateNans._interpolate_nans"], budget=120)
def interpolate():
    T = mod("time")
    td = time_data(nan=True)
    x = td.data.copy()
    n = x.shape[1]
    c, j = sint("c"), sint("j")
    require(And(0 <= c, c < x.shape[0], 0 <= j, j < n))
    isnan = lambda i: numpy_.isnan_s(x.at(c, i))
    # this channel has a sample that is not NaN
    w = sint("w")
    require(And(0 <= w, w < n, Not(isnan(w))))
    a, b = sint("a"), sint("b")
    hint(a, b)
    o = attempt(T.InterpolateNans().run, td)
    if not o.ok:
        cover("refused")      # another channel holds nothing but NaN
        return
    y = o.value.data
    ensure(And(num(y.shape[0]) == x.shape[0], num(y.shape[1]) == n), "same shape")
    v = y.at(c, j)
    if not decide(isnan(j)):
        cover("kept")
        ensure(cell_eq(v, x.at(c, j)), "samples that are not NaN are unchanged")
        return
    ensure(Not(numpy_.isnan_s(v)), "no NaN is left")
    none = lambda lo, hi: require_forall(hi, lambda q: isnan(q), lo=lo)
    case = sint("case")
    val = lambda i: SNum(x.at(c, i).p, "real")
    v = SNum(num(v).p, "real")
    if decide(case == 0):
        require(And(0 <= a, a < j, j < b, b < n, Not(isnan(a)), Not(isnan(b))))
        none(a + 1, b)
        feasible()
        cover("between")
        ensure((v - val(a)) * (b - a) == (val(b) - val(a)) * (j - a), "NaN between two samples is their linear interpolation")
    elif decide(case == 1):
        require(And(j < b, b < n, Not(isnan(b))))
        none(0, b)
        feasible()
        cover("start")
        ensure(v == val(b), "NaN before the first sample takes the first sample")
    else:
        require(And(0 <= a, a < j, Not(isnan(a))))
        none(a + 1, n)
        feasible()
        cover("end")
        ensure(v == val(a), "NaN after the last sample takes the last sample")


@contract("C07", "ShiftTimestamps", ["resistics.time.ShiftTimestamps.run"])
def shift():
    T = mod("time")
    td = time_data(n=nat("n", 2))
    x = td.data.copy()
    fs, n = td.metadata.fs, x.shape[1]
    s = pos_real("shift")
    o = attempt(T.ShiftTimestamps(shift=s).run, td)
    if decide(s * fs >= 1):
        cover("refused")
        must_fail(o, mod("errors").ProcessRunError, "a shift of a sample period or more is refused")
        return
    ensure(o.ok, "a smaller shift is accepted")
    if not o.ok:
        return
    cover("shifted")
    y = o.value.data
    ensure(And(num(y.shape[0]) == x.shape[0], num(y.shape[1]) == n - 1), "one sample fewer")
    ensure_cells(y, lambda c, j: x.at(c, j) + (x.at(c, j + 1) - x.at(c, j)) * s * fs, "linear interpolation of the two neighbours at fraction shift*fs")
