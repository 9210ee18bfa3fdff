from objs import *

W = lambda: mod("window")
S = lambda: mod("sampling")
FN = "resistics.window."
BIG = 10 ** 14          # sample periods: beyond that double precision does not tell samples apart


def whole(x):
    """the integer equal to x, None unless x is an integer polynomial of integers."""
    x = num(x)
    return SNum(x.p, "int") if N.p_is_intform(x.p) else None


@contract("C12", "windows of times on the grid", [FN + "datetime_to_win"])
def number_of_window():
    u, ref = pos_real("unit"), instant("ref")
    m, s = sint("m"), nat("s", 1)
    require(m < BIG)
    t = times.attodatetime.of(ref.t + num(m) * u)
    inc = times.attotimedelta.of(num(s) * u)
    method = "floor" if decide(sbool("floor")) else "ceil"
    r = attempt(W().datetime_to_win, ref, t, inc, method=method)
    if decide(m < 0):
        cover("before")
        must_fail(r, ValueError, "a time before the reference time is refused")
        return
    ensure(r.ok, "a time on the grid has a window")
    if not r.ok:
        return
    cover("window")
    q = num(r.value)
    ensure(q.kind == "int", "window numbers are integers")
    if method == "floor":
        ensure(And(q * s <= m, m < (q + 1) * s), "the last window starting at or before the time")
    else:
        ensure(And((q - 1) * s < m, m <= q * s), "the first window starting at or after the time")


@contract("C12", "samples of whole periods", ["resistics.sampling.to_n_samples", "resistics.sampling.to_seconds"])
def samples():
    fs_, k = pos_real("fs"), nat("k")
    r = attempt(S().to_n_samples, times.attotimedelta.of(num(k) / fs_), fs_, method="floor")
    ensure(r.ok and num(r.value).kind == "int", "there is a number of samples")
    if r.ok:
        ensure(num(r.value) == k + 1, "of a duration of whole sample periods")
        cover("samples")


def grid(fs_):
    """the functions above are met through their contracts (and through their bodies elsewhere)."""
    to_win, to_n = W().datetime_to_win, S().to_n_samples

    def datetime_to_win(ref_time, time, increment, method="round"):
        m, s = whole((time - ref_time).d * fs_), whole(increment.d * fs_)
        if method not in ("floor", "ceil") or m is None or s is None or not eng.valid(And(s >= 1, m < BIG)):
            return to_win(ref_time, time, increment, method)
        if decide(m < 0):
            raise model_exc(ValueError("time before the reference time"))
        q = sint(method)
        require(And(q * s <= m, m < (q + 1) * s, q >= 0) if method == "floor" else And((q - 1) * s < m, m <= q * s, q >= 0))
        return q

    def to_n_samples(delta, fs, method="round"):
        k = whole(delta.d * fs)
        if method != "floor" or k is None or not eng.valid(k >= 0, quick=False):
            return to_n(delta, fs, method)
        return k + 1
    callee("window", "datetime_to_win", datetime_to_win)
    callee("sampling", "to_n_samples", to_n_samples)


def level(whole_ns=False):
    """a level whose offset from the reference time is d whole sample periods."""
    fs_, F = pos_real("fs"), instant("F")
    require(period_exact(fs_))
    if whole_ns:
        p, f = sint("period_ns"), sint("first_ns")
        require(p * const(Fraction(1, 10 ** 9)) * fs_ == 1, F.t * 10 ** 9 == f, p > 0)
        F = times.attodatetime.of(f * const(Fraction(1, 10 ** 9)))
        fs_ = const(10 ** 9) / p
    n, d = nat("n", 1), sint("d")
    s, o = nat("step", 1), nat("olap")
    w = s + o
    require(num(d + n) < BIG, fs_ <= 10 ** 9)
    ref = times.attodatetime.of(F.t - num(d) / fs_)
    last = times.attodatetime.of(F.t + num(n - 1) / fs_)
    md = build(mod("decimate").DecimatedLevelMetadata, fs=fs_, n_samples=n, first_time=F, last_time=last)
    grid(fs_)
    return fs_, F, n, d, s, w, o, ref, md


TABLE = [FN + f for f in ("get_win_table", "get_first_and_last_win", "win_to_datetime", "win_duration", "inc_duration")]


@contract("C12", "window table", TABLE, budget=200)
def table():
    fs_, F, n, d, s, w, o, ref, md = level()
    pre = mark()
    ends = []
    first_and_last = getattr(W(), "get_first_and_last_win", None)
    if first_and_last is not None:      # its result, for the lemma below
        def noted(*a, **k):
            r = first_and_last(*a, **k)
            ends[:] = [r]
            return r
        W().get_first_and_last_win = noted
    r = attempt(W().get_win_table, ref, md, w, o)
    if decide(d < 0):
        cover("refused")
        must_fail(r, ValueError, "a reference time after the first sample is refused")
        return
    ensure(r.ok, "a table is made")
    if not r.ok:
        return
    t = r.value
    cover("table")
    rows = t.index.n
    g, l, a, b = (t[c].arr for c in ("global", "local", "from_sample", "to_sample"))

    def row(i):
        ensure(l.at(i) == i, "local number is the position")
        ensure(g.at(i) == g.at(0) + i, "in order and each once")
        ensure(a.at(i) == g.at(i) * s - d, "first sample of the window")
        ensure(b.at(i) == a.at(i) + w - 1, "last sample of the window")
        ensure(And(0 <= a.at(i), b.at(i) <= n - 1), "within the data")
    ensure_forall(rows, row, "rows")
    x = sint("x")
    require(x * s >= d, x * s + w - 1 <= d + n - 1)
    if ends:
        first, last = ends[0]
        lemma(Implies(x < first, (first - 1 - x) * s >= 0), "products of the window size")
        lemma(Implies(x > last, (x - last - 1) * s >= 0), "products of the window size")
        lemma(x >= first, "not before the first window")
        lemma(x <= last, "not after the last window")
    ensure(And(rows >= 1, g.at(0) <= x, x < g.at(0) + rows), "every window within the data is listed")
    unchanged(pre, "the metadata is unchanged")


@contract("C12", "times of windows", TABLE + [FN + "get_win_ends", "resistics.sampling.datetime_array_estimate"])
def table_times():
    fs_, F, n, d, s, w, o, ref, md = level(True)
    require(d >= 0)
    r = attempt(W().get_win_table, ref, md, w, o)
    ensure(r.ok, "a table is made")
    if not r.ok:
        return
    t = r.value
    cover("times")
    time = lambda k: times.attodatetime.of(F.t + num(k) / fs_)
    ensure_cells(t["win_start"].arr, lambda i: time(t["from_sample"].arr.at(i)), "start time is the time of the first sample")
    ensure_cells(t["win_end"].arr, lambda i: time(t["to_sample"].arr.at(i)), "end time is the time of the last sample")
