from objs import *
from stages import method
from pyvc.libs import pandas_

W = lambda: mod("window")
FN = "resistics.window."
I, R = z3.IntSort(), z3.RealSort()


class Tables:
    """get_win_table met through its contract (proved for C12): any number of windows, first window and
    first sample which are functions of the arguments, every window within the level's data."""
    def __init__(self):
        sig = [R, R, R, I, R, I, I]
        self.rows, self.first, self.sample = (eng.fresh_fn(n, sig, I) for n in ("rows", "first_win", "first_sample"))
        z = [z3.RealVal(0), z3.RealVal(0), z3.RealVal(0), z3.IntVal(0), z3.RealVal(0), z3.IntVal(0), z3.IntVal(0)]
        self.z = z
        eng.fn_axioms[self.rows(*z).decl().name()] = self.facts
        W().get_win_table = self.table

    def args(self, ref, md, w, o):
        return [ref.t.zr, num(md.fs).zr, md.first_time.t.zr, iz(md.n_samples), md.last_time.t.zr, iz(w), iz(o)]

    def facts(self, t):
        a = [t.arg(i) for i in range(7)]
        n, w, o = a[3], a[5], a[6]
        f = self.sample(*a)
        return [t >= 0, z3.Implies(t >= 1, z3.And(f >= 0, f + (t - 1) * (w - o) + w <= n))]

    def of(self, ref, md, w, o):
        a = self.args(ref, md, w, o)
        return tuple(SNum.atom(f(*a), "int") for f in (self.rows, self.first, self.sample))

    def table(self, ref_time, metadata, win_size, olap_size):
        n, g, f = self.of(ref_time, metadata, win_size, olap_size)
        s = num(win_size) - olap_size
        at = lambda k: times.Timestamp.of(metadata.first_time.t + num(k) / metadata.fs)
        eng.trust("first and last sample of a window from the table's first sample (C12)")
        col = lambda fn: NDArray.make((n,), A.I64, fn)
        tm = lambda fn: NDArray.make((n,), A.DT64, lambda i: at(fn(i)))
        a, b = (lambda i: f + num(i) * s), (lambda i: f + num(i) * s + num(win_size) - 1)
        return pandas_.DataFrame(PDict([("global", col(lambda i: g + num(i))), ("local", col(lambda i: num(i))), ("from_sample", col(a)),
                                        ("to_sample", col(b)), ("win_start", tm(a)), ("win_end", tm(b))]))


def params(nl):
    mn = nat("min_n_wins", 1)
    ws, st = per_level("pws", nl, "int", 1), per_level("pst", nl, "int", 1)
    # sizes of windows above their overlap
    ol = per_level("pol", nl, "int", 1)
    wsize = lambda l: ol(l) + st(l)
    return build(W().WindowParameters, n_levels=nl, min_n_wins=mn, win_sizes=PList.sym(nl, wsize), olap_sizes=PList.sym(nl, ol)), wsize, ol, mn


def windowing(make, sizes):
    dd = decimated_data()
    md = dd.metadata
    nl, nc, lm = md.n_levels, md.n_chans, PList(md.levels_metadata)
    ref = instant("ref")
    tabs = Tables()
    wp, wsize, ol, mn = params(nat("n_par"))
    p, wsize, ol = make(nl, lm, wp, wsize, ol)
    n = lambda l: tabs.of(ref, lm.get(l), wsize(l), ol(l))[0]
    require(num(n(0)) >= mn)            # at least one level is windowed
    pre = mark()
    r = attempt(p.run, ref, wp, dd)
    ensure(r.ok, "windowed")
    if not r.ok:
        return
    cover("windowed")
    out = r.value
    om = PList(out.metadata.levels_metadata)
    unchanged(pre, "the data, the parameters and the process unchanged")
    L = om.n
    ensure(And(1 <= L, L <= nl, num(out.metadata.n_levels) == L, PList(out.metadata.fs).n == L), "one entry per windowed level")
    ensure(out.metadata.ref_time == ref, "the reference time is the one used")
    l = sint("l")
    stop(L, nl, n, mn, out)
    branches(lambda: level(dd, out, lm, om, L, nc, l, tabs, ref, wsize, ol, n, mn))


def stop(L, nl, n, mn, out):
    if decide(L < nl):
        ensure(num(n(L)) < mn, "windowing stops at a level with too few windows")
    ensure(out.data.lookup(L) is V.MISSING, "no data beyond the levels")


def level(dd, out, lm, om, L, nc, l, tabs, ref, wsize, ol, n, mn):
    require(0 <= l, l < L)
    a, b = lm.get(l), om.get(l)
    rows, g, f = tabs.of(ref, a, wsize(l), ol(l))
    ensure(rows >= mn, "and not before")
    ensure(And(num(b.fs) == a.fs, num(b.n_wins) == rows, num(b.win_size) == wsize(l), num(b.olap_size) == ol(l)), "metadata of the level")
    ensure(num(b.index_offset) == g, "offset of the global window numbers")
    ensure(num(PList(out.metadata.fs).get(l)) == a.fs, "sampling frequency of the level")
    x, y = dd.data.lookup(l), out.data.lookup(l)
    ensure(y is not V.MISSING, "data of every level")
    s = num(wsize(l)) - ol(l)
    ensure(And(num(y.shape[0]) == rows, num(y.shape[1]) == nc, num(y.shape[2]) == wsize(l)), "every window, channel and sample")
    ensure_cells(y, lambda i, c, j: x.at(c, f + num(i) * s + j), "samples of the window from the level's data")


@contract("C13", "windowing with given sizes", [FN + "Windower." + f for f in ("run", "_get_level_data", "_get_level_metadata", "_get_metadata")])
def windower():
    def make(nl, lm, wp, ws, ol):
        require(wp.n_levels >= nl)
        return W().Windower(), ws, ol
    windowing(make, None)


def size_for(n, tg, ms, pr):
    """target windows in n samples, but at least the minimum size."""
    size = N.floor(num(n) / ((1 - pr) * tg))
    return Ite(size < ms, ms, size)


def target_params():
    tg, ms, pr = nat("target", 1), nat("min_size", 1), sreal("olap_proportion")
    require(And(0 <= pr, pr < 1))
    return tg, ms, pr, build(W().WindowerTarget, name="WindowerTarget", target=tg, min_size=ms, olap_proportion=pr)


@contract("C13", "size for a target number", [FN + "WindowerTarget._get_win_size"])
def target_size():
    tg, ms, pr, p = target_params()
    n = nat("n", 1)
    md = build(mod("decimate").DecimatedLevelMetadata, fs=pos_real("fs"), n_samples=n, first_time=instant("F"), last_time=instant("L"))
    r = attempt(p._get_win_size, md)
    ensure(r.ok and num(r.value).kind == "int", "there is a size")
    if r.ok:
        cover("size")
        ensure(num(r.value) == size_for(n, tg, ms, pr), "for about the target number of windows, at least the minimum size")


def sizes_met():
    """_get_win_size met through its contract: a positive number determined by the number of samples."""
    size = eng.fresh_fn("size>=1", [I], I)
    eng.fn_axioms[size(z3.IntVal(0)).decl().name()] = lambda t: [t >= 1]
    method(W().WindowerTarget, "_get_win_size", lambda self, md: SNum.atom(size(iz(md.n_samples)), "int"))
    return lambda n: SNum.atom(size(iz(n)), "int")


@contract("C13", "windowing with a target number", [FN + "WindowerTarget.run"] + [FN + "Windower." + f for f in ("_get_level_data", "_get_level_metadata", "_get_metadata")])
def target():
    tg, ms, pr, p = target_params()
    size = sizes_met()

    def make(nl, lm, wp, ws, ol):
        ws = lambda l: size(lm.get(l).n_samples)
        ol = lambda l: N.floor(pr * ws(l))
        require_forall(nl, lambda l: ol(l) >= 1)
        return p, ws, ol
    windowing(make, None)


def accessor(name, call):
    wd = windowed_data()
    nl, nc, lm, chans = wd.metadata.n_levels, wd.metadata.n_chans, PList(wd.metadata.levels_metadata), PList(wd.metadata.chans)
    l = sint("l")
    require(0 <= l)
    arg, inside, exc, want = call(wd, lm, chans, nc, nl, l)
    pre = mark()
    r = attempt(getattr(wd, name), l, *arg)
    unchanged(pre, "asking changes nothing")
    if decide(l >= nl):
        cover("level")
        ensure(not r.ok, "levels outside the data are refused")
        return
    if not decide(inside(l)):
        cover("refused")
        must_fail(r, exc, "numbers and names outside the data are refused")
        return
    ensure(r.ok, "what is in the data is given")
    if r.ok:
        cover("given")
        x = wd.data.lookup(l)
        w = want(l)
        ensure(len(r.value.shape) == len(w[0]) and And(*[num(a) == b for a, b in zip(r.value.shape, w[0])]), "of the size")
        ensure_cells(r.value, lambda *ix: x.at(*w[1](*ix)), "exactly the data asked for")


def by_number(wd, lm, chans, nc, nl, l, off):
    w = sint("w")
    i = lambda l: w - lm.get(l).index_offset if off else num(w)
    return (w,), lambda l: And(0 <= i(l), i(l) < lm.get(l).n_wins), ValueError, lambda l: ((nc, lm.get(l).win_size), lambda c, j: (i(l), c, j))


def by_name(wd, lm, chans, nc, nl, l):
    x = sstr("name")
    i = chans.find(x)
    known = i is not None
    return (x,), lambda l: known, mod("errors").ChannelNotFoundError, lambda l: ((lm.get(l).n_wins, lm.get(l).win_size), lambda w, j: (w, i, j))


def whole_level(wd, lm, chans, nc, nl, l):
    return (), lambda l: True, ValueError, lambda l: ((lm.get(l).n_wins, nc, lm.get(l).win_size), lambda w, c, j: (w, c, j))


D = "WindowedData."
contract("C13", "windows by local number", [FN + D + "get_local", FN + D + "get_level"])(lambda: accessor("get_local", lambda *a: by_number(*a, False)))
contract("C13", "windows by global number", [FN + D + "get_global", FN + D + "get_local"])(lambda: accessor("get_global", lambda *a: by_number(*a, True)))
contract("C13", "channels by name", [FN + D + "get_chan"])(lambda: accessor("get_chan", by_name))
contract("C13", "levels", [FN + D + "get_level"])(lambda: accessor("get_level", whole_level))
