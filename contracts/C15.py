from objs import *

P = lambda: mod("spectra")
FN = "resistics.spectra.FourierTransform."


def expected(x, win_size, win, detrend):
    """orthonormal real transform of the detrended, tapered windows, padded to the next fast length."""
    d = x if detrend is None else science.detrend(x, axis=-1, type=detrend)
    t = science.dpss(win_size, 5) if win == "dpss" else science.get_window(win, win_size)
    y = NDArray.make(d.shape, A.F64, lambda w, c, j: num(d.at(w, c, j)) * t.at(j))
    return science.rfft(y, n=science.next_fast_len(win_size, real=True), axis=-1, norm="ortho")


def transform(win, detrend):
    wd = windowed_data()
    nl, nc, lm, chans = wd.metadata.n_levels, wd.metadata.n_chans, PList(wd.metadata.levels_metadata), wd.metadata.chans
    p = P().FourierTransform(win_fnc=win, detrend=detrend)
    m = mark()
    o = attempt(p.run, wd)
    ensure(o.ok, "transformed")
    if not o.ok:
        return
    cover("done")
    out = o.value
    unchanged(m, "windows and process unchanged")
    ensure(And(num(out.metadata.n_levels) == nl, out.metadata.n_chans == nc, out.metadata.ref_time == wd.metadata.ref_time), "levels, channels and reference time kept")
    ensure_list(PList(out.metadata.chans), nc, lambda i: PList(chans).get(i), "channels kept in order")
    om = PList(out.metadata.levels_metadata)
    ensure(And(om.n == nl, PList(out.metadata.fs).n == nl), "metadata of every level")
    l = sint("level")
    branches(lambda: level(wd, out, lm, om, nl, nc, l, win, detrend))


def level(wd, out, lm, om, nl, nc, l, win, detrend):
    require(0 <= l, l < nl)
    a, b = lm.get(l), om.get(l)
    ensure(And(*[num(getattr(b, k)) == getattr(a, k) for k in ("fs", "n_wins", "win_size", "olap_size", "index_offset")]), "bookkeeping of the level kept")
    ensure(num(PList(out.metadata.fs).get(l)) == PList(wd.metadata.fs).get(l), "sampling frequency of the level kept")
    x = wd.data.lookup(l)
    y = out.data.lookup(l)
    ensure(y is not V.MISSING, "data of every level")
    n = science.next_fast_len(a.win_size, real=True)
    nb = num(n) // 2 + 1
    ensure(And(num(b.n_freqs) == nb, PList(b.freqs).n == nb), "all bins up to Nyquist")
    ensure_forall(nb, lambda k: num(PList(b.freqs).get(k)) * n == num(k) * a.fs, "bin frequencies are k fs / transform length")
    ensure(And(num(y.shape[0]) == a.n_wins, num(y.shape[1]) == nc, num(y.shape[2]) == nb), "one spectrum per window and channel")
    ensure_same_array(y, expected(x, a.win_size, win, detrend), "spectrum of each window and channel")


for det in ("linear", "constant", None):
    contract("C15", f"transform, detrend {det}", [FN + f for f in ("run", "_get_level_data", "_get_window", "_get_level_metadata", "_get_metadata")])(
        lambda det=det: transform(("kaiser", 14), det))
contract("C15", "transform, dpss", [FN + "_get_window"])(lambda: transform("dpss", "linear"))
contract("C15", "transform, named taper", [FN + "_get_window"])(lambda: transform("hann", "linear"))


@contract("C15", "defaults", ["resistics.spectra.FourierTransform"])
def defaults():
    p = P().FourierTransform()
    ensure(And(p.detrend == "linear", p.win_fnc[0] == "kaiser", num(p.win_fnc[1]) == 14), "kaiser 14 and linear detrending")
