from common import *
import levels
from gen import *
from resistics import spectra as P
import scipy.signal as sg
import scipy.fft as sf

WINS = [("kaiser", 14), ("kaiser", 3.5), "hann", "hamming", "blackman", "boxcar", "dpss", ("tukey", 0.5)]


def taper(w, n):
    if w == "dpss":
        from scipy.signal.windows import dpss
        return dpss(n, 5)
    return sg.get_window(w, n)


def dft(x, N):
    """orthonormal real transform by definition."""
    n = np.arange(x.shape[-1])
    k = np.arange(N // 2 + 1)
    return x.astype(float) @ np.exp(-2j * np.pi * np.outer(n, k) / N) / np.sqrt(N)


@scenario(weight=3)
def fourier(rng):
    wd = levels.windowed(rng)
    w, d = rng.choice(WINS), rng.choice(["linear", "constant", None])
    note(fs=wd.metadata.fs, chans=wd.metadata.chans, sizes=[x.win_size for x in wd.metadata.levels_metadata], win_fnc=w, detrend=d)
    if w == "dpss" and min(x.win_size for x in wd.metadata.levels_metadata) <= 10:
        raise Skip()
    out = P.FourierTransform(win_fnc=w, detrend=d, workers=1).run(wd)
    m = out.metadata
    same([m.n_levels, m.fs, len(m.levels_metadata)], [wd.metadata.n_levels, wd.metadata.fs, wd.metadata.n_levels], "levels")
    same(sorted(out.data), list(range(m.n_levels)), "levels of the data")
    same(str(m.ref_time), str(wd.metadata.ref_time), "reference time")
    for l, x in enumerate(wd.metadata.levels_metadata):
        y = m.levels_metadata[l]
        same([y.fs, y.n_wins, y.win_size, y.olap_size, y.index_offset], [x.fs, x.n_wins, x.win_size, x.olap_size, x.index_offset], f"bookkeeping of level {l}")
        N = sf.next_fast_len(x.win_size, real=True)
        check(N >= x.win_size, "transform length")
        close(np.array(y.freqs), np.arange(N // 2 + 1) * x.fs / N, f"bin frequencies of level {l}", rtol=1e-12)
        same([y.n_freqs, out.data[l].shape], [len(y.freqs), (x.n_wins, len(m.chans), len(y.freqs))], f"shape of level {l}")
        t = taper(w, x.win_size)
        for i in range(x.n_wins):
            for c in range(len(m.chans)):
                v = wd.data[l][i, c].astype(float)
                if d == "constant":
                    v = v - v.mean()
                elif d == "linear":
                    a = np.vstack([np.arange(len(v)), np.ones(len(v))]).T
                    v = v - a @ np.linalg.lstsq(a, v, rcond=None)[0]
                close(out.data[l][i, c], dft(v * t, N), f"level {l} window {i} channel {c}", rtol=2e-5, scale=float(np.abs(wd.data[l][i, c]).max()) * np.sqrt(len(v)))


@scenario()
def defaults(rng):
    f = P.FourierTransform()
    note(win_fnc=str(f.win_fnc))
    same([f.win_fnc, f.detrend], [("kaiser", 14), "linear"], "defaults")


@scenario()
def independent(rng):
    """changing one window and channel changes nothing else."""
    wd = levels.windowed(rng, dtype=np.float64)
    l = rng.randrange(wd.metadata.n_levels)
    w, c = rng.randrange(wd.data[l].shape[0]), rng.randrange(wd.data[l].shape[1])
    note(level=l, window=w, channel=c, chans=wd.metadata.chans)
    f = P.FourierTransform(workers=1)
    a = f.run(wd)
    wd.data[l][w, c] = np.random.normal(0, 50, wd.data[l].shape[2])
    b = f.run(wd)
    for i in a.data:
        d = a.data[i] != b.data[i]
        if i == l:
            check(d[w, c].any(), "the changed one changes")
            d[w, c] = False
        check(not d.any(), f"other windows and channels unchanged at level {i}", where=np.argwhere(d)[:3].tolist())
