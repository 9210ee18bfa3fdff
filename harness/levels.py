"""Decimated, windowed and spectra data built directly (not through the stages)."""
from gen import *


def common_meta(rng, cs=None):
    tm = time_metadata(rng, cs=cs)
    d = tm.dict()
    for k in ("n_samples", "fs", "file_info"):
        d.pop(k, None)
    return d


def level_table(rng, n_levels=None, nmin=1, nmax=400, F=None, whole=True):
    """fs, n_samples, first_time for the levels: each level starts with the first and has a
    rate that divides the previous one."""
    from resistics.decimate import DecimatedLevelMetadata
    n_levels = rng.randrange(1, 4) if n_levels is None else n_levels
    fs = Fraction(str(rng.choice([64.0, 128.0, 100.0, 50.0, 10.0, 16.0, 1.0, 200.0, 0.5, 256.0])))
    n = rng.randrange(nmin, nmax)
    F = start(rng) if F is None else F
    out = []
    for lv in range(n_levels):
        out.append(DecimatedLevelMetadata(fs=float(fs), n_samples=n, first_time=F, last_time=at(F, (n - 1) / fs)))
        f = rng.choice([1, 2, 4, 5]) if lv or True else 1
        fs, n = fs / f, max(nmin, -(-n // f))
    return out


def decimated(rng, **kw):
    from resistics.decimate import DecimatedMetadata, DecimatedData
    cs = kw.pop("cs", None)
    lm = level_table(rng, **kw)
    d = common_meta(rng, cs)
    d.update(fs=[x.fs for x in lm], n_levels=len(lm), levels_metadata=lm, first_time=lm[0].first_time, last_time=lm[0].last_time)
    m = DecimatedMetadata(**d)
    dt = rng.choice([np.float32, np.float64])
    return DecimatedData(m, {i: np.random.normal(0, 3, size=(len(m.chans), x.n_samples)).astype(dt) for i, x in enumerate(lm)})


def windowed(rng, n_levels=None, cs=None, nw=None, dtype=None):
    from resistics.window import WindowedMetadata, WindowedLevelMetadata, WindowedData
    d = common_meta(rng, cs)
    n_levels = rng.randrange(1, 4) if n_levels is None else n_levels
    lm, fs = [], rng.choice([64.0, 128.0, 100.0, 50.0])
    for _ in range(n_levels):
        ws = rng.randrange(4, 40)
        lm.append(WindowedLevelMetadata(fs=fs, n_wins=rng.randrange(1, 8) if nw is None else nw, win_size=ws, olap_size=rng.randrange(1, ws), index_offset=rng.randrange(0, 50)))
        fs = fs / rng.choice([2, 4])
    d.update(fs=[x.fs for x in lm], n_levels=n_levels, levels_metadata=lm, ref_time=at(d["first_time"], -rng.randrange(100)))
    m = WindowedMetadata(**d)
    dt = rng.choice([np.float32, np.float64]) if dtype is None else dtype
    data = {i: np.random.normal(0, 3, size=(x.n_wins, len(m.chans), x.win_size)).astype(dt) for i, x in enumerate(lm)}
    return WindowedData(m, data)


def spectra(rng, n_levels=None, cs=None, n_freqs=None, fs=None, nw=None, offsets=None, freqs=None, history=None):
    from resistics.spectra import SpectraMetadata, SpectraLevelMetadata, SpectraData
    d = common_meta(rng, cs)
    n_levels = rng.randrange(1, 4) if n_levels is None else n_levels
    lm, f = [], fs or rng.choice([64.0, 128.0, 100.0, 50.0])
    for lv in range(n_levels):
        ws = rng.randrange(8, 40)
        nf = n_freqs or rng.randrange(2, 12)
        fr = freqs[lv] if freqs is not None else [float(x) for x in np.linspace(0, f / 2, nf)]
        lm.append(SpectraLevelMetadata(fs=f, n_wins=nw[lv] if nw is not None else rng.randrange(1, 8), win_size=ws, olap_size=rng.randrange(1, ws),
                                       index_offset=offsets[lv] if offsets is not None else rng.randrange(0, 50), n_freqs=len(fr), freqs=fr))
        f = f / rng.choice([2, 4])
    d.update(fs=[x.fs for x in lm], n_levels=n_levels, levels_metadata=lm, ref_time=at(d["first_time"], -rng.randrange(100)))
    m = SpectraMetadata(**d)
    data = {}
    for i, x in enumerate(lm):
        sh = (x.n_wins, len(m.chans), x.n_freqs)
        data[i] = np.random.normal(0, 3, size=sh) + 1j * np.random.normal(0, 3, size=sh)
    return SpectraData(m, data)


def carried(a, b, what):
    """channels, position, times and channel metadata of the input are kept."""
    for k in ("chans", "n_chans", "first_time", "last_time", "system", "serial", "wgs84_latitude", "wgs84_longitude", "easting", "northing", "elevation", "chans_metadata"):
        x, y = getattr(a, k), getattr(b, k)
        if k == "chans_metadata":
            x, y = {c: m.dict() for c, m in x.items()}, {c: m.dict() for c, m in y.items()}
        if x != y:
            from common import Broken
            raise Broken(f"{what}: {k} is {y!r}, input has {x!r}")


def one_record(a, b, name, what):
    """history is that of the input followed by one record naming the process."""
    from common import Broken
    ra, rb = [r.dict() for r in a.history.records], [r.dict() for r in b.history.records]
    if rb[:-1] != ra or len(rb) != len(ra) + 1:
        raise Broken(f"{what}: history has {len(rb)} records, input had {len(ra)}" + ("" if len(rb) != len(ra) + 1 else ", earlier records differ"))
    if rb[-1]["creator"].get("name") != name:
        raise Broken(f"{what}: last record names {rb[-1]['creator'].get('name')!r}")
