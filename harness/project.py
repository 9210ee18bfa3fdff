"""Projects built in memory, with evaluation-frequency data on disk."""
from common import *
import levels
from gen import *
from resistics import project as PR, time as T, spectra as P, decimate as D
from resistics.transfunc import TransferFunction


def measurement(rng, site_dir, site, name, fs, first=None, n=None, cs=None):
    m = time_metadata(rng, fs=fs, first=first, n=n, cs=cs)
    return PR.Measurement(site_name=site, dir_path=site_dir / name, metadata=m, reader=T.TimeReaderNumpy())


def build(rng, d, sites):
    """sites: name -> {measurement name -> fs}"""
    ss = {}
    for s, ms in sites.items():
        sd = d / "time" / s
        meas = {k: measurement(rng, sd, s, k, fs, first=at(start(rng), rng.randrange(0, 10000))) for k, fs in ms.items()}
        b = min([m.metadata.first_time for m in meas.values()]) if meas else S.to_datetime("2021-01-01")
        e = max([m.metadata.last_time for m in meas.values()]) if meas else S.to_datetime("2021-01-01")
        ss[s] = PR.Site(dir_path=sd, measurements=meas, begin_time=b, end_time=e)
    md = PR.ProjectMetadata(ref_time="2019-01-01 00:00:00")
    return PR.Project(dir_path=d, begin_time="2019-01-01", end_time="2022-01-01", metadata=md, sites=ss)


NAMES = ["alpha", "beta", "gamma", "delta"]
MEAS = ["meas1", "run_02", "2021-01-01", "x", "meas10"]


def with_evals(rng, d, config="default", n_sites=None, same_levels=False, overlap=0.5, cs=None):
    """project with evals stored for some measurements at rate fs; returns what is stored."""
    fs, per = rng.choice([64.0, 128.0]), rng.randrange(1, 4)
    cs = ["Ex", "Ey", "Hx", "Hy", "Hz"] if cs is None else cs
    names = rng.sample(NAMES, rng.randrange(1, 4) if n_sites is None else n_sites)
    sites, stored = {}, {}
    nl = rng.randrange(1, 4)
    for s in names:
        ms = {}
        for k in rng.sample(MEAS, rng.randrange(1, 4)):
            ms[k] = fs if rng.random() < 0.8 else 4096.0
        sites[s] = ms
    proj = build(rng, d, sites)
    for s, ms in sites.items():
        for k, f in ms.items():
            if rng.random() < 0.12:
                continue   # not processed
            n = rng.randrange(1, nl + 1)
            ev = [[fs / 4 / 2 ** ((l * per + i) / 2) for i in range(per)] for l in range(n)]
            offs = [rng.randrange(0, 14) for _ in range(n)]
            nw = [rng.randrange(1, 14) for _ in range(n)]
            sd = levels.spectra(rng, n_levels=n, fs=f, cs=rng.sample(cs, len(cs)), nw=nw, offsets=offs, freqs=ev)
            P.SpectraDataWriter().run(PR.get_meas_evals_path(d, s, k, config), sd)
            stored[s, k] = sd
    p = D.DecimationParameters(fs=fs, n_levels=nl, per_level=per, min_samples=1, eval_freqs=[fs / 4 / 2 ** (i / 2) for i in range(nl * per)], dec_factors=[2 ** i for i in range(nl)])
    have = {s: {k: stored[s, k] for k, f in ms.items() if f == fs and (s, k) in stored} for s, ms in sites.items()}
    return proj, p, have


def windows(sds, l):
    """measurement name -> set of global windows at the level."""
    out = {}
    for k, sd in sds.items():
        if l < sd.metadata.n_levels:
            x = sd.metadata.levels_metadata[l]
            out[k] = set(range(x.index_offset, x.index_offset + x.n_wins))
    return out


def describe_sites(have):
    return {s: {k: [(x.index_offset, x.n_wins) for x in sd.metadata.levels_metadata] for k, sd in ms.items()} for s, ms in have.items()}
