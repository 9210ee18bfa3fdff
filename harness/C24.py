from common import *
import project
from gen import *
from resistics import project as PR
from resistics.errors import SiteNotFoundError, MeasurementNotFoundError

RATES = [64.0, 128.0, 4096.0, 0.5]


def random_sites(rng):
    return {s: {k: rng.choice(RATES) for k in rng.sample(project.MEAS, rng.randrange(0, 5))} for s in rng.sample(project.NAMES, rng.randrange(0, 5))}


@scenario(weight=2)
def queries(rng):
    import pathlib
    sites = random_sites(rng)
    note(sites=sites)
    p = project.build(rng, pathlib.Path("/nowhere"), sites)
    same([p.n_sites, p.fs()], [len(sites), sorted({f for ms in sites.values() for f in ms.values()})], "sites and sampling frequencies")
    same([s.name for s in p], list(sites), "iteration")
    for f in RATES + [None, 7.0]:
        g = p.get_sites(f)
        same(sorted(g), sorted(s for s, ms in sites.items() if f is None or f in ms.values()), f"sites at {f}")
        for k, v in g.items():
            check(v is p.sites[k], "the site itself")
    for s, ms in sites.items():
        site = p[s]
        check(site is p.sites[s] and site.name == s and p.get_site(s) is site, "site by name")
        same([site.n_meas, site.fs()], [len(ms), sorted(set(ms.values()))], "measurements and sampling frequencies")
        same([m.name for m in site], list(ms), "iteration over measurements")
        for f in RATES + [None, 7.0]:
            g = site.get_measurements(f) if f is not None else site.get_measurements()
            same(sorted(g), sorted(k for k, v in ms.items() if f is None or v == f), f"measurements at {f}")
            for k, v in g.items():
                check(v is site.measurements[k], "the measurement itself")
        for k in ms:
            check(site[k] is site.measurements[k] and site[k].name == k and site.get_measurement(k) is site[k], "measurement by name")
        refused("unknown measurement", MeasurementNotFoundError, site.get_measurement, "nope")
    refused("unknown site", SiteNotFoundError, p.get_site, "nope")
    refused("unknown site", SiteNotFoundError, lambda: p["nope"])


@scenario(weight=2)
def concurrent(rng):
    import pathlib
    d = pathlib.Path("/nowhere")
    base = start(rng)
    names = project.NAMES[:rng.randrange(1, 5)]
    iv = {}
    for s in names:
        a = rng.randrange(0, 10)
        iv[s] = (a, a + rng.randrange(0, 6))
    note(intervals=iv)
    sites = {s: PR.Site(dir_path=d / "time" / s, measurements={}, begin_time=at(base, iv[s][0]), end_time=at(base, iv[s][1])) for s in names}
    p = PR.Project(dir_path=d, begin_time=base, end_time=base, metadata=PR.ProjectMetadata(ref_time=base), sites=sites)
    for s in names:
        e = [t for t in names if t != s and iv[t][0] <= iv[s][1] and iv[s][0] <= iv[t][1]]
        same(sorted(x.name for x in p.get_concurrent(s)), sorted(e), f"sites concurrent with {s}")


@scenario()
def loaded(rng):
    """begin and end times of a loaded project and its sites."""
    from resistics import letsgo as L, time as T
    from resistics.config import Configuration
    sites = {s: {k: (rng.choice([64.0, 128.0]), rng.randrange(0, 5000), rng.randrange(2, 300)) for k in rng.sample(project.MEAS, rng.randrange(1, 4))}
             for s in rng.sample(project.NAMES, rng.randrange(1, 4))}
    base = start(rng)
    note(sites=sites, base=str(base))
    with Scratch() as d:
        p = d / "proj"
        L.new(p, dict(ref_time="2019-01-01 00:00:00"))
        for s, ms in sites.items():
            for k, (fs, off, n) in ms.items():
                td = time_data(rng, n=n, fs=fs, first=at(base, off))
                T.TimeWriterNumpy().run(p / "time" / s / k, td)
        proj = L.load(p, Configuration(name="c")).proj
        same({s: sorted(x.measurements) for s, x in proj.sites.items()}, {s: sorted(ms) for s, ms in sites.items()}, "sites and measurements")
        fr = lambda ms: (min(Fraction(o) for f, o, n in ms), max(o + Fraction(n - 1) / Fraction(str(f)) for f, o, n in ms))
        lo, hi = [], []
        for s, ms in sites.items():
            a, b = fr(ms.values())
            lo.append(a)
            hi.append(b)
            same([secs(proj[s].begin_time - base), secs(proj[s].end_time - base)], [a, b], f"time range of {s}")
            for k, (f, o, n) in ms.items():
                same([proj[s][k].metadata.fs, proj[s][k].metadata.n_samples, proj[s][k].site_name], [f, n, s], "measurement")
        same([secs(proj.begin_time - base), secs(proj.end_time - base)], [min(lo), max(hi)], "time range of the project")
