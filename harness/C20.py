from common import *
import project
from gen import *
from resistics import gather as G


def expected(have, chosen):
    n = min(max(sd.metadata.n_levels for sd in have[s].values()) for s in chosen)
    out = []
    for l in range(n):
        g = None
        for s in chosen:
            u = set().union(*project.windows(have[s], l).values())
            g = u if g is None else g & u
        out.append(sorted(g))
    return out


def check_selection(have, chosen, p, sel):
    chosen = sorted(set(chosen))
    exp = expected(have, chosen)
    same(sel.n_levels, len(exp), "number of levels")
    same(sorted(sel.tables), list(range(len(exp))), "tables")
    same(sorted(s.name for s in sel.sites), chosen, "sites")
    same(sel.get_n_evals(), len(exp) * p.per_level, "number of evaluation frequencies")
    close(np.array(sel.get_eval_freqs()), np.array([f for l in range(len(exp)) for f in p.get_eval_freqs(l)]), "evaluation frequencies")
    named = {s: set() for s in chosen}
    for l, e in enumerate(exp):
        t = sel.tables[l]
        same([int(x) for x in t.index], e, f"windows of level {l}")
        for s in chosen:
            w = project.windows(have[s], l)
            for g, k in zip(t.index, t[s]):
                check(k in w and g in w[k], f"level {l} window {g}: measurement {k!r} of {s} has it")
                named[s].add(k)
        for i in range(p.per_level):
            same(int(sel.get_n_wins(l, i)), len(e), f"window count of level {l} frequency {i}")
            ew = sel.get_eval_wins(l, i)
            same([int(x) for x in ew.index], e, f"windows of level {l} frequency {i}")
            for s in chosen:
                same(list(ew[s]), list(t[s]), f"measurements of level {l} frequency {i} for {s}")
    refused("level beyond", ValueError, sel.get_n_wins, len(exp), 0)
    for s in sel.sites:
        same(list(sel.get_measurements(s)), sorted(named[s.name]), f"measurements of {s.name}")


@scenario(weight=2)
def select(rng):
    with Scratch() as d:
        proj, p, have = project.with_evals(rng, d)
        chosen = rng.sample(sorted(have), rng.randrange(1, len(have) + 1))
        chosen = chosen + rng.choice([[], chosen[:1]])
        note(sites=project.describe_sites(have), chosen=chosen, fs=p.fs)
        if any(not have[s] for s in chosen):
            refused("site without data", ValueError, G.Selector().run, "default", proj, chosen, p)
            return
        check_selection(have, chosen, p, G.Selector().run("default", proj, chosen, p))


@scenario(weight=2)
def level_windows(rng):
    """the windows of one site at one level."""
    import levels
    ms, nl = {}, rng.randrange(1, 3)
    for k in rng.sample(project.MEAS, rng.randrange(1, 5)):
        n = rng.randrange(1, nl + 1)
        ms[k] = levels.spectra(rng, n_levels=n, cs=["Ex"], nw=[rng.randrange(1, 12) for _ in range(n)], offsets=[rng.randrange(0, 20) for _ in range(n)])
    note(measurements=project.describe_sites({"s": ms}))
    for l in range(nl):
        w = project.windows(ms, l)
        t = G.get_site_level_wins({k: v.metadata for k, v in ms.items()}, l)
        same([int(x) for x in t.index], sorted(set().union(*w.values())) if w else [], f"windows of level {l}")
        for g, k in t.items():
            check(g in w[k], f"level {l} window {g} in {k}")


@scenario(weight=1)
def accessors(rng):
    """counts, windows, frequencies and measurements agree with the tables, whatever windows are used."""
    import types
    import pandas as pd
    from resistics.decimate import DecimationSetup
    per = rng.randrange(1, 4)
    p = DecimationSetup(n_levels=rng.randrange(1, 5), per_level=per).run(rng.choice([16, 128, 4096]))
    names = rng.sample(["A", "B", "site 3", "remote"], rng.randrange(1, 4))
    sites = [types.SimpleNamespace(name=n) for n in names]
    tables = {}
    for l in range(rng.randrange(0, p.n_levels + 1)):
        ix = sorted(rng.sample(range(30), rng.randrange(0, 9)))
        d = {n: [rng.choice(["m1", "m2", "m 3"]) for _ in ix] for n in names}
        d.update({e: np.array([rng.random() < rng.choice([0.5, 1]) for _ in ix], dtype=bool) for e in range(per)})
        tables[l] = pd.DataFrame(d, index=ix)
    note(tables={l: t.to_dict() for l, t in tables.items()})
    sel = G.Selection(sites, p, tables)
    same(sel.n_levels, len(tables), "levels")
    same(sel.get_n_evals(), len(tables) * per, "number of evaluation frequencies")
    same(list(sel.get_eval_freqs()), [f for l in range(len(tables)) for f in p.get_eval_freqs(l)], "evaluation frequencies")
    refused("level beyond", ValueError, sel.get_n_wins, len(tables), 0)
    for l, t in tables.items():
        for e in range(per):
            use = [k for k in range(len(t)) if t[e].iloc[k]]
            same(int(sel.get_n_wins(l, e)), len(use), f"window count of level {l} frequency {e}")
            ew = sel.get_eval_wins(l, e)
            same(sorted(ew.columns), sorted(names), "columns")
            same([int(x) for x in ew.index], [int(t.index[k]) for k in use], f"windows of level {l} frequency {e}")
            for n in names:
                same(list(ew[n]), [t[n].iloc[k] for k in use], f"measurements of level {l} frequency {e} for {n}")
    for s in sites:
        same(list(sel.get_measurements(s)), sorted(set(x for t in tables.values() for x in t[s.name])), f"measurements of {s.name}")
