from common import *
import project, levels
from gen import *
from resistics import gather as G, spectra as P
from resistics.transfunc import TransferFunction


def tf(rng, cs):
    k = lambda: rng.sample(cs, rng.randrange(1, min(3, len(cs)) + 1))
    return TransferFunction(name=None, variation="v", out_chans=k(), in_chans=k(), cross_chans=rng.choice([None, k()]))


@scenario(weight=2)
def gather(rng):
    with Scratch() as d:
        proj, p, have = project.with_evals(rng, d)
        ok = [s for s in sorted(have) if have[s]]
        if not ok:
            raise Skip()
        out = rng.choice(ok)
        inn, cross = rng.choice([None] + ok), rng.choice([None] + ok)
        t = tf(rng, ["Ex", "Ey", "Hx", "Hy", "Hz"])
        note(sites=project.describe_sites(have), out=out, inp=inn, cross=cross, chans=[t.out_chans, t.in_chans, t.cross_chans])
        chosen = [s for s in (out, inn, cross) if s is not None] + ([rng.choice(ok)] if rng.random() < 0.3 else [])
        sel = G.Selector().run("default", proj, chosen, p)
        if not all(len(x) for x in sel.tables.values()) and all(len(x) == 0 for x in sel.tables.values()):
            raise Skip()
        for l in sel.tables:   # a subset of the windows selected for a frequency
            for i in range(p.per_level):
                if rng.random() < 0.4 and len(sel.tables[l]):
                    sel.tables[l][i] = [rng.random() < 0.7 for _ in range(len(sel.tables[l]))]
        g = G.ProjectGather().run("default", proj, sel, t, out, inn, cross)
        i_name = inn or out
        for part, site, chans in ((g.out_data, out, t.out_chans), (g.in_data, i_name, t.in_chans), (g.cross_data, cross or i_name, t.cross_chans)):
            m = part.metadata
            same([m.site_name, m.chans, m.fs], [site, chans, p.fs], "site, channels and rate")
            same(sorted(part.data), list(range(sel.n_levels * p.per_level)), "keys")
            same([m.n_evals, m.eval_freqs], [len(part.data), sel.get_eval_freqs()], "frequencies")
            for l in range(sel.n_levels):
                tab = sel.tables[l]
                for i in range(p.per_level):
                    rows = tab[tab[i]]
                    a = part.data[l * p.per_level + i]
                    same(a.shape, (len(rows), len(chans)), f"shape of level {l} frequency {i}")
                    for r, (w, k) in enumerate(zip(rows.index, rows[site])):
                        sd = have[site][k]
                        x = sd.metadata.levels_metadata[l]
                        e = [sd.data[l][w - x.index_offset, sd.metadata.chans.index(c), i] for c in chans]
                        same(a[r], np.array(e), f"{site} level {l} frequency {i} row {r} (window {w} of {k})")


@scenario(weight=2)
def quick(rng):
    import pathlib
    from resistics import decimate as D
    nl, per, fs = rng.randrange(1, 4), rng.randrange(1, 4), 64.0
    cs = ["Ex", "Ey", "Hx", "Hy", "Hz"]
    ev = [[fs / 4 / 2 ** ((l * per + i) / 2) for i in range(per)] for l in range(nl)]
    sd = levels.spectra(rng, n_levels=nl, fs=fs, cs=rng.sample(cs, 5), freqs=ev)
    p = D.DecimationParameters(fs=fs, n_levels=nl, per_level=per, min_samples=1, eval_freqs=[f for r in ev for f in r], dec_factors=[2 ** i for i in range(nl)])
    t = tf(rng, cs)
    note(levels=nl, per_level=per, chans=[t.out_chans, t.in_chans, t.cross_chans], data_chans=sd.metadata.chans)
    g = G.QuickGather().run(pathlib.Path("/some/meas"), p, t, sd)
    for part, chans in ((g.out_data, t.out_chans), (g.in_data, t.in_chans), (g.cross_data, t.cross_chans)):
        same([part.metadata.chans, part.metadata.fs, part.metadata.n_evals, part.metadata.eval_freqs], [chans, fs, nl * per, [f for r in ev for f in r]], "metadata")
        same(sorted(part.data), list(range(nl * per)), "keys")
        for l in range(nl):
            for i in range(per):
                e = np.stack([sd.data[l][:, sd.metadata.chans.index(c), i] for c in chans], axis=1)
                same(part.data[l * per + i], e, f"level {l} frequency {i}")
