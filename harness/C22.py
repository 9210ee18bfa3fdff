from common import *
import levels
from gen import *
from resistics import gather as G, regression as R
from resistics.transfunc import TransferFunction


def tf(rng, cs):
    k = lambda: rng.sample(cs, rng.randrange(1, min(4, len(cs)) + 1))
    return TransferFunction(variation="v", out_chans=k(), in_chans=k(), cross_chans=rng.choice([None, k()]))


def cplx(*sh):
    return np.random.normal(size=sh) + 1j * np.random.normal(size=sh)


def equations(rng, t, freqs, outs, ins, crosses, ri):
    """outs, ins, crosses: per frequency arrays window x channel, in the channel order of t."""
    close(np.array(ri.freqs), np.array(freqs), "frequencies in order")
    same([ri.n_freqs, len(ri.obs), len(ri.preds)], [len(freqs)] * 3, "one set of equations per frequency")
    same(ri.tf, t, "transfer function")
    for k in range(len(freqs)):
        nw, nc = crosses[k].shape
        for o, oc in enumerate(t.out_chans):
            obs, preds = ri.get_inputs(k, oc)
            same([obs.shape, preds.shape], [(2 * nw * nc,), (2 * nw * nc, 2 * t.n_in)], f"frequency {k} shapes")
            lhs = outs[k][:, o][:, None] * np.conj(crosses[k])
            close(obs, np.stack([lhs.real.ravel(), lhs.imag.ravel()], 1).ravel(), f"frequency {k} observations of {oc}")
            Z = cplx(t.n_in)
            rhs = sum(Z[i] * ins[k][:, i][:, None] * np.conj(crosses[k]) for i in range(t.n_in))
            z = np.stack([Z.real, Z.imag], 1).ravel()
            close(preds @ z, np.stack([rhs.real.ravel(), rhs.imag.ravel()], 1).ravel(), f"frequency {k} predictors", rtol=1e-9)


@scenario(weight=2)
def gathered(rng):
    t = tf(rng, ["Ex", "Ey", "Hx", "Hy", "Hz"])
    nf = rng.randrange(1, 6)
    freqs = [rng.uniform(1, 30) for _ in range(nf)]
    parts, arrs = [], []
    nws = [rng.randrange(1, 6) for _ in range(nf)]
    for chans in (t.out_chans, t.in_chans, t.cross_chans):
        a = [cplx(nws[k], len(chans)) for k in range(nf)]
        arrs.append(a)
        m = G.SiteCombinedMetadata(site_name=rng.choice("ab"), fs=64.0, chans=chans, n_evals=nf, eval_freqs=freqs, histories={}, measurements=["m"])
        parts.append(G.SiteCombinedData(m, dict(enumerate(a))))
    note(chans=[t.out_chans, t.in_chans, t.cross_chans], windows=nws)
    ri = R.RegressionPreparerGathered().run(t, G.GatheredData(*parts))
    equations(rng, t, freqs, *arrs, ri)
    same(sorted(ri.metadata.contributors), ["cross_data", "in_data", "out_data"], "contributors")
    for k, p in zip(("out_data", "in_data", "cross_data"), parts):
        same(ri.metadata.contributors[k].dict(), p.metadata.dict(), f"contributor {k}")


@scenario(weight=2)
def spectra(rng):
    cs = ["Ex", "Ey", "Hx", "Hy", "Hz"]
    t = tf(rng, cs)
    sd = levels.spectra(rng, cs=rng.sample(cs, 5), n_freqs=rng.randrange(1, 4))
    m = sd.metadata
    note(chans=[t.out_chans, t.in_chans, t.cross_chans], data_chans=m.chans, windows=[x.n_wins for x in m.levels_metadata])
    ri = R.RegressionPreparerSpectra().run(t, sd)
    freqs, arrs = [], ([], [], [])
    for l, x in enumerate(m.levels_metadata):
        for i, f in enumerate(x.freqs):
            freqs.append(f)
            for a, chans in zip(arrs, (t.out_chans, t.in_chans, t.cross_chans)):
                a.append(np.stack([sd.data[l][:, m.chans.index(c), i] for c in chans], 1))
    equations(rng, t, freqs, *arrs, ri)
