from common import *
import levels
from gen import *
from resistics import spectra as P, decimate as D


def params(rng, sd, per=None):
    per = rng.randrange(1, 6) if per is None else per
    ev = []
    for x in sd.metadata.levels_metadata:
        fr = np.array(x.freqs)
        row = []
        for _ in range(per):
            k = rng.randrange(len(fr))
            j = rng.randrange(len(fr) - 1)
            row.append(float(rng.choice([fr[k], fr[j] + (fr[j + 1] - fr[j]) * rng.random(), (fr[j] + fr[j + 1]) / 2])))
        ev.append(row)
    extra = rng.randrange(0, 2)
    for _ in range(extra):
        ev.append([0.001] * per)
    nl = len(ev)
    df = D.DecimationParameters(fs=sd.metadata.fs[0], n_levels=nl, per_level=per, min_samples=1, eval_freqs=[f for r in ev for f in r], dec_factors=[2 ** i for i in range(nl)])
    return df, ev


@scenario(weight=3)
def evals(rng):
    sd = levels.spectra(rng)
    p, ev = params(rng, sd)
    note(freqs=[x.freqs for x in sd.metadata.levels_metadata], eval_freqs=ev)
    out = P.EvaluationFreqs().run(p, sd)
    m = out.metadata
    same([m.n_levels, m.fs, sorted(out.data)], [sd.metadata.n_levels, sd.metadata.fs, list(range(sd.metadata.n_levels))], "levels")
    same(str(m.ref_time), str(sd.metadata.ref_time), "reference time")
    for l, x in enumerate(sd.metadata.levels_metadata):
        y = m.levels_metadata[l]
        same([y.fs, y.n_wins, y.win_size, y.olap_size, y.index_offset], [x.fs, x.n_wins, x.win_size, x.olap_size, x.index_offset], f"bookkeeping of level {l}")
        close(np.array(y.freqs), np.array(ev[l]), f"frequencies of level {l}", rtol=1e-12)
        same([y.n_freqs, out.data[l].shape], [len(ev[l]), (x.n_wins, len(m.chans), len(ev[l]))], f"shape of level {l}")
        for k, f in enumerate(ev[l]):
            fr = x.freqs
            at_bin = [i for i, g in enumerate(fr) if g == f]
            if at_bin:
                same(out.data[l][..., k], sd.data[l][..., at_bin[0]], f"level {l} value at the bin {f}")
            else:
                i = max(i for i in range(len(fr)) if fr[i] < f)
                u = (f - fr[i]) / (fr[i + 1] - fr[i])
                e = sd.data[l][..., i] * (1 - u) + sd.data[l][..., i + 1] * u
                close(out.data[l][..., k], e, f"level {l} value at {f}", rtol=1e-9)
