from common import *
from gen import *
import levels
from resistics import decimate as D, time as T


def parameters(rng, fs):
    nl = rng.randrange(1, 6)
    inc = [rng.choice([1, 1, 2, 3, 4]) for _ in range(nl)]
    if rng.random() < 0.5:
        inc[0] = 1
    tot = [int(x) for x in np.cumprod(inc)]
    return D.DecimationParameters(fs=fs, n_levels=nl, per_level=2, min_samples=rng.choice([1, 5, 20, 50]), eval_freqs=[fs / 4] * (2 * nl), dec_factors=tot), inc


@scenario()
def chain(rng):
    td = time_data(rng, n=rng.randrange(100, 400), fs=rng.choice([64.0, 128.0, 50.0, 10.0, 1.0]))
    p, inc = parameters(rng, td.metadata.fs)
    resample = rng.random() < 0.5
    mx = rng.choice([3, 4, 13])
    note(data=describe(td), increments=inc, min_samples=p.min_samples, resample=resample, max_single_factor=mx)
    cur, exp = td, []
    for f in inc:
        if f != 1 and cur.metadata.n_samples < 40 * f and not resample:
            raise Skip()   # too short for the filter
        if f != 1:
            cur = T.Resample(new_fs=cur.metadata.fs / f).run(cur) if resample else T.Decimate(factor=f, max_single_factor=mx).run(cur)
        if cur.metadata.n_samples < p.min_samples:
            break
        exp.append(cur)
    if not exp:
        raise Skip()
    out = D.Decimator(resample=resample, max_single_factor=mx).run(p, td)
    m = out.metadata
    same(sorted(out.data), list(range(len(exp))), "levels present")
    same([m.n_levels, len(m.fs), len(m.levels_metadata)], [len(exp)] * 3, "number of levels in the metadata")
    for l, e in enumerate(exp):
        same(np.asarray(out.get_level(l)), e.data, f"data of level {l}")
        x = m.levels_metadata[l]
        same([x.fs, x.n_samples, str(x.first_time), str(x.last_time)], [e.metadata.fs, e.metadata.n_samples, str(e.metadata.first_time), str(e.metadata.last_time)], f"metadata of level {l}")
        same(m.fs[l], e.metadata.fs, f"sampling frequency of level {l}")
    refused("level beyond those present", ValueError, out.get_level, len(exp))
