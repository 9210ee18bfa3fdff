from common import *
from gen import *
from resistics import time as T
from resistics.errors import ProcessRunError


@scenario(weight=2)
def nans(rng):
    td = time_data(rng, n=rng.randrange(1, 30), nan=rng.choice([0.0, 0.1, 0.5, 0.8]))
    for i in range(len(td.data)):
        if np.isnan(td.data[i]).all():
            td.data[i, rng.randrange(td.data.shape[1])] = 1.5
    note(data=describe(td), nans=[[int(k) for k in np.flatnonzero(np.isnan(r))] for r in td.data])
    out = T.InterpolateNans().run(td)
    for i, c in enumerate(td.metadata.chans):
        x, y = td.data[i], out.data[i]
        good = np.flatnonzero(~np.isnan(x))
        same(y[good], x[good], f"channel {c}: samples that are not NaN")
        for k in np.flatnonzero(np.isnan(x)):
            lo, hi = good[good < k], good[good > k]
            if not len(lo):
                e = x[hi[0]]
            elif not len(hi):
                e = x[lo[-1]]
            else:
                a, b = lo[-1], hi[0]
                e = float(x[a]) + (float(x[b]) - float(x[a])) * (k - a) / (b - a)
            close(y[k], e, f"channel {c} sample {k}", rtol=1e-5, scale=float(np.nanmax(np.abs(x))))


@scenario(weight=2)
def shift(rng):
    td = time_data(rng, n=rng.randrange(2, 40), fs=rng.choice([1.0, 2.0, 4.0, 8.0, 10.0, 50.0, 128.0]))
    f = rng.choice([0.25, 0.5, 0.75, 0.125, 0.9, 1.0, 1.5, 2.0])
    m = td.metadata
    s = f / m.fs
    note(data=describe(td), shift=s, samples=f)
    p = T.ShiftTimestamps(shift=s)
    if s >= 1 / m.fs:
        refused("shift of a sample or more", ProcessRunError, p.run, td)
        return
    out = p.run(td)
    x = td.data.astype(float)
    close(out.data, x[:, :-1] + (x[:, 1:] - x[:, :-1]) * (s * m.fs), "interpolated samples", rtol=1e-5)
    same(out.metadata.n_samples, m.n_samples - 1, "number of samples")
