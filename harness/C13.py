from common import *
import grid, levels
from gen import *
from resistics import window as W, decimate as D
from resistics.errors import ChannelNotFoundError


def decimated(rng):
    """levels on the grid of a common reference."""
    fs = Fraction(str(rng.choice([64.0, 128.0, 100.0, 50.0, 10.0, 256.0])))
    ref, nl = start(rng), rng.randrange(1, 4)
    fac = [1]
    for _ in range(nl - 1):
        fac.append(fac[-1] * rng.choice([1, 2, 4, 5]))
    off0 = rng.randrange(0, 50) * fac[-1]
    n = rng.randrange(30, 500)
    first = at(ref, off0 / fs)
    lm = []
    for f in fac:
        k = -(-n // f)
        lm.append(D.DecimatedLevelMetadata(fs=float(fs / f), n_samples=k, first_time=first, last_time=at(first, (k - 1) * f / fs)))
    d = levels.common_meta(rng)
    d.update(fs=[x.fs for x in lm], n_levels=nl, levels_metadata=lm, first_time=first, last_time=lm[0].last_time)
    m = D.DecimatedMetadata(**d)
    data = {i: np.random.normal(0, 3, size=(len(m.chans), x.n_samples)).astype(rng.choice([np.float32, np.float64])) for i, x in enumerate(lm)}
    return ref, [off0 // f for f in fac], D.DecimatedData(m, data)


def check_windowed(rng, ref, offs, dd, ws, ol, mn, out):
    m = out.metadata
    exp = []
    for l, x in enumerate(dd.metadata.levels_metadata):
        e = grid.expected(offs[l], x.n_samples, ws[l], ol[l])
        if len(e) < mn:
            break
        exp.append(e)
    same(sorted(out.data), list(range(len(exp))), "levels windowed")
    same([m.n_levels, len(m.fs), len(m.levels_metadata)], [len(exp)] * 3, "levels in the metadata")
    same(str(m.ref_time), str(ref), "reference time")
    levels.carried(dd.metadata, m, "windowed")
    nc = len(m.chans)
    for l, e in enumerate(exp):
        x = m.levels_metadata[l]
        same([x.fs, m.fs[l], x.n_wins, x.win_size, x.olap_size, x.index_offset], [dd.metadata.levels_metadata[l].fs] * 2 + [len(e), ws[l], ol[l], e[0][0]], f"metadata of level {l}")
        same(out.get_level(l).shape, (len(e), nc, ws[l]), f"shape of level {l}")
        for w, (g, s) in enumerate(e):
            same(np.asarray(out.data[l][w]), dd.data[l][:, s:s + ws[l]], f"level {l} window {w}")
        for w in {0, len(e) - 1, rng.randrange(len(e))}:
            same(np.asarray(out.get_local(l, w)), dd.data[l][:, e[w][1]:e[w][1] + ws[l]], f"level {l} local window {w}")
            same(np.asarray(out.get_global(l, e[w][0])), dd.data[l][:, e[w][1]:e[w][1] + ws[l]], f"level {l} global window {e[w][0]}")
        for w in (-1, len(e), len(e) + 3):
            refused(f"local window {w} of {len(e)}", ValueError, out.get_local, l, w)
            refused(f"global window {e[0][0] + w}", ValueError, out.get_global, l, e[0][0] + w)
        for i, c in enumerate(m.chans):
            same(np.asarray(out.get_chan(l, c)), out.data[l][:, i], f"level {l} channel {c}")
        refused("unknown channel", ChannelNotFoundError, out.get_chan, l, "nowhere")
    refused("level beyond", ValueError, out.get_level, len(exp))


@scenario(weight=2)
def windower(rng):
    ref, offs, dd = decimated(rng)
    nl = dd.metadata.n_levels
    ws = [rng.randrange(2, max(3, dd.metadata.levels_metadata[l].n_samples // rng.choice([1, 2, 5, 8]))) for l in range(nl)]
    ol = [rng.randrange(1, w) if w > 1 else 1 for w in ws]
    mn = rng.choice([1, 1, 2, 5])
    note(chans=dd.metadata.chans, reference=str(ref), offsets=offs, n=[x.n_samples for x in dd.metadata.levels_metadata], fs=dd.metadata.fs, win_sizes=ws, olap_sizes=ol, min_n_wins=mn)
    if len(grid.expected(offs[0], dd.metadata.levels_metadata[0].n_samples, ws[0], ol[0])) < mn:
        raise Skip()
    p = W.WindowParameters(n_levels=nl, min_n_wins=mn, win_sizes=ws, olap_sizes=ol)
    check_windowed(rng, ref, offs, dd, ws, ol, mn, W.Windower().run(ref, p, dd))


@scenario()
def target(rng):
    ref, offs, dd = decimated(rng)
    nl = dd.metadata.n_levels
    t = W.WindowerTarget(target=rng.choice([3, 10, 40]), min_size=rng.choice([4, 10, 20]), olap_proportion=rng.choice([0.25, 0.5, 0.3]))
    ws = [max(t.min_size, int(x.n_samples / ((1 - t.olap_proportion) * t.target))) for x in dd.metadata.levels_metadata]
    ol = [int(t.olap_proportion * w) for w in ws]
    mn = rng.choice([1, 2, 5])
    note(reference=str(ref), offsets=offs, n=[x.n_samples for x in dd.metadata.levels_metadata], win_sizes=ws, olap_sizes=ol, min_n_wins=mn)
    if len(grid.expected(offs[0], dd.metadata.levels_metadata[0].n_samples, ws[0], ol[0])) < mn or min(ol) < 1:
        raise Skip()
    p = W.WindowParameters(n_levels=nl, min_n_wins=mn, win_sizes=[7] * nl, olap_sizes=[3] * nl)
    check_windowed(rng, ref, offs, dd, ws, ol, mn, t.run(ref, p, dd))


@scenario()
def access(rng):
    wd = levels.windowed(rng)
    m = wd.metadata
    l = rng.randrange(m.n_levels)
    x = m.levels_metadata[l]
    note(n_wins=x.n_wins, offset=x.index_offset, chans=m.chans)
    for w in range(x.n_wins):
        same(np.asarray(wd.get_local(l, w)), wd.data[l][w], "local window")
        same(np.asarray(wd.get_global(l, w + x.index_offset)), wd.data[l][w], "global window")
    for w in (-1, x.n_wins):
        refused("local window outside", ValueError, wd.get_local, l, w)
        refused("global window outside", ValueError, wd.get_global, l, w + x.index_offset)
    for i, c in enumerate(m.chans):
        same(np.asarray(wd.get_chan(l, c)), wd.data[l][:, i, :], "channel")
