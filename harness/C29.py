from common import *
import levels
from gen import *
from resistics import time as T, spectra as P
from resistics.errors import ChannelNotFoundError


@scenario(weight=2)
def time_channels(rng):
    td = time_data(rng)
    m = td.metadata
    note(data=describe(td))
    for i, c in enumerate(m.chans):
        same(np.asarray(td.get_chan(c)), td.data[i], f"channel {c}")
        same(np.asarray(td[c]), td.data[i], f"channel {c} by []")
        same(int(td.get_chan_index(c)), i, f"index of {c}")
        check(m[c] is m.chans_metadata[c], "channel metadata")
    refused("unknown channel", ChannelNotFoundError, td.get_chan, "nowhere")
    refused("unknown channel", ChannelNotFoundError, lambda: td["nowhere"])
    refused("unknown channel metadata", ChannelNotFoundError, lambda: m["nowhere"])
    c = rng.choice(m.chans)
    i = m.chans.index(c)
    v = np.random.normal(size=m.n_samples).astype(td.data.dtype)
    e = td.data.copy()
    e[i] = v
    mb = freeze(m)
    if rng.random() < 0.5:
        td.set_chan(c, v)
    else:
        td[c] = v
    same(td.data, e, f"data after setting {c}")
    same(freeze(m), mb, "metadata after setting a channel")
    refused("setting an unknown channel", ChannelNotFoundError, td.set_chan, "nowhere", v)
    refused("setting the wrong length", ValueError, td.set_chan, c, np.zeros(m.n_samples + 1, dtype=td.data.dtype))
    refused("setting the wrong type", ValueError, td.set_chan, c, np.zeros(m.n_samples, dtype=np.int32))
    same(td.data, e, "data after refusals")


@scenario()
def types(rng):
    m = time_metadata(rng)
    t = {c: m.chans_metadata[c].chan_type for c in m.chans}
    note(types=t)
    e, h = [c for c in m.chans if t[c] == "electric"], [c for c in m.chans if t[c] == "magnetic"]
    same([m.get_electric_chans(), m.get_magnetic_chans()], [e, h], "electric and magnetic channels")
    same([bool(m.any_electric()), bool(m.any_magnetic())], [bool(e), bool(h)], "any electric, any magnetic")
    same(m.get_chan_types(), sorted(set(t.values())), "channel types")
    for k in ("electric", "magnetic", "unknown", "q"):
        same(m.get_chans_with_type(k), [c for c in m.chans if t[c] == k], f"channels of type {k}")


@scenario()
def copies(rng):
    td = time_data(rng)
    note(data=describe(td))
    b = freeze(td)
    c = td.copy()
    same(c.metadata.dict(), td.metadata.dict(), "metadata of the copy")
    same([c.data, c.data.dtype], [td.data, td.data.dtype], "data of the copy")
    disjoint(td, c, "copy")
    c.data += 1
    c.metadata.chans_metadata[c.metadata.chans[0]].gain1 = 77.0
    c.metadata.history.records.append(record(rng))
    c.metadata.chans.append("new")
    same(freeze(td), b, "the original after changing the copy")


@scenario(weight=2)
def spectra(rng):
    sd = levels.spectra(rng, n_freqs=rng.choice([None, 1, 2]), nw=None)
    m = sd.metadata
    l = rng.randrange(m.n_levels)
    x = m.levels_metadata[l]
    note(chans=m.chans, level=l, n_wins=x.n_wins, n_freqs=x.n_freqs)
    check(np.array_equal(sd.get_level(l), sd.data[l]), "level")
    for k in (m.n_levels, m.n_levels + 3):
        refused(f"level {k} of {m.n_levels}", ValueError, sd.get_level, k)
        refused(f"timestamps of level {k}", ValueError, sd.get_timestamps, k)
    for i, c in enumerate(m.chans):
        same(np.asarray(sd.get_chan(l, c)), sd.data[l][:, i], f"channel {c}")
    cs = [rng.choice(m.chans) for _ in range(rng.randrange(1, 5))]
    same(np.asarray(sd.get_chans(l, cs)), np.stack([sd.data[l][:, m.chans.index(c)] for c in cs], 1), f"channels {cs}")
    refused("unknown channel", ChannelNotFoundError, sd.get_chan, l, "nowhere")
    refused("unknown channel among", ChannelNotFoundError, sd.get_chans, l, cs + ["nowhere"])
    for i in range(x.n_freqs):
        same(np.asarray(sd.get_freq(l, i)).ravel(), sd.data[l][..., i].ravel(), f"frequency {i}")
    for i in (-1, x.n_freqs, x.n_freqs + 2):
        refused(f"frequency {i} of {x.n_freqs}", ValueError, sd.get_freq, l, i)
    mag, phs = sd.get_mag_phs(l)
    close(mag * np.exp(1j * phs), sd.data[l], "magnitude and phase")


@scenario()
def decimated(rng):
    dd = levels.decimated(rng)
    m = dd.metadata
    note(chans=m.chans, levels=m.n_levels)
    for l in range(m.n_levels):
        check(np.array_equal(dd.get_level(l), dd.data[l]), "level")
    refused("level beyond", ValueError, dd.get_level, m.n_levels)
    refused("timestamps of level beyond", ValueError, dd.get_timestamps, m.n_levels)
