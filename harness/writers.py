from gen import *
import levels
from resistics import time as T, decimate as D, window as W, spectra as P


def kinds(rng):
    """name, writer class, object."""
    k = rng.choice(["time", "ascii", "decimated", "windowed", "spectra"])
    if k in ("time", "ascii"):
        cs = None if k == "time" else rng.sample(["Ex", "Ey", "Hx", "zz"], rng.randrange(1, 4))
        return k, (T.TimeWriterNumpy if k == "time" else T.TimeWriterAscii), time_data(rng, n=rng.randrange(2, 60), cs=cs)
    if k == "decimated":
        return k, D.DecimatedDataWriter, levels.decimated(rng)
    if k == "windowed":
        return k, W.WindowedDataWriter, levels.windowed(rng)
    return k, P.SpectraDataWriter, levels.spectra(rng)


def data_files(k, obj, d):
    if k == "time":
        return [d / "data.npy"]
    if k == "ascii":
        return [d / f for c in obj.metadata.chans for f in T.TimeMetadata.parse_file(d / "metadata.json").chans_metadata[c].data_files]
    return [d / "data.npz"]
