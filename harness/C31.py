from common import *
import levels
from gen import *
from resistics import time as T, decimate as D, window as W, spectra as P


def meta(a, b, skip=(), what="metadata read back"):
    x, y = a.dict(), b.dict()
    for k in ("file_info", "history") + tuple(skip):
        x.pop(k, None), y.pop(k, None)
    for k in x:
        if k == "chans_metadata":
            f = lambda d: {c: {n: v for n, v in m.items() if n != "data_files"} for c, m in d.items()}
            same(f(y[k]), f(x[k]), f"{what}: {k}")
        else:
            same(y[k], x[k], f"{what}: {k}")
    for k in ("first_time", "last_time", "ref_time"):
        if hasattr(a, k):
            same(secs(getattr(b, k) - getattr(a, k)), Fraction(0), f"{what}: {k}")


def history(a, b, writer, reader):
    ra, rb = [r.dict() for r in a.history.records], [r.dict() for r in b.history.records]
    same(rb[:len(ra)], ra, "original history")
    same([r["creator"]["name"] for r in rb[len(ra):]], [writer, reader], "write and read records")


FINE = ["2021-01-01 00:00:00.000000000001", "2021-06-30 12:34:56.789012345678901234", "2021-01-01 00:00:00.000244140625"]


@scenario()
def time(rng):
    td = time_data(rng, n=rng.randrange(2, 60), first=S.to_datetime(rng.choice(FINE)) if rng.random() < 0.4 else None)
    if rng.random() < 0.3:
        td.data[0, 0] = np.nan
    note(data=describe(td))
    with Scratch() as d:
        T.TimeWriterNumpy().run(d / "x", td)
        r = T.TimeReaderNumpy()
        b = r.run(d / "x")
        same(np.array(b.data), td.data, "data read back")
        same(b.data.dtype, td.data.dtype, "type of the data read back")
        meta(td.metadata, b.metadata)
        history(td.metadata, b.metadata, "TimeWriterNumpy", "TimeReaderNumpy")
        m = r.run(d / "x", metadata_only=True)
        meta(td.metadata, m)
        c = r.run(d / "x", metadata=m)
        same(np.array(c.data), td.data, "data read with given metadata")


@scenario(weight=2)
def others(rng):
    k = rng.randrange(3)
    o, w, r = [(levels.decimated, D.DecimatedDataWriter, D.DecimatedDataReader), (levels.windowed, W.WindowedDataWriter, W.WindowedDataReader),
               (levels.spectra, P.SpectraDataWriter, P.SpectraDataReader)][k]
    x = o(rng)
    note(kind=type(x).__name__, chans=x.metadata.chans, levels=x.metadata.n_levels)
    with Scratch() as d:
        w().run(d / "x", x)
        b = r().run(d / "x")
        same(sorted(b.data), sorted(x.data), "levels read back")
        for l in x.data:
            same(b.data[l], x.data[l], f"level {l} read back")
            same(b.data[l].dtype, x.data[l].dtype, f"type of level {l}")
        meta(x.metadata, b.metadata)
        history(x.metadata, b.metadata, w.__name__, r.__name__)
        m = r().run(d / "x", metadata_only=True)
        meta(x.metadata, m)


@scenario()
def many_levels(rng):
    """more than ten levels keep their numbers."""
    k = rng.randrange(3)
    w, r = [(D.DecimatedDataWriter, D.DecimatedDataReader), (W.WindowedDataWriter, W.WindowedDataReader), (P.SpectraDataWriter, P.SpectraDataReader)][k]
    x = [lambda: levels.decimated(rng, n_levels=12, cs=["Ex"], nmax=30), lambda: levels.windowed(rng, n_levels=12, cs=["Ex"]),
         lambda: levels.spectra(rng, n_levels=12, cs=["Ex"], n_freqs=2)][k]()
    note(levels=12, kind=type(x).__name__)
    with Scratch() as d:
        w().run(d / "x", x)
        b = r().run(d / "x")
        for l in x.data:
            same(b.data[l], x.data[l], f"level {l} read back")


@scenario()
def ascii(rng):
    """one text file with a column per channel."""
    td = time_data(rng, n=rng.randrange(2, 40))
    m = td.metadata
    h, dl = rng.choice([0, 0, 3]), rng.choice([None, ",", ";"])
    note(data=describe(td), n_header=h, delimiter=dl)
    with Scratch() as d:
        for c in m.chans:
            m.chans_metadata[c].data_files = ["data.txt"]
        (d / "metadata.json").write_text(m.json())
        with open(d / "data.txt", "w") as f:
            f.write("".join(f"header {i}\n" for i in range(h)))
            for i in range(m.n_samples):
                f.write((dl or " ").join("%.6e" % v for v in td.data[:, i]) + "\n")
        r = T.TimeReaderAscii(n_header=h, delimiter=dl)
        b = r.run(d)
        close(b.data, td.data, "data read back", rtol=2e-6)
        meta(m, b.metadata)
        same([x.dict() for x in b.metadata.history.records[:-1]], [x.dict() for x in m.history.records], "original history")
        f_, t_ = sorted(rng.sample(range(m.n_samples), 2))
        c = r.run(d, from_sample=f_, to_sample=t_)
        close(c.data, td.data[:, f_:t_ + 1], "part read back", rtol=2e-6)
