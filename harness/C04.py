from common import *
from gen import *
import procs, levels
from resistics import time as T

KINDS = ["sub", "nan", "mean", "add", "mul", "low", "high", "bandp", "notch", "resample", "decimate", "shift", "apply"]


def scribble(td):
    """changes everything reachable from td."""
    if td.data.flags.writeable:
        td.data[...] = 12345
    m = td.metadata
    for c in m.chans_metadata.values():
        c.sensor, c.gain1 = "changed", 77.0
        if c.data_files is not None:
            c.data_files.append("changed")
    m.chans_metadata["new"] = None
    m.chans.append("new")
    m.history.records.append("new")
    for r in m.history.records[:-1]:
        r.messages.append("changed")
        r.creator["changed"] = 1


@scenario(weight=13)
def frame(rng):
    td = procs.suitable(rng)
    if rng.random() < 0.2:
        td.data[0, 3] = np.nan
    k, p = procs.process(rng, td)
    if k in ("low", "high", "bandp", "notch", "resample", "decimate", "shift"):
        td.data[np.isnan(td.data)] = 0
    note(process=k, parameters=p.dict(exclude={"fncs"}), data=describe(td))
    before, pb = freeze(td), freeze(p.dict())
    out = p.run(td)
    same(freeze(td), before, f"{k}: input object afterwards")
    same(freeze(p.dict()), pb, f"{k}: process afterwards")
    levels.one_record(td.metadata, out.metadata, type(p).__name__, k)
    check(out is not td, f"{k}: result is a new object")
    disjoint(td, out, f"{k}: result and input")
    scribble(out)
    same(freeze(td), before, f"{k}: input after modifying the result")


@scenario()
def twice(rng):
    """a second run on the same input starts from the same history."""
    td = procs.suitable(rng)
    k, p = procs.process(rng, td)
    note(process=k, parameters=p.dict(exclude={"fncs"}), data=describe(td))
    a, b = p.run(td), p.run(td)
    levels.one_record(td.metadata, b.metadata, type(p).__name__, k)
    disjoint(a, b, f"{k}: two results")
    k2, q = procs.process(rng, td, ["mean", "add", "mul", "apply", "nan"])
    c = q.run(a)
    levels.one_record(a.metadata, c.metadata, type(q).__name__, k2)
