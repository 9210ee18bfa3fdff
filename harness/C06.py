from common import *
from gen import *
from resistics import time as T


def source(rng):
    td = time_data(rng, n=rng.randrange(1, 40))
    note(data=describe(td), values=td.data.ravel()[:4].tolist())
    return td


def per_channel(rng, td):
    d = {c: rng.choice([2.5, -3.0, 0.25, 0.0, 7, 1e3]) for c in rng.sample(td.metadata.chans + ["nowhere"], rng.randrange(0, len(td.metadata.chans) + 2))}
    return d


@scenario(weight=2)
def add(rng):
    td = source(rng)
    arg = rng.choice([5, -2.5, 0, 0.1]) if rng.random() < 0.4 else per_channel(rng, td)
    note(add=arg)
    out = T.Add(add=arg).run(td)
    for i, c in enumerate(td.metadata.chans):
        v = arg if not isinstance(arg, dict) else arg.get(c, 0)
        same(out.data[i], td.data[i] + td.data.dtype.type(v), f"channel {c}")
        same(out.get_chan(c), out.data[i], "channel row")


@scenario(weight=2)
def multiply(rng):
    td = source(rng)
    arg = rng.choice([5, -2.5, 0, 0.1]) if rng.random() < 0.4 else per_channel(rng, td)
    note(multiplier=arg)
    out = T.Multiply(multiplier=arg).run(td)
    for i, c in enumerate(td.metadata.chans):
        v = arg if not isinstance(arg, dict) else arg.get(c, 1)
        same(out.data[i], td.data[i] * td.data.dtype.type(v), f"channel {c}")


@scenario(weight=2)
def apply(rng):
    td = source(rng)
    lib = {"square": (lambda x: x * x), "plus one": lambda x: x + 1, "running": np.cumsum, "reverse": lambda x: x[::-1]}
    pick = {c: rng.choice(sorted(lib)) for c in rng.sample(td.metadata.chans + ["nowhere"], rng.randrange(0, len(td.metadata.chans) + 2))}
    note(functions=pick)
    out = T.ApplyFunction(fncs={c: lib[k] for c, k in pick.items()}).run(td)
    for i, c in enumerate(td.metadata.chans):
        e = lib[pick[c]](td.data[i]) if c in pick else td.data[i]
        same(out.data[i].astype(float), np.asarray(e).astype(float), f"channel {c}")


@scenario(weight=2)
def mean(rng):
    td = source(rng)
    out = T.RemoveMean().run(td)
    for i, c in enumerate(td.metadata.chans):
        x = td.data[i].astype(float)
        close(out.data[i], x - x.mean(), f"channel {c}", rtol=1e-4 if td.data.dtype == np.float32 else 1e-10, scale=float(np.abs(x).max()))
