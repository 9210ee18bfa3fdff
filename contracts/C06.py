from objs import *


def run(p, td):
    o = attempt(p.run, td)
    ensure(o.ok, "runs")
    if o.ok:
        cover("succeeds")
    return o.value if o.ok else None


def start(**kw):
    td = time_data(**kw)
    x = td.data.copy()
    return td, x, PList(td.metadata.chans)


def shape(r, x):
    ensure(And(num(r.data.shape[0]) == x.shape[0], num(r.data.shape[1]) == x.shape[1]), "same shape as the input")


@contract("C06", "Add a number", ["resistics.time.Add.run", "resistics.time.Add._get_add"])
def add_number():
    td, x, _ = start()
    v = sreal("v")
    r = run(mod("time").Add(add=v), td)
    if r:
        shape(r, x)
        ensure_cells(r.data, lambda i, j: x.at(i, j) + v, "every sample of every channel plus the number")


@contract("C06", "Add by channel", ["resistics.time.Add.run", "resistics.time.Add._get_add"])
def add_chan():
    td, x, chans = start()
    d = values_by_name("v")
    r = run(mod("time").Add(add=d), td)

    def want(i, j):
        v = d.lookup(chans.get(i))
        return x.at(i, j) if v is V.MISSING else x.at(i, j) + v
    if r:
        shape(r, x)
        ensure_cells(r.data, want, "each channel plus its own number, channels not named unchanged")


@contract("C06", "Multiply by a number", ["resistics.time.Multiply.run", "resistics.time.Multiply._get_mult"])
def mult_number():
    td, x, _ = start()
    v = sreal("v")
    r = run(mod("time").Multiply(multiplier=v), td)
    if r:
        shape(r, x)
        ensure_cells(r.data, lambda i, j: x.at(i, j) * v, "every sample of every channel times the number")


@contract("C06", "Multiply by channel", ["resistics.time.Multiply.run", "resistics.time.Multiply._get_mult"])
def mult_chan():
    td, x, chans = start()
    d = values_by_name("v")
    r = run(mod("time").Multiply(multiplier=d), td)

    def want(i, j):
        v = d.lookup(chans.get(i))
        return x.at(i, j) if v is V.MISSING else x.at(i, j) * v
    if r:
        shape(r, x)
        ensure_cells(r.data, want, "each channel times its own number, channels not named unchanged")


@contract("C06", "ApplyFunction", ["resistics.time.ApplyFunction.run", "resistics.time.TimeData.get_chan_index", "resistics.time.TimeData.get_chan"])
def apply():
    td, x, chans = start()
    d = functions_by_name()
    r = run(build(mod("time").ApplyFunction, name="ApplyFunction", fncs=d), td)

    def want(i, j):
        f = d.lookup(chans.get(i))
        return x.at(i, j) if f is V.MISSING else f(x[i]).at(j)
    if r:
        shape(r, x)
        ensure_cells(r.data, want, "each channel's own function of its samples, channels not named unchanged")


@contract("C06", "RemoveMean", ["resistics.time.RemoveMean.run"])
def mean():
    td, x, _ = start()
    np = mod("time").np
    r = run(mod("time").RemoveMean(), td)
    if r:
        shape(r, x)
        ensure_cells(r.data, lambda i, j: x.at(i, j) - np.mean(x[i]), "sample minus its own channel's mean")
