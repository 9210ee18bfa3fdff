from common import *
from gen import *
import procs
from resistics import time as T
from resistics.errors import ProcessRunError
import scipy.signal as sg


class Calls:
    """records the calls of scipy.signal functions and passes them on."""

    def __init__(self, *names):
        self.names, self.calls = names, []

    def __enter__(self):
        self.real = {n: getattr(sg, n) for n in self.names}
        for n in self.names:
            def f(*a, _n=n, **k):
                self.calls.append((_n, a, k))
                return self.real[_n](*a, **k)
            setattr(sg, n, f)
        return self

    def __exit__(self, *a):
        for n, f in self.real.items():
            setattr(sg, n, f)


def prime(n):
    return n > 1 and all(n % i for i in range(2, int(n ** 0.5) + 1))


@scenario(weight=2)
def steps(rng):
    factor, mx = rng.randrange(1, 120), rng.randrange(2, 14)
    if rng.random() < 0.2:
        factor = rng.choice([2, 3, 5, 7, 11]) ** rng.randrange(1, 4)
    note(factor=factor, max_single_factor=mx)
    fs = T.Decimate(factor=factor, max_single_factor=mx)._get_downsample_factors(factor)
    same(int(np.prod(fs)), factor, "product of the steps")
    for f in fs:
        check(f <= mx or prime(f), f"step {f} above the maximum single factor {mx}, steps {fs}")


@scenario()
def decimation(rng):
    td = procs.suitable(rng, nmin=300, nmax=700)
    factor, mx = rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 12]), rng.choice([2, 3, 4, 6, 13])
    note(data=describe(td), factor=factor, max_single_factor=mx)
    with Calls("decimate") as c:
        out = T.Decimate(factor=factor, max_single_factor=mx).run(td)
    done = [int(a[1] if len(a) > 1 else k["q"]) for _, a, k in c.calls]
    same(int(np.prod(done)), factor, "product of the steps applied")
    for f in done:
        check(f <= mx or prime(f), f"step {f} above the maximum single factor {mx}")
    same(out.data.shape, (td.data.shape[0], -(-td.data.shape[1] // factor)), "shape")
    x = td.data.astype(float)
    for f in done:
        if f > 1:
            x = sg.decimate(x, f, axis=1, zero_phase=True)
    close(out.data, x.astype(td.data.dtype), "decimated samples", rtol=1e-4)


def expect(td, order, wn, btype):
    sos = sg.butter(order, wn, btype=btype, output="sos")
    return sg.sosfiltfilt(sos, td.data, axis=1).astype(td.data.dtype)


@scenario(weight=4)
def filters(rng):
    td = procs.suitable(rng)
    ny, o = td.metadata.fs / 2, rng.choice([1, 2, 3, 4])
    k = rng.choice(["low", "high", "band", "notch"])
    u = [rng.uniform(0.1, 0.9) for _ in range(2)]
    if rng.random() < 0.25:
        u[0] = rng.uniform(1.01, 1.6)
    if k in ("low", "high"):
        cls, bt = (T.LowPass, "lowpass") if k == "low" else (T.HighPass, "highpass")
        c = ny * u[0]
        note(data=describe(td), kind=k, cutoff=c, order=o)
        if c > ny:
            refused("cut-off above Nyquist", ProcessRunError, cls(cutoff=c, order=o).run, td)
            return
        out, e = cls(cutoff=c, order=o).run(td), expect(td, o, c / ny, bt)
    elif k == "band":
        lo, hi = u if rng.random() < 0.2 else sorted(u)
        note(data=describe(td), kind=k, low=lo * ny, high=hi * ny, order=o)
        p = T.BandPass(cutoff_low=lo * ny, cutoff_high=hi * ny, order=o)
        if hi * ny > ny or lo > hi:
            refused("cut-offs above Nyquist or out of order", ProcessRunError, p.run, td)
            return
        if hi - lo < 0.01:
            raise Skip()
        out, e = p.run(td), expect(td, o, (lo, hi), "bandpass")
    else:
        band = rng.choice([None, rng.uniform(0.02, 0.1) * ny])
        b = 0.1 * td.metadata.fs if band is None else band
        f = ny * u[0]
        note(data=describe(td), kind=k, notch=f, band=band, order=o)
        p = T.Notch(notch=f, band=band, order=o)
        if f > ny:
            refused("notch above Nyquist", ProcessRunError, p.run, td)
            return
        lo, hi = (f - b / 2) / ny, (f + b / 2) / ny
        if lo <= 0.005 or hi >= 1:
            raise Skip()   # band edges outside (0, Nyquist)
        out, e = p.run(td), expect(td, o, (lo, hi), "bandstop")
    close(out.data, e, "filtered samples", rtol=1e-4 if td.data.dtype == np.float32 else 1e-7, scale=float(np.abs(td.data).max()))
