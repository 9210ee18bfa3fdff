"""Levels on the global window grid and the windows that fit, by brute force."""
from gen import *


def level(rng, n=None, fs=None):
    from resistics.decimate import DecimatedLevelMetadata
    fs = rng.choice([64.0, 128.0, 100.0, 50.0, 10.0, 16.0, 1.0, 200.0, 0.5, 256.0, 20.0, 4096.0]) if fs is None else fs
    per = 1 / Fraction(str(fs))
    ref = start(rng)
    off = rng.choice([0, 1, 7, rng.randrange(500), rng.randrange(10 ** 6)])
    n = rng.randrange(1, 600) if n is None else n
    first = at(ref, off * per)
    return ref, off, per, DecimatedLevelMetadata(fs=fs, n_samples=n, first_time=first, last_time=at(first, (n - 1) * per))


def sizes(rng, n):
    ws = rng.choice([2, 3, 8, 16, 32, 100, rng.randrange(2, max(3, n + 5))])
    ol = rng.choice([1, ws // 4, ws // 2, ws - 1, rng.randrange(1, ws)])
    return ws, max(1, min(ws - 1, ol))


def expected(off, n, ws, ol):
    """(global, from sample) of the windows entirely inside the level."""
    inc = ws - ol
    g = -(-off // inc)
    out = []
    while g * inc - off + ws <= n:
        out.append((g, g * inc - off))
        g += 1
    return out
