from common import *
from gen import *
from resistics import decimate as D


def rate(rng):
    return rng.choice(FS + [3.0, 7.5, 44100.0, 1e6, 1e-3, rng.uniform(0.01, 1e4)])


@scenario()
def size(rng):
    fs, n = rate(rng), rng.randrange(1, 60)
    note(fs=fs, n_freqs=n)
    e = np.array([fs / 4 / 2 ** (k / 2) for k in range(n)])
    close(D.get_eval_freqs_size(fs, n), e, "frequencies", rtol=1e-12)
    close(D.get_eval_freqs(fs, n_freqs=n), e, "frequencies", rtol=1e-12)


@scenario(weight=2)
def minimum(rng):
    fs = rate(rng)
    k = rng.randrange(0, 40)
    f = fs / 4 / 2 ** (k / 2) * rng.choice([1.0, 1.0, 0.999, 1.001, 0.85])
    if rng.random() < 0.2:
        f = rng.choice([0.0, -1.0, fs / 4 * 1.001, fs / 2, fs, -fs])
    note(fs=fs, f_min=f)
    for g in (lambda: D.get_eval_freqs_min(fs, f), lambda: D.get_eval_freqs(fs, f_min=f)):
        if f <= 0 or f > fs / 4:
            refused("minimum frequency outside (0, fs/4]", ValueError, g)
            continue
        r = g()
        e, j = [], 0
        while fs / 4 / np.power(2, j / 2.0) >= f:
            e.append(fs / 4 / np.power(2, j / 2.0))
            j += 1
        if any(abs(x / f - 1) < 1e-12 and x != f for x in [fs / 4 / 2 ** (j / 2), e[-1]]):
            raise Skip()
        close(r, np.array(e), "frequencies", rtol=1e-12)


@scenario(limit=5)
def nothing(rng):
    refused("neither minimum nor number", ValueError, D.get_eval_freqs, rate(rng))


@scenario()
def both(rng):
    fs, n = rate(rng), rng.randrange(1, 9)
    f = fs / 4 / 2 ** (n / 2) * 0.99
    close(D.get_eval_freqs(fs, f_min=f, n_freqs=3), np.array([fs / 4 / 2 ** (k / 2) for k in range(n + 1)]), "minimum takes precedence", rtol=1e-12)
