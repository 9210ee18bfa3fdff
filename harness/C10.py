from common import *
from gen import *
from resistics import decimate as D


def setup(rng):
    fs = rng.choice(FS)
    nl, pl, div = rng.randrange(1, 9), rng.randrange(1, 7), rng.choice([2, 2, 2, 3, 4, 5, 10])
    kw = dict(n_levels=nl, per_level=pl, div_factor=div, min_samples=rng.randrange(1, 300))
    if rng.random() < 0.5:
        ny = fs / 2
        f = sorted([ny * 2.0 ** -rng.uniform(0, 10) for _ in range(nl * pl)], reverse=True)
        if rng.random() < 0.4:   # within a level in any order
            f = [x for l in range(nl) for x in rng.sample(f[l * pl:(l + 1) * pl], pl)]
        kw["eval_freqs"] = f
    return fs, kw


def ladder(fs, n):
    return [fs / 4 / 2 ** (k / 2) for k in range(n)]


@scenario(weight=3)
def parameters(rng):
    fs, kw = setup(rng)
    note(fs=fs, **kw)
    nl, pl, div = kw["n_levels"], kw["per_level"], kw["div_factor"]
    given = list(kw["eval_freqs"]) if "eval_freqs" in kw else None
    p = D.DecimationSetup(**kw).run(fs)
    ev = given or ladder(fs, nl * pl)
    same([p.n_levels, p.per_level, p.min_samples, p.fs], [nl, pl, kw["min_samples"], fs], "setup values")
    close(np.array(p.eval_freqs), np.array(ev), "evaluation frequencies", rtol=1e-12)
    total = 1
    for l in range(nl):
        row = ev[l * pl:(l + 1) * pl]
        target = 4 * max(row)
        f, ambiguous = 1, False
        if target <= fs:
            while fs / (f * div) >= target * (1 - 1e-9):
                ambiguous |= abs(fs / (f * div) / target - 1) < 1e-9 and fs / (f * div) != target
                f *= div
        else:
            ambiguous = abs(target / fs - 1) < 1e-9
        if ambiguous:
            raise Skip()
        same(int(p.get_total_factor(l)), f, f"total factor of level {l}")
        close(p.get_fs(l), fs / f, f"sampling frequency of level {l}")
        total *= p.get_incremental_factor(l)
        same(int(total), f, f"product of the incremental factors up to level {l}")
        close(np.array(p.get_eval_freqs(l)), np.array(row), f"frequencies of level {l}", rtol=1e-12)
        close(np.array(p[l]), np.array(row), f"frequencies of level {l} by []", rtol=1e-12)
        for i in range(pl):
            close(p.get_eval_freq(l, i), row[i], f"frequency {i} of level {l}", rtol=1e-12)
            close(p[l, i], row[i], f"frequency {i} of level {l} by []", rtol=1e-12)
    for l in (-1, nl, nl + 2):
        for g in (p.get_eval_freqs, p.get_fs, p.get_total_factor, p.get_incremental_factor, lambda l: p.get_eval_freq(l, 0), lambda l: p[l]):
            refused(f"level {l} of {nl}", ValueError, g, l)
    for i in (-1, pl, pl + 1):
        refused(f"index {i} of {pl}", ValueError, p.get_eval_freq, 0, i)
    close(p.to_numpy(), np.array(ev).reshape(nl, pl), "table", rtol=1e-12)
    df = p.to_dataframe()
    same(list(df["factors"]), list(p.dec_factors), "table of factors")
    same(list(df["increments"]), list(p.dec_increments), "table of increments")


@scenario()
def refusals(rng):
    fs = rng.choice(FS)
    nl, pl = rng.randrange(1, 5), rng.randrange(1, 5)
    f = [fs / 2 * 2.0 ** -k for k in range(nl * pl)]
    k = rng.choice(["few", "many", "high"])
    g = f[:-1] if k == "few" else f + [f[-1] / 2] if k == "many" else list(f)
    if k == "high":
        g[rng.randrange(len(g))] = fs / 2 * rng.choice([1.001, 1.5, 4])
    note(fs=fs, n_levels=nl, per_level=pl, eval_freqs=g)
    refused("frequencies of the wrong count or above Nyquist", ValueError, D.DecimationSetup(n_levels=nl, per_level=pl, eval_freqs=g).run, fs)


@scenario()
def given(rng):
    """parameters built directly from total factors."""
    nl, pl, fs = rng.randrange(1, 6), rng.randrange(1, 4), 1024.0
    fac = [1]
    for _ in range(nl - 1):
        fac.append(fac[-1] * rng.choice([1, 2, 4]))
    p = D.DecimationParameters(fs=fs, n_levels=nl, per_level=pl, min_samples=5, eval_freqs=ladder(fs, nl * pl), dec_factors=fac)
    note(factors=fac)
    same([int(x) for x in np.cumprod(p.dec_increments)], fac, "products of increments")
    close(np.array(p.dec_fs), fs / np.array(fac), "sampling frequencies")
