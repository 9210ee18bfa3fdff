from common import *
from gen import *
from resistics import window as W


@scenario(weight=3)
def setup(rng):
    nl = rng.randrange(1, 8)
    fs = [rng.choice([4096.0, 1000.0, 128.0, 50.0, 7.5])]
    for _ in range(nl - 1):
        fs.append(fs[-1] / rng.choice([1, 2, 4, 3]))
    kw = dict(min_size=rng.choice([2, 16, 128, 256]), min_olap=rng.choice([1, 4, 32]), win_factor=rng.choice([1, 3, 4, 7]), olap_proportion=rng.choice([0.25, 0.5, 0.1, 0.0, 0.9]), min_n_wins=rng.randrange(1, 9))
    if rng.random() < 0.4:
        kw["win_sizes"] = [rng.randrange(10, 1000) for _ in range(max(0, nl + rng.choice([-1, 0, 0, 1, 3])))]
    if rng.random() < 0.4:
        kw["olap_sizes"] = [rng.randrange(1, 10) for _ in range(max(0, nl + rng.choice([-1, 0, 0, 1, 3])))]
    note(n_levels=nl, dec_fs=fs, **kw)
    given = {k: list(v) for k, v in kw.items() if isinstance(v, list)}
    s = W.WindowSetup(**kw)
    before = freeze(s.dict())
    if any(len(v) < nl for v in given.values()):
        refused("fewer sizes than levels", ValueError, s.run, nl, list(fs))
        return
    p = s.run(nl, list(fs))
    ws = given["win_sizes"][:nl] if "win_sizes" in given else [max(kw["min_size"], int(f // kw["win_factor"])) for f in fs]
    ol = given["olap_sizes"][:nl] if "olap_sizes" in given else [max(kw["min_olap"], int(w * kw["olap_proportion"])) for w in ws]
    same([list(p.win_sizes), list(p.olap_sizes), p.n_levels, p.min_n_wins], [ws, ol, nl, kw["min_n_wins"]], "sizes")
    for l in range(nl):
        same([p.get_win_size(l), p.get_olap_size(l)], [ws[l], ol[l]], f"level {l}")
    for l in (-1, nl, nl + 3):
        refused(f"level {l} of {nl}", ValueError, p.get_win_size, l)
        refused(f"level {l} of {nl}", ValueError, p.get_olap_size, l)
    same(freeze(s.dict()), before, "setup afterwards")
