from common import *
import grid
from gen import *
from resistics import window as W
import pandas as pd


@scenario(weight=4)
def table(rng):
    ref, off, per, lm = grid.level(rng)
    ws, ol = grid.sizes(rng, lm.n_samples)
    note(fs=lm.fs, reference=str(ref), offset_samples=off, n=lm.n_samples, win_size=ws, olap_size=ol)
    t = W.get_win_table(ref, lm, ws, ol)
    e = grid.expected(off, lm.n_samples, ws, ol)
    same([int(x) for x in t["global"]], [g for g, _ in e], "global windows")
    same([int(x) for x in t["local"]], list(range(len(e))), "local numbers")
    same([int(x) for x in t["from_sample"]], [s for _, s in e], "from samples")
    same([int(x) for x in t["to_sample"]], [s + ws - 1 for _, s in e], "to samples")
    exact = (per * 10 ** 9).denominator == 1 and (per * (ws - ol) * 10 ** 9).denominator == 1
    if exact and len(str(ref).split(".")[-1]) <= 9:
        same([pd.Timestamp(x) for x in t["win_start"]], [pd.Timestamp(at(lm.first_time, s * per).isoformat()) for _, s in e], "window starts")
        same([pd.Timestamp(x) for x in t["win_end"]], [pd.Timestamp(at(lm.first_time, (s + ws - 1) * per).isoformat()) for _, s in e], "window ends")
    elif e:
        a = pd.Timestamp(at(lm.first_time, e[-1][1] * per).isoformat())
        check(abs((pd.Timestamp(t["win_start"].iloc[-1]) - a).value) <= 10 + len(e), "window starts to the nanosecond")


@scenario()
def late_reference(rng):
    ref, off, per, lm = grid.level(rng)
    ws, ol = grid.sizes(rng, lm.n_samples)
    bad = at(lm.first_time, rng.choice([per, per / 2, 5 * per, Fraction(1, 10 ** 9)]))
    note(reference=str(bad), first=str(lm.first_time))
    refused("reference after the first sample", ValueError, W.get_win_table, bad, lm, ws, ol)
    refused("reference after the time", ValueError, W.datetime_to_win, bad, lm.first_time, W.inc_duration(ws, ol, lm.fs))


@scenario()
def first_and_last(rng):
    ref, off, per, lm = grid.level(rng)
    ws, ol = grid.sizes(rng, lm.n_samples)
    e = grid.expected(off, lm.n_samples, ws, ol)
    note(fs=lm.fs, offset_samples=off, n=lm.n_samples, win_size=ws, olap_size=ol)
    if not e:
        raise Skip()
    a, b = W.get_first_and_last_win(ref, lm, ws, ol)
    same([int(a), int(b)], [e[0][0], e[-1][0]], "first and last window")


@scenario()
def grid_times(rng):
    ref, off, per, lm = grid.level(rng)
    ws, ol = grid.sizes(rng, lm.n_samples)
    inc = W.inc_duration(ws, ol, lm.fs)
    g = rng.randrange(0, 100000)
    note(fs=lm.fs, win_size=ws, olap_size=ol, window=g)
    same(secs(inc), (ws - ol) * per, "increment")
    same(secs(W.win_duration(ws, lm.fs)), (ws - 1) * per, "duration")
    t = W.win_to_datetime(ref, g, inc)
    same(secs(t - ref), g * (ws - ol) * per, "time of a window")
    for m in ("round", "floor", "ceil"):
        same(int(W.datetime_to_win(ref, t, inc, m)), g, f"window of its own time ({m})")
    q = at(t, (ws - ol) * per * rng.choice([Fraction(1, 4), Fraction(2, 3)]))
    u = secs(q - t) / ((ws - ol) * per)
    same(int(W.datetime_to_win(ref, q, inc, "floor")), g, "window at or before")
    same(int(W.datetime_to_win(ref, q, inc, "ceil")), g + 1, "window at or after")
    same(int(W.datetime_to_win(ref, q, inc, "round")), g + (1 if u > Fraction(1, 2) else 0), "nearest window")


@scenario()
def starts(rng):
    ref, off, per, lm = grid.level(rng, fs=rng.choice([64.0, 128.0, 50.0, 10.0, 1.0]))
    ws, ol = grid.sizes(rng, lm.n_samples)
    n, g = rng.randrange(1, 20), rng.randrange(100)
    if len(str(ref).split(".")[-1]) > 9 or ((ws - ol) * per * 10 ** 9).denominator != 1:
        raise Skip()
    note(fs=lm.fs, win_size=ws, olap_size=ol, n=n, first=g)
    s = W.get_win_starts(ref, ws, ol, lm.fs, n, g)
    same(list(s), [pd.Timestamp(at(ref, (g + i) * (ws - ol) * per).isoformat()) for i in range(n)], "window starts")
    same(list(W.get_win_ends(s, ws, lm.fs)), [pd.Timestamp(at(ref, (g + i) * (ws - ol) * per + (ws - 1) * per).isoformat()) for i in range(n)], "window ends")
