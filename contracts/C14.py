from objs import *

W = lambda: mod("window")
FN = "resistics.window."


@contract("C14", "computed sizes", [FN + "WindowSetup._get_win_sizes", FN + "WindowSetup._get_olap_sizes", FN + "WindowSetup.run"])
def computed():
    nl = nat("n_levels", 1)
    dec_fs = real_array("dec_fs", nat("n_fs"))
    require(dec_fs.n >= nl)
    require_forall(dec_fs.n, lambda i: dec_fs.at(i) > 0)
    p = W().WindowSetup(min_size=nat("min_size", 1), min_olap=nat("min_olap", 1), win_factor=nat("factor", 1), olap_proportion=sreal("proportion"), min_n_wins=nat("min_n_wins", 1))
    require(p.olap_proportion >= 0)
    fsl = dec_fs.tolist()
    m = mark()
    o = attempt(p.run, nl, fsl)
    ensure(o.ok, "sizes for every level")
    if not o.ok:
        return
    cover("done")
    w, ov = PList(o.value.win_sizes), PList(o.value.olap_sizes)
    ensure(And(w.n == nl, ov.n == nl), "exactly one size and overlap per level")
    ensure(And(o.value.n_levels == nl, o.value.min_n_wins == p.min_n_wins), "number of levels and minimum number of windows kept")
    ensure_forall(nl, lambda l: num(w.get(l)) == N.smax(N.floor(dec_fs.at(l) / p.win_factor), p.min_size), "window size: rate over factor rounded down, at least the minimum")
    ensure_forall(nl, lambda l: num(ov.get(l)) == N.smax(N.floor(num(w.get(l)) * p.olap_proportion), p.min_olap), "overlap: proportion of the size rounded down, at least the minimum")
    unchanged(m, "setup and rates unchanged")


@contract("C14", "user sizes", [FN + "WindowSetup.run"])
def given():
    nl = nat("n_levels", 1)
    dec_fs = real_array("dec_fs", nl)
    require_forall(nl, lambda i: dec_fs.at(i) > 0)
    own_w, own_o = decide(sbool("own_sizes")), decide(sbool("own_overlaps"))
    require(own_w or own_o)
    kw = dict(min_size=nat("min_size", 1), min_olap=nat("min_olap", 1), win_factor=nat("factor", 1), olap_proportion=sreal("proportion"), min_n_wins=nat("min_n_wins", 1))
    ws, os_ = int_array("sizes", nat("n_sizes")), int_array("overlaps", nat("n_overlaps"))
    require_forall(ws.n, lambda i: ws.at(i) >= 1)
    if own_w:
        kw["win_sizes"] = ws.tolist()
    if own_o:
        kw["olap_sizes"] = os_.tolist()
    p = W().WindowSetup(**kw)
    require(p.olap_proportion >= 0)
    m = mark()
    o = attempt(p.run, nl, dec_fs.tolist())
    few = Or(And(own_w, ws.n < nl), And(own_o, os_.n < nl))
    if decide(few):
        cover("few")
        must_fail(o, ValueError, "fewer user sizes than levels refused")
        unchanged(m, "setup unchanged")
        return
    ensure(o.ok, "enough user sizes accepted")
    if not o.ok:
        return
    cover("enough")
    w, ov = PList(o.value.win_sizes), PList(o.value.olap_sizes)
    ensure(And(w.n == nl, ov.n == nl), "exactly one size and overlap per level")
    if own_w:
        ensure_forall(nl, lambda l: num(w.get(l)) == ws.at(l), "user sizes as given for the first levels")
    else:
        ensure_forall(nl, lambda l: num(w.get(l)) == N.smax(N.floor(dec_fs.at(l) / p.win_factor), p.min_size), "window size computed where not given")
    if own_o:
        ensure_forall(nl, lambda l: num(ov.get(l)) == os_.at(l), "user overlaps as given for the first levels")
    else:
        ensure_forall(nl, lambda l: num(ov.get(l)) == N.smax(N.floor(num(w.get(l)) * p.olap_proportion), p.min_olap), "overlap computed from the given sizes")
    unchanged(m, "setup unchanged")


@contract("C14", "asking for a level", [FN + "WindowParameters." + f for f in ("check_level", "get_win_size", "get_olap_size")])
def access():
    nl = nat("n_levels", 1)
    w, ov = int_array("w", nl), int_array("o", nl)
    p = W().WindowParameters(n_levels=nl, min_n_wins=nat("m", 1), win_sizes=w.tolist(), olap_sizes=ov.tolist())
    l = sint("level")
    for f, a, name in ((p.get_win_size, w, "window size"), (p.get_olap_size, ov, "overlap")):
        def one(f=f, a=a, name=name):
            o = attempt(f, l)
            if decide(Or(l < 0, l >= nl)):
                must_fail(o, ValueError, f"{name} of a level outside refused")
                return
            cover(name)
            ensure(o.ok, f"{name} of every level")
            if o.ok:
                ensure(num(o.value) == a.at(l), f"{name} is the level's own")
        branches(one)
