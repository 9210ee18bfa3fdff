from objs import *
import C22
import C16 as P16
import C20 as P20

CONTRACTS[:] = [c for c in CONTRACTS if c.prop == "C21"]
G = lambda: mod("gather")
FN = "resistics.gather."


@contract("C21", "quick gathering", [FN + "QuickGather.run", FN + "QuickGather._get_combined_data", "resistics.spectra.SpectraData.get_chans"], budget=180)
def quick():
    sd, tf, at = C22.chosen()
    md = sd.metadata
    nl, lm = md.n_levels, PList(md.levels_metadata)
    per = nat("per_level", 1)
    params, _ = P16.dec_params(nl, per)
    nf = lambda l: num(lm.get(l).n_freqs)
    require_forall(nl, lambda l: nf(l) <= per)
    d = fs.Path.mk("d", [sstr("name")])
    p = build(G().QuickGather, name="QuickGather")
    m = mark()
    o = attempt(p.run, d, params, tf, sd)
    ensure(o.ok, "gathered")
    if not o.ok:
        return
    cover("done")
    unchanged(m, "spectra data unchanged")
    gd = o.value
    total = V.prefix(nl, nf).at(nl)
    l, i = nat("l"), nat("i")
    require(And(l < nl, i < nf(l)))
    lemma(nf(l) <= per, "no more frequencies than evaluation frequencies per level")
    for x in ("out", "in", "cross"):
        part = getattr(gd, x + "_data")
        names, n = PList(getattr(tf, x + "_chans")), getattr(tf, "n_" + x)
        a = part.metadata
        ensure(a.site_name == d.name and num(a.fs) == params.fs, f"{x}: name and sampling frequency")
        ensure(And(*[V.scalar_eq(getattr(a, k), getattr(md, k)) for k in FIELDS_POS + ("system", "serial")]), f"{x}: position")
        ensure_list(PList(a.chans), n, lambda j: names.get(j), f"{x}: channels requested, in order")
        ensure(And(num(a.n_evals) == total, num(PList(a.eval_freqs).n) == total), f"{x}: all evaluation frequencies")
        ensure(PList(a.eval_freqs).get(V.prefix(nl, nf).at(l) + i) == PList(lm.get(l).freqs).get(i), f"{x}: evaluation frequencies level by level")
        ensure(num(part.data.n) == total, f"{x}: one array per evaluation frequency")

        def rows():
            v = part.data.lookup(per * l + i)
            ensure(v is not V.MISSING, f"{x}: data under the key of the level and frequency")
            if v is V.MISSING:
                return
            ensure(And(num(v.shape[0]) == lm.get(l).n_wins, num(v.shape[1]) == n), f"{x}: a row per window, a column per channel")
            y = sd.data.lookup(l)
            w, j = nat("w"), nat("j")
            require(And(w < lm.get(l).n_wins, j < n))
            feasible()
            u, z = v.at(w, j), y.at(w, at[x](j), i)
            ensure(And(u.re == z.re, u.im == z.im), f"{x}: all windows in order, each channel's own values")
        branches(rows)


@contract("C21", "sites of a project gathering", [FN + "ProjectGather.run"])
def project_sites():
    C22_tf = C22.chosen()[1]
    p = build(G().ProjectGather, name="ProjectGather")
    config, proj, sel = sstr("config"), object(), object()
    asked = []

    def site_data(self, config_name, proj_, selection, site_name, chans):
        r = build(G().GatheredData)
        asked.append((config_name, proj_, selection, site_name, chans, r))
        return r
    setattr(G().ProjectGather, "_get_site_data", site_data)
    names = {"out": sstr("out_name")}
    kw = {}
    for k in ("in", "cross"):
        if decide(sbool(k + "_given")):
            names[k] = kw[k + "_name"] = sstr(k + "_name")
    o = attempt(p.run, config, proj, sel, C22_tf, names["out"], **kw)
    ensure(o.ok, "gathered")
    if not o.ok:
        return
    cover("done")
    names.setdefault("in", names["out"])
    names.setdefault("cross", names["in"])
    for k in ("out", "in", "cross"):
        got = [a for a in asked if a[5] is getattr(o.value, k + "_data")]
        ensure(len(got) == 1, f"{k}: data of a site")
        if len(got) != 1:
            return
        c, pr, s, nm, ch, _ = got[0]
        ensure(And(c == config, pr is proj, s is sel), f"{k}: for the configuration, project and selection")
        ensure(nm == names[k], f"{k}: the site named, or its default")
        want = PList(getattr(C22_tf, k + "_chans"))
        ensure_list(PList(ch), want.n, lambda j: want.get(j), f"{k}: the transfer function's channels")


@contract("C21", "rows of a measurement's windows", [FN + "ProjectGather._get_indices"])
def indices():
    s, nl, n, per, dl, params, ev, names, sites, rows, lab, name, use = P20.selection()
    l, e, q = nat("l"), nat("e"), nat("q")
    require(And(l < nl, e < per, q < n))
    meas = sstr("meas")
    off = sint("index_offset")
    md = build(mod("spectra").SpectraLevelMetadata, index_offset=off, n_wins=nat("n_wins"))
    T = s.get_eval_wins(l, e)
    k = num(T.idx.shape[0])
    col, idx = T.cols.lookup(names.get(q)), T.idx
    i = sint("i")
    require(And(0 <= i, i < k))
    hint(i)
    require(Not(names.get(q) == "combined_index"))
    p = build(G().ProjectGather, name="ProjectGather")
    o = attempt(p._get_indices, T, sites.get(q), meas, md)
    ensure(o.ok, "rows are found")
    if not o.ok:
        return
    cover("done")
    own, row = o.value
    c = num(row.shape[0])
    ensure(num(own.shape[0]) == c, "as many windows of the measurement as rows")
    r = sint("r")
    if decide(col.at(i) == meas):
        r = A.mask_select(A.NDArray.make((k,), A.BOOL, lambda y: col.at(y) == meas)).rank(i)
        ensure(And(0 <= r, r < c), "a row for every window taken from the measurement")
        ensure(row.at(r) == i, "that row")
    require(And(0 <= r, r < c))
    feasible()
    y = row.at(r)
    ensure(And(0 <= y, y < k), "rows of the table")
    ensure(col.at(y) == meas, "only rows of the measurement")
    ensure(own.at(r) == idx.at(y) - off, "each row's window, counted from the measurement's first")
    ensure(Implies(r + 1 < c, y < row.at(r + 1)), "each row once")


@contract("C21", "arrays of a project gathering", [FN + "ProjectGather._get_empty_data"])
def empty():
    s, nl, n, per, dl, params, ev, names, sites, rows, lab, name, use = P20.selection(1)
    nc = nat("n_chans")
    chans = PList(strings("chan", nc))
    count = eng.fresh_fn("n_wins", [z3.IntSort(), z3.IntSort()], z3.IntSort())
    eng.fn_axioms[count(z3.IntVal(0), z3.IntVal(0)).decl().name()] = lambda t: [t >= 0]
    wins = lambda l, e: SNum.atom(count(iz(l), iz(e)), "int")
    setattr(G().Selection, "get_n_wins", lambda self, level, eval_idx: wins(level, eval_idx))
    p = build(G().ProjectGather, name="ProjectGather")
    o = attempt(p._get_empty_data, s, chans)
    ensure(o.ok, "arrays are made")
    if not o.ok:
        return
    cover("done")
    ensure(num(o.value.n) == nl * per, "one array per evaluation frequency")
    l, e = nat("l"), nat("e")
    require(And(l < nl, e < per))
    feasible()
    v = o.value.lookup(per * l + e)
    ensure(v is not V.MISSING, "under the key of the level and frequency")
    if v is not V.MISSING:
        ensure(And(num(v.shape[0]) == wins(l, e), num(v.shape[1]) == nc), "a row per window, a column per channel")
