from objs import *

Rg = lambda: mod("regression")
FN = "resistics.regression."
I = z3.IntSort()


def transfer_function(names=None):
    """the channels of the transfer function: any, or those given by role."""
    T = mod("transfunc")
    names = {} if names is None else names
    for x in ("out", "in", "cross"):
        if x not in names:
            n = nat("n_" + x, 1)
            names[x] = (n, channels(n))
    return build(T.TransferFunction, name="TransferFunction", variation="generic", out_chans=names["out"][1], in_chans=names["in"][1], cross_chans=names["cross"][1],
                 n_out=names["out"][0], n_in=names["in"][0], n_cross=names["cross"][0])


def equations(tf, obs, preds, nw, out, inp, cross):
    """observations and predictors of one frequency: out(w, o), inp(w, i) and cross(w, c) are its cells."""
    no, ni, nc = tf.n_out, tf.n_in, tf.n_cross
    rows = nw * nc * 2
    w, c, o, i = nat("w"), nat("c"), nat("o"), nat("i")
    require(And(w < nw, c < nc, o < no, i < ni))
    feasible()
    r = (w * nc + c) * 2
    y = obs.lookup(PList(tf.out_chans).get(o))
    ensure(y is not V.MISSING, "observations of every output")
    if y is V.MISSING:
        return
    ensure(And(len(y.shape) == 1, num(y.shape[0]) == rows), "one complex equation per window and cross channel")
    lhs = out(w, o) * cross(w, c).conjugate()
    ensure(y.at(r) == lhs.re, "real part of the left side")
    ensure(y.at(r + 1) == lhs.im, "imaginary part of the left side")
    ensure(And(len(preds.shape) == 2, num(preds.shape[0]) == rows, num(preds.shape[1]) == ni * 2), "predictor rows and columns")
    k = inp(w, i) * cross(w, c).conjugate()
    ensure(And(preds.at(r, i * 2) == k.re, preds.at(r, i * 2 + 1) == -k.im), "real rows of the predictors")
    ensure(And(preds.at(r + 1, i * 2) == k.im, preds.at(r + 1, i * 2 + 1) == k.re), "imaginary rows of the predictors")


@contract("C22", "gathered data", [FN + "RegressionPreparerGathered." + f for f in ("run", "_get_regression_data", "_get_cross_powers", "_get_obs", "_get_preds", "_get_preds_win")])
def gathered():
    G = mod("gather")
    tf = transfer_function()
    nf = nat("n_evals", 1)
    nw = per_level("nw", nf, "int", 1)
    freqs = real_array("freqs", nf)
    parts, cells = [], []
    for x in ("out", "in", "cross"):
        chans, n = getattr(tf, x + "_chans"), getattr(tf, "n_" + x)
        m = build(G.SiteCombinedMetadata, file_info=None, site_name=sstr("site"), fs=pos_real("fs"), chans=chans, n_evals=nf, eval_freqs=freqs.tolist(), histories=PDict(), measurements=PList())
        arr = level_cells(x + "_data", 2, "complex")
        cells.append(arr)
        parts.append(G.SiteCombinedData(m, PDict.family(nf, lambda l: l, generic_object(lambda l, arr=arr, n=n: arr(l, (nw(l), n))))))
    gd = G.GatheredData(*parts)
    p = build(Rg().RegressionPreparerGathered, name="RegressionPreparerGathered")
    m = mark()
    o = attempt(p.run, tf, gd)
    ensure(o.ok, "equations are prepared")
    if not o.ok:
        return
    cover("done")
    unchanged(m, "gathered data unchanged")
    ri = o.value
    ensure(ri.tf is tf, "transfer function")
    ensure_list(ri.freqs, nf, lambda k: freqs.at(k), "frequencies in order")
    ensure(And(num(PList(ri.obs).n) == nf, num(PList(ri.preds).n) == nf), "one set of equations per frequency")

    def at():
        f = nat("f")
        require(f < nf)
        a = [x.data.lookup(f) for x in parts]
        equations(tf, PList(ri.obs).get(f), PList(ri.preds).get(f), nw(f), a[0].at, a[1].at, a[2].at)
    branches(at)


def chosen():
    """spectra data and a transfer function between any of its channels; where those are."""
    sd = spectra_data()
    md = sd.metadata
    nl, chans, lm = md.n_levels, PList(md.chans), PList(md.levels_metadata)
    at, names = {}, {}
    for x in ("out", "in", "cross"):        # any channels of the data, in any order
        n = nat("n_" + x, 1)
        f, g = z3.Function(fresh("chan_" + x), I, I), z3.Function(fresh("of_" + x), I, I)
        at[x] = lambda j, f=f: SNum.atom(f(iz(j)), "int")
        require_forall(n, lambda j: And(0 <= at[x](j), at[x](j) < md.n_chans, SNum.atom(g(f(iz(j))), "int") == j))
        names[x] = n, PList.sym(n, lambda j, w=at[x]: chans.get(w(j)))
    tf = transfer_function(names)
    return sd, tf, at


@contract("C22", "spectra data", [FN + "RegressionPreparerSpectra." + f for f in ("run", "_get_cross_powers", "_get_obs", "_get_preds", "_get_preds_win")] + ["resistics.spectra.SpectraData.get_chans"])
def spectra():
    sd, tf, at = chosen()
    md = sd.metadata
    nl, lm = md.n_levels, PList(md.levels_metadata)
    p = build(Rg().RegressionPreparerSpectra, name="RegressionPreparerSpectra")
    m = mark()
    o = attempt(p.run, tf, sd)
    ensure(o.ok, "equations are prepared")
    if not o.ok:
        return
    cover("done")
    unchanged(m, "spectra data unchanged")
    ri = o.value
    ensure(ri.tf is tf, "transfer function")
    nf = lambda l: num(lm.get(l).n_freqs)
    start = V.prefix(nl, nf)
    total = start.at(nl)
    l, i = nat("l"), nat("i")
    require(And(l < nl, i < nf(l)))
    q = start.at(l) + i
    ensure(And(*[num(PList(x).n) == total for x in (ri.freqs, ri.obs, ri.preds)]), "one set of equations for every frequency of every level")
    ensure(PList(ri.freqs).get(q) == PList(lm.get(l).freqs).get(i), "frequencies level by level")

    def at_():
        a = sd.data.lookup(l)
        cell = lambda x: lambda w, c: a.at(w, at[x](c), i)
        equations(tf, PList(ri.obs).get(q), PList(ri.preds).get(q), num(lm.get(l).n_wins), cell("out"), cell("in"), cell("cross"))
    branches(at_)
