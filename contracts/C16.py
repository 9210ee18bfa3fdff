from objs import *

P = lambda: mod("spectra")
FN = "resistics.spectra.EvaluationFreqs."


def dec_params(nl, per):
    ev = real_array("eval_freqs", nl * per)
    D = mod("decimate")
    f = per_level("dec_factor", nl, "int", 1)
    p = build(D.DecimationParameters, fs=pos_real("dec_fs"), n_levels=nl, per_level=per, min_samples=nat("min_samples", 1), eval_freqs=ev.tolist(),
              dec_factors=PList.sym(nl, f), dec_increments=PList.sym(nl, per_level("dec_inc", nl, "int", 1)), dec_fs=PList.sym(nl, per_level("dec_rate", nl, "real", "pos")))
    return p, ev


@contract("C16", "evaluation frequencies", [FN + f for f in ("run", "_get_level_data", "_get_level_metadata", "_get_metadata")] + ["resistics.decimate.DecimationParameters.get_eval_freqs"])
def run():
    sd = spectra_data(increasing=True)
    sm = sd.metadata
    nl, nc, lm = sm.n_levels, sm.n_chans, PList(sm.levels_metadata)
    nlp, per = nat("n_levels_params", 1), nat("per_level", 1)
    require(nlp >= nl)
    p, ev = dec_params(nlp, per)
    m = mark()
    o = attempt(P().EvaluationFreqs().run, p, sd)
    ensure(o.ok, "reduced")
    if not o.ok:
        return
    cover("done")
    unchanged(m, "spectra and parameters unchanged")
    out = o.value
    ensure(And(num(out.metadata.n_levels) == nl, out.metadata.n_chans == nc, out.metadata.ref_time == sm.ref_time), "levels, channels and reference time kept")
    ensure_list(PList(out.metadata.chans), nc, lambda i: PList(sm.chans).get(i), "channels kept in order")
    om = PList(out.metadata.levels_metadata)
    ensure(And(om.n == nl, PList(out.metadata.fs).n == nl), "metadata of every level")
    branches(lambda: level(sd, out, lm, om, nl, nc, per, ev))


def level(sd, out, lm, om, nl, nc, per, ev):
    l = sint("level")
    require(0 <= l, l < nl)
    a, b = lm.get(l), om.get(l)
    ensure(And(*[num(getattr(b, k)) == getattr(a, k) for k in ("fs", "n_wins", "win_size", "olap_size", "index_offset")]), "bookkeeping of the level kept")
    ensure(num(PList(out.metadata.fs).get(l)) == PList(sd.metadata.fs).get(l), "sampling frequency of the level kept")
    ensure(And(num(b.n_freqs) == per, PList(b.freqs).n == per), "the level's evaluation frequencies only")
    ensure_forall(per, lambda k: num(PList(b.freqs).get(k)) == ev.at(l * per + k), "the level's own evaluation frequencies")
    lemma(And(num(a.n_freqs) >= 1, num(a.n_wins) >= 1), "levels are not empty")
    lemma(And(0 <= l * per, (l + 1) * per <= ev.n), "the level's frequencies are among all")
    x, y = sd.data.lookup(l), out.data.lookup(l)
    ensure(y is not V.MISSING, "data of every level")
    ensure(And(num(y.shape[0]) == a.n_wins, num(y.shape[1]) == nc), "values for every window and channel")
    ensure(num(y.shape[2]) == per, "one value per evaluation frequency")
    fr, nf = PList(a.freqs), a.n_freqs
    pos = numpy_.interp(numpy_.array(ev.tolist()[l * per:(l + 1) * per]), numpy_.array(fr), numpy_.arange(nf))

    def want(w, c, k):
        q = num(pos.at(k))
        lo, hi = N.floor(q), N.ceil(q)
        return x.at(w, c, lo) + (x.at(w, c, hi) - x.at(w, c, lo)) * (q - lo)
    ensure_cells(y, want, "linear between the bins on either side of the position np.interp gives")


@contract("C16", "lemma: positions from np.interp interpolate linearly in frequency", [])
def position():
    """for any increasing bins, frequency and bin values: the value at that position is the linear interpolation in frequency."""
    nf = nat("n_freqs", 2)
    fr, x = real_array("freqs", nf), real_array("x", nf)
    v, j = sreal("v"), sint("j")
    require(And(0 <= j, j + 1 < nf))
    f0, f1 = fr.at(j), fr.at(j + 1)
    require(And(f0 <= v, v <= f1))
    require_forall(nf - 1, lambda i: fr.at(i) < fr.at(i + 1))
    hint(j)
    pos = num(numpy_.interp(v, fr, numpy_.arange(nf)))
    t = pos - j
    lemma(t * (f1 - f0) == v - f0, "position between the bins")
    lemma(And(0 <= t, t <= 1), "position within the bins")
    lo, hi = N.floor(pos), N.ceil(pos)
    if decide(t == 0):
        cover("lower bin")
        lemma(And(lo == j, hi == j), "at the lower bin")
        ensure(v == f0, "at the lower bin only there")
    elif decide(t == 1):
        cover("upper bin")
        lemma(And(lo == j + 1, hi == j + 1), "at the upper bin")
        ensure(v == f1, "at the upper bin only there")
    else:
        cover("between")
        lemma(And(lo == j, hi == j + 1), "strictly between the bins")
    for lo_, hi_ in ((j, j), (j + 1, j + 1), (j, j + 1)):
        if decide(And(lo == lo_, hi == hi_)):
            r = x.at(lo_) + (x.at(hi_) - x.at(lo_)) * (pos - lo_)
            ensure((r - x.at(j)) * (f1 - f0) == (x.at(j + 1) - x.at(j)) * (v - f0), "the value interpolates linearly between the neighbouring bins")
