from objs import *

D = lambda: mod("decimate")
FN = "resistics.decimate."


def largest_power(fs_, div, f_max, factor):
    """factor is the largest power of div keeping fs/factor at least four times f_max."""
    target = f_max * 4
    k = SNum.atom(N.ILOG(iz(div), iz(factor)), "int")
    ensure(And(k >= 0, factor == SNum.atom(N.IPOW(iz(div), iz(k)), "int")), "the factor is a power of the division factor")
    ensure(Implies(target > fs_, num(factor) == 1), "factor 1 where even the undecimated rate is too low")
    ensure(Implies(target <= fs_, fs_ / factor >= target), "the factor keeps the rate at least four times the highest frequency")
    ensure(Implies(target <= fs_, fs_ / (num(factor) * div) < target), "the next power of the division factor does not")


@contract("C10", "factor of one level", [FN + "DecimationSetup._get_decimation_factor"])
def factor():
    fs_, f, div = pos_real("fs"), pos_real("f_max"), nat("div", 2)
    p = D().DecimationSetup(div_factor=div)
    o = attempt(p._get_decimation_factor, fs_, f)
    ensure(o.ok, "a factor for every rate and frequency")
    if o.ok:
        cover("done")
        largest_power(fs_, div, f, num(o.value))


@contract("C10", "factors of all levels", [FN + "DecimationSetup._get_factors"])
def factors():
    fs_, div, nl, pl = pos_real("fs"), nat("div", 2), nat("n_levels", 1), nat("per_level", 1)
    p = D().DecimationSetup(div_factor=div, n_levels=nl, per_level=pl)
    e = real_array("evals", nl * pl)
    require_forall(nl * pl, lambda i: e.at(i) > 0)
    o = attempt(p._get_factors, fs_, e)
    ensure(o.ok, "factors for every setup")
    if not o.ok:
        return
    ensure(o.value.n == nl, "one factor per level")
    fl = PList(o.value)
    l = nat("l")

    def at():
        require(l < nl)
        feasible()
        f = fl.get(l)
        cover("level")
        top = numpy_.max_(e.reshape(nl, pl)[l])
        require(top > 0)
        largest_power(fs_, div, top, num(f))
    branches(at)


def parameters(nl, pl, fs_, fac, evals=None):
    e = real_array("evals", nl * pl) if evals is None else evals
    return attempt(D().DecimationParameters, fs=fs_, n_levels=nl, per_level=pl, min_samples=nat("min_samples", 1), eval_freqs=e.tolist(), dec_factors=fac)


def given_factors(nl):
    """total factors that grow by whole multiples."""
    f = eng.fresh_fn("fac", [z3.IntSort()], z3.IntSort())
    q = eng.fresh_fn("mult", [z3.IntSort()], z3.IntSort())
    F = lambda i: SNum.atom(f(iz(i)), "int")
    Q = lambda i: SNum.atom(q(iz(i)), "int")
    eng.forall(0, nl, lambda i: And(F(i) >= 1, Q(i) >= 1))
    eng.forall(1, nl, lambda i: F(i) == F(i - 1) * Q(i))
    return F, Q, PList.sym(nl, F)


def divides(a, b, q):
    """a = b * q for integers, b positive: then a / b, rounded towards zero, is q."""
    lemma(And(a == num(b) * q, q >= 0), "the total factor before divides the total factor")
    lemma(num(a) / b == num(q), "quotient of the total factors")


def increments(p, nl, fs_, F, Q):
    ensure(p.dec_increments.n == nl, "one increment per level")
    ensure(p.dec_fs.n == nl, "one sampling frequency per level")
    inc, dfs = PList(p.dec_increments), PList(p.dec_fs)
    ensure(inc.get(0) == F(0), "the first increment is the first total factor")
    l = nat("l")

    def at():
        require(l < nl)
        feasible()
        lemma(F(l) >= 1, "factors are positive")
        ensure(dfs.get(l) == fs_ / F(l), "each level's rate is fs over its total factor")
        require(l >= 1)
        feasible()
        cover("level")
        lemma(F(l - 1) >= 1, "factors are positive")
        divides(F(l), F(l - 1), Q(l))
        ensure(num(inc.get(l)) * F(l - 1) == F(l), "each increment takes the previous total factor to this one")
    branches(at)


@contract("C10", "increments and rates", [FN + "DecimationParameters.set_dec_increments", FN + "DecimationParameters.set_dec_fs"])
def incs():
    nl, pl, fs_ = nat("n_levels", 1), nat("per_level", 1), pos_real("fs")
    F, Q, fac = given_factors(nl)
    o = parameters(nl, pl, fs_, fac)
    ensure(o.ok, "valid parameters are accepted")
    if o.ok:
        increments(o.value, nl, fs_, F, Q)


@contract("C10", "access by level and index", [FN + "DecimationParameters." + f for f in ("check_level", "check_eval_idx", "get_eval_freqs", "get_eval_freq", "get_fs", "get_total_factor", "get_incremental_factor", "__getitem__", "to_numpy")])
def access():
    nl, pl, fs_ = nat("n_levels", 1), nat("per_level", 1), pos_real("fs")
    F, Q, fac = given_factors(nl)
    e = real_array("evals", nl * pl)
    p = parameters(nl, pl, fs_, fac, e).value
    inc, dfs = PList(p.dec_increments), PList(p.dec_fs)
    l, i = sint("level"), sint("index")
    outside = Or(l < 0, l >= nl)
    for name, f in (("frequencies", lambda: p.get_eval_freqs(l)), ("frequencies by []", lambda: p[l]), ("rate", lambda: p.get_fs(l)),
                    ("total factor", lambda: p.get_total_factor(l)), ("increment", lambda: p.get_incremental_factor(l))):
        def one(name=name, f=f):
            o = attempt(f)
            if decide(outside):
                must_fail(o, ValueError, f"{name} of a level outside refused")
                return
            ensure(o.ok, f"{name} of every level")
            if not o.ok:
                return
            if name == "rate":
                ensure(o.value == dfs.get(l), "the level's rate")
            elif name == "total factor":
                ensure(o.value == F(l), "the level's total factor")
            elif name == "increment":
                ensure(o.value == inc.get(l), "the level's increment")
            else:
                ensure_list(o.value, pl, lambda k: e.at(l * pl + k), f"{name} of the level are its row")
        branches(one)
    for name, f in (("frequency", lambda: p.get_eval_freq(l, i)), ("frequency by []", lambda: p[l, i])):
        def two(name=name, f=f):
            o = attempt(f)
            if decide(Or(outside, i < 0, i >= pl)):
                must_fail(o, ValueError, f"{name} outside the table refused")
                return
            cover(name)
            ensure(o.ok, f"{name} of every level and index")
            if o.ok:
                ensure(o.value == e.at(l * pl + i), f"{name} is the table's entry")
        branches(two)
    t = p.to_numpy()
    ensure(And(t.shape[0] == nl, t.shape[1] == pl), "table of levels by indices")
    ensure_cells(t, lambda a, b: e.at(a * pl + b), "table entries")


def setup(own):
    nl, pl, div, fs_ = nat("n_levels", 1), nat("per_level", 1), nat("div", 2), pos_real("fs")
    kw = dict(n_levels=nl, per_level=pl, div_factor=div, min_samples=nat("min_samples", 1))
    if own:
        m = nat("m")
        e = real_array("evals", m)
        kw["eval_freqs"] = e.tolist()
    else:
        e = None
    return nl, pl, div, fs_, e, D().DecimationSetup(**kw)


@contract("C10", "frequencies of the setup", [FN + "DecimationSetup._get_eval_freqs"])
def evals():
    own = decide(sbool("own"))
    nl, pl, div, fs_, e, p = setup(own)
    o = attempt(p._get_eval_freqs, fs_)
    if not own:
        ensure(o.ok, "a setup without frequencies is accepted")
        ensure(o.value.n == nl * pl, "one frequency per level and index")
        ensure_cells(o.value, lambda k: fs_ / 4 / N.power(num(2), num(k) / 2), "half-octave ladder")
        return
    if o.ok:
        cover("own")
        ensure(e.n == nl * pl, "user frequencies of the wrong count refused")
        ensure_forall(e.n, lambda i: e.at(i) <= fs_ / 2, "user frequencies above Nyquist refused")
        ensure_same_array(o.value, e, "user frequencies used as given")
    else:
        cover("refused")
        must_fail(o, ValueError, "refused with ValueError")
        w = nat("w")
        require_forall(e.n, lambda i: e.at(i) <= fs_ / 2)
        ensure(Not(e.n == nl * pl), "valid user frequencies are accepted")


@contract("C10", "run: user frequencies", [FN + "DecimationSetup.run"], budget=150)
def run_own():
    whole_setup(True)


@contract("C10", "run: default frequencies", [FN + "DecimationSetup.run"], budget=150)
def run_default():
    whole_setup(False)


def whole_setup(own):
    nl, pl, div, fs_, e, p = setup(own)
    if own:
        require(e.n == nl * pl)
        require_forall(e.n, lambda i: And(e.at(i) > 0, e.at(i) <= fs_ / 2))
    else:
        e = NDArray.make((nl * pl,), A.F64, lambda k: fs_ / 4 / N.power(num(2), num(k) / 2))
    T = e.reshape(nl, pl)
    o = attempt(p.run, fs_)
    ensure(o.ok, "a valid setup is accepted")
    if not o.ok:
        return
    r = o.value
    ensure(And(r.fs == fs_, r.n_levels == nl, r.per_level == pl, r.min_samples == p.min_samples), "setup values are kept")
    ensure_list(r.eval_freqs, nl * pl, lambda k: e.at(k), "frequencies are kept")
    ensure(r.dec_factors.n == nl, "one factor per level")
    fac, inc, dfs = PList(r.dec_factors), PList(r.dec_increments), PList(r.dec_fs)
    ensure(And(inc.n == nl, dfs.n == nl), "one increment and rate per level")
    ensure(inc.get(0) == fac.get(0), "the first increment is the first total factor")
    l = nat("l")

    def at():
        require(l < nl)
        feasible()
        top = numpy_.max_(T[l])
        largest_power(fs_, div, top, num(fac.get(l)))
        ensure(dfs.get(l) == fs_ / fac.get(l), "each level's rate is fs over its total factor")
    branches(at)

    def step():
        require(1 <= l, l < nl)
        feasible()
        # precondition: evaluation frequencies that do not increase from level to level
        if own:
            require(numpy_.max_(T[l]) <= numpy_.max_(T[l - 1]))
        else:
            lemma(numpy_.max_(T[l]) <= numpy_.max_(T[l - 1]), "the ladder's levels descend")
        a, b = num(fac.get(l)), num(fac.get(l - 1))
        lemma(And(a >= 1, b >= 1), "factors are positive")
        lemma(b <= a, "factors do not decrease")
        one = decide(b == 1)
        divides(a, b, a if one else SNum.atom(N.IQUO(iz(a), iz(b)), "int"))
        ensure(num(inc.get(l)) * fac.get(l - 1) == fac.get(l), "each increment takes the previous total factor to this one")
    branches(step)
