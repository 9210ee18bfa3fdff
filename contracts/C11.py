from objs import *
import stages

FN = "resistics.decimate."
RES = z3.Function("resampled", z3.IntSort(), z3.RealSort(), z3.IntSort())
DEC = z3.Function("decimated", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


def own_records(name):
    """a history for every code."""
    C = mod("common")
    code, n = eng.fresh_fn(name + "rec", [z3.IntSort()] * 2, z3.IntSort()), per_level(name + "n", None, "int", 0)
    t = eng.fresh_fn(name + "t", [z3.IntSort()] * 2, z3.RealSort())

    def at(c):
        def one(i):
            when = SNum.atom(t(iz(c), iz(i)), "real")
            return build(C.Record, time_local=times.datetime.of(when), time_utc=times.datetime.of(when), creator=PDict([("name", SStr(code(iz(c), iz(i))))]),
                         messages=PList([SStr(code(iz(c), iz(i)))]), record_type="process")
        return build(C.History, records=PList.sym(n(c), generic_object(one)))
    return at


class Recordings:
    """time data as a family: the recording of every code, all on the same channels."""
    def __init__(self):
        T = mod("time")
        nc = self.nc = nat(fresh("nc"), 1)
        chans = self.chans = channels(nc)
        fs_, n, t0 = per_level("tfs", None, "real", "pos"), per_level("tns", None, "int", 1), per_level("tfirst", None, "real")
        self.fs, self.n, self.t0 = fs_, n, t0
        self.last = lambda c: t0(c) + quotient(num(n(c) - 1), fs_(c))
        self.cells = level_cells("tx", 2, "real")
        hist, cm, pos = own_records("th"), chans_metadata(chans, nc), position()

        def at(c):
            d = dict(file_info=None, fs=fs_(c), chans=chans, n_chans=nc, n_samples=n(c), first_time=times.attodatetime.of(t0(c)), last_time=times.attodatetime.of(self.last(c)),
                     **pos, chans_metadata=cm, history=hist(c))
            m = build(T.TimeMetadata, **{k: d[k] for k in T.TimeMetadata.__fields__})
            return T.TimeData(m, self.cells(c, (nc, n(c))))
        k = z3.Int(fresh("g"))
        self.k, self.g = k, at(SNum.atom(k, "int"))

    def get(self, c):
        return V.subst(self.g, self.k, iz(c))

    def code(self, td):
        if not isinstance(td, PObject) or td._src is not self.g:
            raise Unsupported("time data from somewhere else")
        return td.__dict__["_mix"][1]


def levels(resample):
    """decimation parameters, a family of recordings closed under decimation, and its first member."""
    T = mod("time")
    R = Recordings()
    nl, pl, ms, fs_ = nat("n_levels", 1), nat("per_level", 1), nat("min_samples", 1), pos_real("fs")
    fac = PList.sym(nl, per_level("fac", nl, "int", 1))
    inc, dfs = per_level("inc", nl, "int", 1), per_level("dfs", nl, "real", "pos")
    e = real_array("evals", nl * pl)
    params = build(mod("decimate").DecimationParameters, fs=fs_, n_levels=nl, per_level=pl, min_samples=ms, eval_freqs=e.tolist(), dec_factors=fac,
                   dec_increments=PList.sym(nl, inc), dec_fs=PList.sym(nl, dfs))
    # contracts of the two processes (C05, C08): a new recording determined by the old one and the arguments
    stages.method(T.Resample, "run", lambda self, time_data: R.get(SNum.atom(RES(R.code(time_data), num(self.new_fs).zr), "int")))
    stages.method(T.Decimate, "run", lambda self, time_data: R.get(SNum.atom(DEC(R.code(time_data), iz(self.factor), iz(self.max_single_factor)), "int")))
    mx = nat("max_single", 3)
    p = mod("decimate").Decimator(resample=resample, max_single_factor=mx)

    def new(c, f):
        c0 = SNum.atom(c, "int")
        return RES(c, num(quotient(R.fs(c0), num(f))).zr) if resample else DEC(c, iz(f), iz(mx))
    # the chain of the statement: code of the recording before level l
    CH = eng.fresh_fn("chain", [z3.IntSort()], z3.IntSort())
    c0 = z3.Int(fresh("c0"))
    eng.assume(N.mkbool(CH(z3.IntVal(0)) == c0))
    l = z3.Int(fresh("l"))
    ls = SNum.atom(l, "int")
    eng.assume_q(QFact(l, z3.IntVal(0), iz(nl), CH(l + 1) == z3.If(iz(inc(ls)) == 1, CH(l), new(CH(l), inc(ls)))))
    R.g.__dict__["_carry"] = lambda v, k: [N.mkbool(iz(v) == CH(iz(k)))]
    return R, p, params, lambda j: SNum.atom(CH(iz(j)), "int"), nl, ms, R.get(SNum.atom(c0, "int"))


def chain(resample):
    R, p, params, CH, nl, ms, td = levels(resample)
    require(R.n(CH(1)) >= ms)             # domain: at least one level is produced
    o = attempt(p.run, params, td)
    ensure(o.ok, "every recording long enough for one level is decimated")
    if not o.ok:
        return
    r = o.value
    md = r.metadata
    done = md.n_levels
    ensure(And(1 <= done, done <= nl), "between one level and all of them")
    ensure(And(r.data.n == done, PList(md.fs).n == done, PList(md.levels_metadata).n == done), "the lists agree in length with the data")
    ensure_forall(done, lambda l: R.n(CH(l + 1)) >= ms, "levels shorter than the minimum are left out")
    ensure(Or(done == nl, R.n(CH(done + 1)) < ms), "levels stop only at one which is too short")
    l = nat("l")

    def at():
        require(l < done)
        feasible()
        cover("level")
        c = CH(l + 1)
        x = r.data.lookup(l)
        ensure(x is not V.MISSING, "data of every level")
        if x is V.MISSING:
            return
        ensure_same_array(x, R.cells(c, (R.nc, R.n(c))), "data of the level are the previous level's, decimated by the level's increment")
        m = PList(md.levels_metadata).get(l)
        ensure(And(m.fs == R.fs(c), PList(md.fs).get(l) == R.fs(c)), "sampling frequency of the level")
        ensure(m.n_samples == R.n(c), "samples of the level")
        ensure(And(m.first_time.t == R.t0(c), m.last_time.t == R.last(c)), "first and last time of the level")
    branches(at)


DOC = [FN + "Decimator." + f for f in ("run", "_get_metadata")] + [FN + "DecimatedData.__init__"]


@contract("C11", "levels by resampling", DOC + [FN + "Decimator._resample"], budget=150)
def resampling():
    chain(True)


@contract("C11", "levels by decimating", DOC + [FN + "Decimator._decimate"], budget=150)
def decimating():
    chain(False)
