"""Arbitrary valid objects: the preconditions the contracts share."""
from pyvc.spec import *

FIELDS_POS = ("wgs84_latitude", "wgs84_longitude", "easting", "northing", "elevation")


def fresh(name):
    return eng.name(name)


def records(name="rec"):
    """a history with any number of records."""
    C = mod("common")
    n = nat(fresh("n_" + name))
    code = eng.fresh_fn(name + "name", [z3.IntSort()], z3.IntSort())
    t1 = eng.fresh_fn(name + "tl", [z3.IntSort()], z3.RealSort())
    t2 = eng.fresh_fn(name + "tu", [z3.IntSort()], z3.RealSort())
    msg = eng.fresh_fn(name + "msg", [z3.IntSort()], z3.IntSort())

    def at(i):
        return (build(C.Record, time_local=times.datetime.of(SNum.atom(t1(iz(i)), "real")), time_utc=times.datetime.of(SNum.atom(t2(iz(i)), "real")),
                            creator=PDict([("name", SStr(code(iz(i))))]), messages=PList([SStr(msg(iz(i)))]), record_type="process"))
    return build(C.History, records=PList.sym(n, generic_object(at)))


def chan_metadata(names, tag="cm", files=None):
    """channel metadata: entry i of the family is for channel i; every field arbitrary."""
    T = mod("time")
    f = {}
    for k in ("gain1", "gain2", "scaling", "dipole_dist"):
        f[k] = eng.fresh_fn(tag + k, [z3.IntSort()], z3.RealSort())
    for k in ("chan_type", "sensor", "serial", "sensor_calibration_file", "instrument_calibration_file", "file"):
        f[k] = eng.fresh_fn(tag + k, [z3.IntSort()], z3.IntSort())
    f["chopper"] = eng.fresh_fn(tag + "chopper", [z3.IntSort()], z3.BoolSort())

    def at(i):
        s = lambda k: SStr(f[k](iz(i)))
        r = lambda k: SNum.atom(f[k](iz(i)), "real")
        return build(T.ChanMetadata, name=names(i), data_files=PList([s("file")]) if files is None else files(i), chan_type=s("chan_type"), chan_source=None, sensor=s("sensor"), serial=s("serial"),
                     gain1=r("gain1"), gain2=r("gain2"), scaling=r("scaling"), chopper=SBool(f["chopper"](iz(i))), dipole_dist=r("dipole_dist"),
                     sensor_calibration_file=s("sensor_calibration_file"), instrument_calibration_file=s("instrument_calibration_file"))
    return generic_object(at)


def generic_object(at):
    """the members of a family as instances of one generic object."""
    k = z3.Int(eng.name("g"))
    eng.starts(k, eng.stampno)
    o = at(SNum.atom(k, "int"))
    return lambda i: V.subst(o, k, iz(i))


def position():
    d = {k: sreal(fresh(k)) for k in FIELDS_POS}
    d["system"], d["serial"] = sstr(fresh("system")), sstr(fresh("serial"))
    return d


def channels(n, tag="chan"):
    return strings(fresh(tag), n)


def chans_metadata(chans, nc, files=None):
    """one entry per channel, in the order of the channels."""
    st = PList(chans)
    get = chan_metadata(lambda i: st.get(i), fresh("cm"), files)
    return PDict.family(nc, lambda i: st.get(i), get)


def time_metadata(n=None, nc=None, fs_=None, first=None, chans=None, consistent=True, **over):
    T = mod("time")
    nc = nat(fresh("nc"), 1) if nc is None else nc
    n = nat(fresh("n"), 1) if n is None else n
    fs_ = pos_real(fresh("fs")) if fs_ is None else fs_
    F = instant(fresh("first")) if first is None else first
    L = times.attodatetime.of(F.t + num(n - 1) / fs_) if consistent else instant(fresh("last"))
    chans = channels(nc) if chans is None else chans
    d = dict(file_info=None, fs=fs_, chans=chans, n_chans=nc, n_samples=n, first_time=F, last_time=L, **position(),
             chans_metadata=chans_metadata(chans, nc), history=records())
    d.update(over)
    order = [k for k in T.TimeMetadata.__fields__]
    return build(T.TimeMetadata, **{k: d[k] for k in order})


def time_data(nan=False, metadata=None, dtype=None, **kw):
    """TimeData made by the real constructor from valid metadata and matching data."""
    T = mod("time")
    m = time_metadata(**kw) if metadata is None else metadata
    x = real_array(fresh("x"), m.n_chans, m.n_samples, nan=nan)
    if dtype is not None:
        x.buf.dtype = x.dtype = dtype
    return T.TimeData(m, x)


def chan_names(td):
    return PList(td.metadata.chans)


def values_by_name(name, n=None):
    """any dictionary from names to numbers."""
    n = nat(fresh("n_" + name)) if n is None else n
    ks = strings(fresh(name), n)
    f = eng.fresh_fn(name + "v", [z3.IntSort()], z3.RealSort())
    return PDict.family(n, lambda i: PList(ks).get(i), lambda i: SNum.atom(f(iz(i)), "real"))


class UserFn:
    """an arbitrary pure function from a channel's samples to as many samples."""
    def __init__(self, k):
        self.k = k

    def __call__(self, x):
        return science.along("user", x, 0, x.shape[0], [self.k])


V.SUBST[UserFn] = lambda v, k, i: UserFn(V.subst(v.k, k, i))


def functions_by_name(name="fn"):
    n = nat(fresh("n_" + name))
    ks = strings(fresh(name), n)
    return PDict.family(n, lambda i: PList(ks).get(i), lambda i: UserFn(i))


class Levels:
    """what is arbitrary per level: fields as functions of the level, and the data."""
    def __init__(self, n, **fields):
        self.n = n
        self.f = fields

    def __getattr__(self, k):
        return self.f[k]


def per_level(name, n, sort="int", lo=None):
    s = z3.IntSort() if sort == "int" else z3.RealSort()
    f = eng.fresh_fn(name if lo is None else f"{name}>={lo}", [z3.IntSort()], s)
    g = lambda l: SNum.atom(f(iz(l)), sort)
    if lo is not None:
        eng.fn_axioms[f(z3.IntVal(0)).decl().name()] = lambda t: [t > 0 if lo == "pos" else t >= lo]
    return g


def overridden(get, at, val):
    """the family with a given member at one level."""
    return lambda l: Ite(num(l) == at, val, get(l))


def level_cells(name, nd, dtype):
    """arbitrary cells of one array per level."""
    dt = {"real": A.F64, "complex": A.C128}[dtype]
    cells = numpy_.unknown_cells(name, nd + 1, dt)
    return lambda l, shape: NDArray.make(shape, dt, lambda *ix: cells(l, *ix))


def quotient(a, b):
    """a / b where b is positive by the object's invariant."""
    return SNum(N.p_mul(num(a).p, N.p_inv(num(b).p)), "real")


def common_metadata(cls, nl, chans, nc, fsl, levels, **more):
    d = dict(file_info=None, fs=PList.sym(nl, fsl), chans=chans, n_chans=nc, n_levels=nl, first_time=instant(fresh("first")), last_time=instant(fresh("last")),
             **position(), chans_metadata=chans_metadata(chans, nc), levels_metadata=levels, history=records())
    d.update(more)
    return build(cls, **{k: d[k] for k in cls.__fields__ if k in d})


def decimated_data(nl=None, nc=None, at=None, consistent=True):
    """decimated data with any number of levels; at: (level, fs, first time, samples) of one of them."""
    D = mod("decimate")
    nl = nat(fresh("n_levels"), 1) if nl is None else nl
    nc = nat(fresh("nc"), 1) if nc is None else nc
    chans = channels(nc)
    fsl, n, t0 = per_level("lfs", nl, "real", "pos"), per_level("lns", nl, "int", 1), per_level("lfirst", nl, "real")
    if at is not None:
        l, fs_, F, m = at
        fsl, n, t0 = overridden(fsl, l, fs_), overridden(n, l, m), overridden(t0, l, F.t)
    t1 = per_level("llast", nl, "real")
    last = (lambda l: t0(l) + quotient(num(n(l) - 1), fsl(l))) if consistent else t1

    def meta(l):
        return build(D.DecimatedLevelMetadata, fs=fsl(l), n_samples=n(l), first_time=times.attodatetime.of(t0(l)), last_time=times.attodatetime.of(last(l)))
    m = common_metadata(D.DecimatedMetadata, nl, chans, nc, fsl, PList.sym(nl, generic_object(meta)))
    arr = level_cells("ddata", 2, "real")
    data = PDict.family(nl, lambda l: l, generic_object(lambda l: arr(l, (nc, n(l)))))
    dd = D.DecimatedData(m, data)
    return dd


def windowed_data(nl=None, nc=None):
    W = mod("window")
    nl = nat(fresh("n_levels"), 1) if nl is None else nl
    nc = nat(fresh("nc"), 1) if nc is None else nc
    chans = channels(nc)
    fsl, nw, ws, ol, off = (per_level("lfs", nl, "real", "pos"), per_level("lnw", nl, "int", 1), per_level("lws", nl, "int", 1), per_level("lol", nl, "int", 1),
                            per_level("loff", nl, "int", 0))

    def meta(l):
        return build(W.WindowedLevelMetadata, fs=fsl(l), n_wins=nw(l), win_size=ws(l), olap_size=ol(l), index_offset=off(l))
    m = common_metadata(W.WindowedMetadata, nl, chans, nc, fsl, PList.sym(nl, generic_object(meta)), ref_time=instant(fresh("ref")))
    arr = level_cells("wdata", 3, "real")
    data = PDict.family(nl, lambda l: l, generic_object(lambda l: arr(l, (nw(l), nc, ws(l)))))
    return W.WindowedData(m, data)


def spectra_data(nl=None, nc=None, increasing=False):
    P = mod("spectra")
    nl = nat(fresh("n_levels"), 1) if nl is None else nl
    nc = nat(fresh("nc"), 1) if nc is None else nc
    chans = channels(nc)
    fsl, nw, ws, ol, off, nf = (per_level("lfs", nl, "real", "pos"), per_level("lnw", nl, "int", 1), per_level("lws", nl, "int", 1), per_level("lol", nl, "int", 1),
                                per_level("loff", nl, "int", 0), per_level("lnf", nl, "int", 1))
    fr = eng.fresh_fn("freq", [z3.IntSort()] * 2, z3.RealSort())

    if increasing:
        q1, q2 = z3.Int(fresh("q")), z3.Int(fresh("q"))
        eng.assume_q(QFact.several([(q1, z3.IntVal(0), iz(nl)), (q2, z3.IntVal(0), iz(nf(SNum.atom(q1, "int")) - 1))], fr(q1, q2) < fr(q1, q2 + 1), [fr(q1, q2), fr(q1, q2 + 1)]))

    def meta(l):
        return build(P.SpectraLevelMetadata, fs=fsl(l), n_wins=nw(l), win_size=ws(l), olap_size=ol(l), index_offset=off(l), n_freqs=nf(l),
                     freqs=PList.sym(nf(l), lambda i: SNum.atom(fr(iz(l), iz(i)), "real")))
    m = common_metadata(P.SpectraMetadata, nl, chans, nc, fsl, PList.sym(nl, generic_object(meta)), ref_time=instant(fresh("ref")))
    arr = level_cells("sdata", 3, "complex")
    data = PDict.family(nl, lambda l: l, generic_object(lambda l: arr(l, (nw(l), nc, nf(l)))))
    return P.SpectraData(m, data)


def time_to_sample_contracts():
    """the contracts of the two conversions (proved for C01), for their callers."""
    for name, refused in (("from_time_to_sample", lambda f, l, t: t.t > l.t), ("to_time_to_sample", lambda f, l, t: t.t < f.t)):
        callee("sampling", name, converter(eng.fresh_fn(name, [z3.RealSort()] * 4, z3.IntSort()), refused))


def converter(g, refused):
    def convert(fs, first_time, last_time, time):
        f, l, t = first_time, last_time, time
        if decide(refused(f, l, t)):
            raise ValueError("outside the recording")
        k = SNum.atom(g(num(fs).zr, f.t.zr, l.t.zr, t.t.zr), "int")
        eng.assume(And(0 <= k, k <= (l.t - f.t) * fs))
        return k
    return convert


class Product:
    """any list of whole numbers >= low, each as said, whose product is n (prefix products are a ghost function)."""
    def __init__(self, n, low, each=lambda f: True):
        self.m = nat(fresh("m"), 0)
        f, g = eng.fresh_fn("factor", [z3.IntSort()], z3.IntSort()), eng.fresh_fn("prefix", [z3.IntSort()], z3.IntSort())
        self.F, self.G = (lambda i: SNum.atom(f(iz(i)), "int")), (lambda i: SNum.atom(g(iz(i)), "int"))
        eng.forall(0, self.m, lambda i: And(self.F(i) >= low, each(self.F(i)), self.G(i + 1) == self.G(i) * self.F(i), self.G(i) >= 1))
        eng.assume(And(self.G(0) == 1, self.G(self.m) == n))
        self.list = PList.sym(self.m, self.F)


def decimation_steps():
    """Decimate._get_downsample_factors by its contract of C08: whole steps whose product is the factor."""
    import stages
    T = mod("time").Decimate
    if hasattr(T, "_get_downsample_factors"):
        stages.method(T, "_get_downsample_factors", lambda self, k: Product(num(k), 1).list)
