from stages import *
import C24 as P24
import C16 as P16
CONTRACTS[:] = []
import pyvc.libs.pandas_ as PD

G = lambda: mod("gather")
FN = "resistics.gather."


def spectra_of_measurements(n, names):
    """spectra metadata of any number of measurements, with any numbers of levels and of windows."""
    f = {k: eng.fresh_fn(k, [I], I) for k in ("levels",)}
    g = {k: eng.fresh_fn(k, [I, I], I) for k in ("offset", "wins")}
    nl = lambda j: SNum.atom(f["levels"](iz(j)), "int")
    off = lambda j, l: SNum.atom(g["offset"](iz(j), iz(l)), "int")
    wins = lambda j, l: SNum.atom(g["wins"](iz(j), iz(l)), "int")
    eng.forall(0, n, lambda j: nl(j) >= 0)
    j, l = z3.Int(eng.name("j")), z3.Int(eng.name("l"))
    eng.assume_q(QFact.several(((j, z3.IntVal(0), iz(n)), (l, z3.IntVal(0), f["levels"](j))), g["wins"](j, l) >= 0, [g["wins"](j, l)]))

    def md(q):
        lev = generic_object(lambda p: build(mod("spectra").SpectraLevelMetadata, index_offset=off(q, p), n_wins=wins(q, p)))
        return build(mod("spectra").SpectraMetadata, n_levels=nl(q), levels_metadata=PList.sym(nl(q), lev))
    return PDict.family(n, lambda q: names.get(q), generic_object(md)), nl, off, wins


@contract("C20", "windows of a site at a level", [FN + "get_site_level_wins"])
def level_wins():
    n = nat("n_meas")
    names = PList(strings("meas", n))
    d, nl, off, wins = spectra_of_measurements(n, names)
    l = nat("level")
    j, w = sint("j"), sint("w")
    require(And(0 <= j, j < n))
    hint(j)
    get = G().get_site_level_wins
    m = mark()
    o = attempt(get, d, l)
    ensure(o.ok, "windows are found")
    if not o.ok:
        return
    cover("done")
    unchanged(m, "metadata unchanged")
    s = o.value
    k = s.idx.shape[0]
    ensure_forall(k - 1, lambda i: s.idx.at(i) < s.idx.at(i + 1), "sorted, each window once")
    has = lambda j, w: And(0 <= j, j < n, l < nl(j), off(j, l) <= w, w < off(j, l) + wins(j, l))
    if decide(sbool("complete")):
        require(has(j, w))
        feasible()
        ensure(s.has(w), "every window of a measurement with that level is listed")
    else:
        i = sint("i")
        require(And(0 <= i, i < k))
        feasible()
        nm, w = s.arr.at(i), s.idx.at(i)
        md = d.lookup(nm)
        ensure(md is not V.MISSING, "a measurement of the site is named")
        if md is V.MISSING:
            return
        ensure(l < md.n_levels, "one with that level")
        x = PList(md.levels_metadata).get(l)
        ensure(And(num(x.index_offset) <= w, w < num(x.index_offset) + x.n_wins), "and with that window")


@contract("C20", "spectra of the measurements of a site", [FN + "get_site_evals_metadata", "resistics.project.Site.get_measurements"])
def evals_metadata():
    p, ns, names, site, b, e, rate, nm = P24.project()
    s, j = sint("s"), sint("j")
    require(And(0 <= s, s < ns, 0 <= j, j < nm(s)))
    config, f = sstr("config"), sreal("fs")
    readable = z3.Function("readable", z3.IntSort(), z3.BoolSort())
    content = z3.Function("spectra_metadata", z3.IntSort(), z3.IntSort())
    ok = lambda path: N.mkbool(readable(path.code))
    md = lambda path: SNum.atom(content(path.code), "int")

    def read(self, dir_path, metadata_only=False):
        if not metadata_only:
            raise Unsupported("reading all of the spectra")
        if not decide(ok(dir_path)):
            raise mod("errors").ReadError(dir_path, "not readable")
        return md(dir_path)
    mod("gather").SpectraDataReader.run = read
    get, path_of = G().get_site_evals_metadata, mod("project").get_meas_evals_path
    o = attempt(get, config, p, names.get(s), f)
    ensure(o.ok, "metadata is returned")
    if not o.ok:
        return
    cover("done")
    meas = PList(site(s).measurements.keys())
    path = path_of(p.dir_path, names.get(s), meas.get(j), config)
    got = o.value.lookup(meas.get(j))
    if decide(And(rate(s, j) == f, ok(path))):
        ensure(got is not V.MISSING, "every measurement recorded at the frequency with spectra is found")
        if got is not V.MISSING:
            ensure(got == md(path), "with the spectra of that measurement")
    else:
        ensure(got is V.MISSING, "no other measurement is used")
    x = sstr("unknown")
    require_forall(nm(s), lambda q: Not(meas.get(q) == x))
    ensure(o.value.lookup(x) is V.MISSING, "nothing else is found")


@contract("C20", "windows of a site", [FN + "get_site_wins"])
def site_wins():
    n = nat("n_meas")
    names = PList(strings("meas", n))
    d, nl, off, wins = spectra_of_measurements(n, names)
    config, p, s, f = sstr("config"), object(), sstr("site"), sreal("fs")
    F = eng.fresh_fn("level_wins", [I], I)
    asked = []

    def evals(config_name, proj, site_name, fs):
        ensure(And(config_name == config, proj is p, site_name == s, fs == f), "measurements of the site, configuration and frequency asked for")
        return d

    def level(meas_metadata, level):
        asked.append(meas_metadata is d)
        return SNum.atom(F(iz(level)), "int")
    get = G().get_site_wins
    callee("gather", "get_site_evals_metadata", evals)
    callee("gather", "get_site_level_wins", level)
    o = attempt(get, config, p, s, f)
    if decide(n == 0):
        ensure(o.raises(ValueError), "a site without measurements at the frequency is refused")
        return
    ensure(o.ok, "tables are returned")
    if not o.ok:
        return
    cover("done")
    ensure(all(asked), "windows of all the measurements")
    N_ = num(o.value.n)
    j = sint("j")
    require(And(0 <= j, j < n))
    ensure(nl(j) <= N_, "as many levels as the measurement with most")
    top = sint("top")
    require_forall(n, lambda q: nl(q) <= top)
    ensure(N_ <= top, "and no more")
    l = nat("l")
    require(l < N_)
    feasible()
    got = o.value.lookup(l)
    ensure(got is not V.MISSING, "a table for every level")
    if got is not V.MISSING:
        ensure(got == SNum.atom(F(iz(l)), "int"), "the windows of that level")


def site_tables():
    """the windows of any number of sites: any number of levels each, at each level any sorted
    labels with a measurement under each."""
    fn = lambda nm_, *a: eng.fresh_fn(nm_, list(a), I)
    levels, count = fn("levels", I), fn("n_wins", I, I)
    label, where, name = fn("label", I, I, I), fn("at", I, I, I), fn("meas", I, I, I)
    nl = lambda c: SNum.atom(levels(iz(c)), "int")
    cnt = lambda c, l: SNum.atom(count(iz(c), iz(l)), "int")
    lab = lambda c, l, i: SNum.atom(label(iz(c), iz(l), iz(i)), "int")
    at = lambda c, l, w: SNum.atom(where(iz(c), iz(l), iz(w)), "int")
    nam = lambda c, l, i: SStr(name(iz(c), iz(l), iz(i)))
    z = z3.IntVal(0)
    eng.fn_axioms[levels(z).decl().name()] = lambda t: [t >= 0]
    eng.fn_axioms[count(z, z).decl().name()] = lambda t: [t >= 0]
    eng.fn_axioms[label(z, z, z).decl().name()] = lambda t: [z3.Implies(z3.And(0 <= t.arg(2), t.arg(2) < count(t.arg(0), t.arg(1))), where(t.arg(0), t.arg(1), t) == t.arg(2))]

    def table(c, l):
        return PD.Series.labelled(A.NDArray.make((cnt(c, l),), A.I64, lambda i: lab(c, l, i)), A.NDArray.make((cnt(c, l),), A.STR, lambda i: nam(c, l, i)), lambda w: at(c, l, w))
    return nl, table, cnt, lab, at, nam


@contract("C20", "selection", [FN + "Selector.run", FN + "Selector._get_evals", FN + "Selector._apply_masks", FN + "Selection.__init__"], budget=180)
def select():
    k = nat("n_names", 1)
    ask = eng.fresh_fn("asked", [I], I)
    asked = PList.sym(k, lambda q: SStr(ask(iz(q))))
    config = sstr("config")
    per = nat("per_level")
    params, _ = P16.dec_params(nat("dec_levels", 1), per)
    nl, table, cnt, lab, at, nam = site_tables()
    code = lambda s: SNum.atom(N.code(s), "int")
    site_of = eng.fresh_fn("site", [I], I)

    class P:
        def __getitem__(self, name):
            return SStr(site_of(N.code(name)))
    proj = P()

    def wins(config_name, p, site_name, fs):
        ensure(And(config_name == config, p is proj, fs == params.fs), "windows for the configuration and sampling frequency asked for")
        c = code(site_name)
        return PDict.family(nl(c), lambda l: l, lambda l: table(c, l))
    sel = build(G().Selector, name="Selector")
    callee("gather", "get_site_wins", wins)
    o = attempt(sel.run, config, proj, asked, params)
    ensure(o.ok, "selected")
    if not o.ok:
        return
    cover("done")
    r = o.value
    sites = PList(r.sites)
    n = sites.n
    ensure(r.dec_params is params, "decimation parameters kept")
    N_ = num(r.n_levels)
    ensure(num(r.tables.n) == N_, "a table for every level")
    q = sint("q")
    require(And(0 <= q, q < k))
    l, w = nat("l"), sint("w")
    require(l < N_)
    feasible()
    T = r.tables.lookup(l)
    ensure(T is not V.MISSING, "a table for every level")
    if T is V.MISSING:
        return
    m = T.idx.shape[0]
    ensure_forall(num(m) - 1, lambda i: T.idx.at(i) < T.idx.at(i + 1), "sorted, each window once")
    i = sint("i")
    if decide(And(0 <= i, i < m)):
        c = code(asked.get(q))
        col = T.cols.lookup(asked.get(q))
        ensure(col is not V.MISSING, "a column for every site")
        if col is V.MISSING:
            return
        x = T.idx.at(i)
        ensure(And(table(c, l).has(x), col.at(i) == nam(c, l, at(c, l, x))), "only windows every site has, with a measurement that has it")
        ensure(l < nl(c), "levels every site has")
        ev = nat("ev")
        require(ev < per)
        feasible()
        use = T.more.lookup(ev)
        ensure(use is not V.MISSING, "a column for every evaluation frequency")
        if use is not V.MISSING:
            ensure(use.at(i), "every window used for every evaluation frequency")
        return
    if decide(sbool("complete")):
        require(And(-PD.BIG < w, w < PD.BIG))
        require_forall(k, lambda y: table(code(asked.get(y)), l).has(w))
        feasible()
        y = T.where(w)
        ensure(And(0 <= y, y < m, T.idx.at(y) == w), "every window every site has")
        return
    least = sint("least")
    require_forall(k, lambda y: nl(code(asked.get(y))) >= least)
    ensure(N_ >= least, "no fewer levels than the site with least")
    name = PList(T.cols.keys())
    ensure_forall(name.n - 1, lambda j: Not(name.get(j + 1) < name.get(j)), "sites in the order of their names")
    ensure_forall(name.n - 1, lambda j: Not(name.get(j) == name.get(j + 1)), "each once")
    ensure_list(sites, name.n, lambda j: proj[name.get(j)], "the sites selected")
    ensure_forall(name.n, lambda j: V.seq_member(asked, name.get(j)), "sites asked for")


def selection(per_lo=0):
    """a selection of any sites: tables with any rows, measurements and choice of windows."""
    nl, n, per = nat("n_levels"), nat("n_sites"), nat("per_level", per_lo)
    dl = nat("dec_levels", 1)
    require(nl <= dl)
    params, ev = P16.dec_params(dl, per)
    names = PList(strings("site", n))
    sites = PList.sym(n, generic_object(lambda i: build(mod("project").Site, dir_path=fs.Path(sstr("dir")) / names.get(i), begin_time=None, end_time=None, measurements=PDict())))
    rows = per_level("rows", nl, "int", 0)
    f = {k: eng.fresh_fn(k, [I, I], I) for k in ("label",)}
    cell = eng.fresh_fn("cell", [I, I, I], I)
    used = eng.fresh_fn("used", [I, I, I], z3.BoolSort())
    lab = lambda l, i: SNum.atom(f["label"](iz(l), iz(i)), "int")
    name = lambda l, c, i: SStr(cell(iz(l), iz(c), iz(i)))
    use = lambda l, e, i: N.mkbool(used(iz(l), iz(e), iz(i)))

    def table(l):
        r = rows(l)
        arr = lambda t, g: A.NDArray.make((r,), t, g)
        return PD.Table(arr(A.I64, lambda i: lab(l, i)), PDict.family(n, lambda c: names.get(c), lambda c: arr(A.STR, lambda i: name(l, c, i))),
                        PDict.family(per, lambda e: e, lambda e: arr(A.BOOL, lambda i: use(l, e, i))))
    s = G().Selection(sites, params, PDict.family(nl, lambda l: l, generic_object(table)))
    return s, nl, n, per, dl, params, ev, names, sites, rows, lab, name, use


@contract("C20", "windows of an evaluation frequency", [FN + "Selection.__init__", FN + "Selection.get_n_wins", FN + "Selection.get_eval_wins", FN + "Selection.get_n_evals"])
def accessors():
    s, nl, n, per, dl, params, ev, names, sites, rows, lab, name, use = selection()
    m = mark()
    ensure(num(s.n_levels) == nl and num(s.get_n_evals()) == nl * per, "levels and evaluation frequencies counted")
    x = nat("x")
    e = nat("e")
    require(And(x >= nl, e < per))
    must_fail(attempt(s.get_n_wins, x, e), ValueError, "levels beyond the last are refused")
    l = nat("l")
    require(l < nl)
    feasible()
    i = sint("i")
    require(And(0 <= i, i < rows(l)))
    hint(i)
    o = attempt(s.get_eval_wins, l, e)
    c = attempt(s.get_n_wins, l, e)
    ensure(o.ok and c.ok, "windows are returned")
    if not (o.ok and c.ok):
        return
    cover("done")
    unchanged(m, "the selection is unchanged")
    T = o.value
    k = num(T.idx.shape[0])
    ensure(num(c.value) == k, "as many windows as counted")
    ensure_list(PList(T.cols.keys()), n, lambda q: names.get(q), "a column for every site")
    ensure(num(T.more.n) == 0, "no other columns")
    q = sint("q")
    require(And(0 <= q, q < n))
    if decide(use(l, e, i)):
        sel = A.mask_select(A.NDArray.make((rows(l),), A.BOOL, lambda r: use(l, e, r)))
        at = sel.rank(i)
        ensure(And(0 <= at, at < k), "every window used is listed")
        ensure(T.idx.at(at) == lab(l, i), "under its label")
        ensure(T.cols.lookup(names.get(q)).at(at) == name(l, q, i), "with the measurement of each site")
    else:
        r = sint("r")
        require(And(0 <= r, r < k))
        feasible()
        sel = A.mask_select(A.NDArray.make((rows(l),), A.BOOL, lambda r: use(l, e, r)))
        y = sel.pos(r)
        ensure(And(0 <= y, y < rows(l), use(l, e, y), T.idx.at(r) == lab(l, y)), "only windows used are listed")
        ensure(Implies(r + 1 < k, sel.pos(r + 1) > y), "in the order of the table")


@contract("C20", "evaluation frequencies of a selection", [FN + "Selection.get_eval_freqs", "resistics.decimate.DecimationParameters.get_eval_freqs"])
def eval_freqs():
    s, nl, n, per, dl, params, ev, names, sites, rows, lab, name, use = selection()
    o = attempt(s.get_eval_freqs)
    ensure(o.ok, "frequencies are returned")
    if not o.ok:
        return
    cover("done")
    r = PList(o.value)
    ensure(num(r.n) == nl * per, "all the evaluation frequencies of the levels")
    l, e = nat("l"), nat("e")
    require(And(l < nl, e < per))
    feasible()
    ensure(r.get(l * per + e) == ev.at(l * per + e), "in order")
    cover("in order")


@contract("C20", "measurements of a selection", [FN + "Selection.get_measurements"])
def selected_measurements():
    s, nl, n, per, dl, params, ev, names, sites, rows, lab, name, use = selection()
    q = sint("q")
    require(And(0 <= q, q < n))
    o = attempt(s.get_measurements, sites.get(q))
    ensure(o.ok, "measurements are returned")
    if not o.ok:
        return
    cover("done")
    r = PList(o.value)
    ensure_forall(r.n - 1, lambda j: Not(r.get(j + 1) < r.get(j)), "in the order of their names")
    l, i = nat("l"), nat("i")
    if decide(sbool("sound")):
        x = sstr("unknown")
        lz, iz_ = z3.Int(eng.name("l")), z3.Int(eng.name("i"))
        ls, is_ = SNum.atom(lz, "int"), SNum.atom(iz_, "int")
        nm = name(ls, q, is_)
        eng.assume_q(QFact.several(((lz, z3.IntVal(0), iz(nl)), (iz_, z3.IntVal(0), iz(rows(ls)))), N.bz(Not(nm == x)), [nm.z]))
        feasible()
        ensure(Not(V.seq_member(r, x)), "nothing else is listed")
        return
    require(And(l < nl, i < rows(l)))
    feasible()
    ensure(V.seq_member(r, name(l, q, i)), "every measurement in the tables is listed")
