from stages import *
import C26 as P26
CONTRACTS[:] = [c for c in CONTRACTS if c.prop != "C26"]

PR = lambda: mod("project")
FN = "resistics.project."


def measurements(sname, base, tag="", lo=0):
    """any number of measurements of a site, recorded at any rate, named by their directories."""
    n = nat(fresh("n_meas"), lo)
    names = PList(strings(fresh("meas"), n))
    rate = eng.fresh_fn("rate", [I], z3.RealSort())
    first, last = eng.fresh_fn("first", [I], z3.RealSort()), eng.fresh_fn("last", [I], z3.RealSort())
    fs_of = lambda j: SNum.atom(rate(iz(j)), "real")

    def meas(j):
        md = build(mod("time").TimeMetadata, fs=fs_of(j), chans=PList(), n_chans=0, n_samples=0, first_time=times.attodatetime.of(SNum.atom(first(iz(j)), "real")),
                   last_time=times.attodatetime.of(SNum.atom(last(iz(j)), "real")), chans_metadata=PDict())
        return build(PR().Measurement, site_name=sname, dir_path=base / names.get(j), metadata=md, reader=Proc(mod("time").TimeReader, "reader", Kind("x"), j))
    return n, names, fs_of, generic_object(meas)


def site():
    s = sstr("site")
    base = fs.Path(sstr("dir")) / s
    n, names, rate, meas = measurements(s, base)
    d = PDict.family(n, lambda j: names.get(j), meas)
    return build(PR().Site, dir_path=base, begin_time=instant("begin"), end_time=instant("end"), measurements=d), n, names, rate, meas


@contract("C24", "measurements of a site", [FN + "Site.get_measurements", FN + "Site.get_measurement", FN + "Site.__getitem__"])
def site_measurements():
    s, n, names, rate, meas = site()
    j = sint("j")
    require(And(0 <= j, j < n))
    pre = mark()
    if decide(sbool("one")):
        got = attempt(s.get_measurement if decide(sbool("method")) else s.__getitem__, names.get(j))
        ensure(got.ok, "a measurement of the site is returned")
        if got.ok:
            cover("one")
            ensure_same(got.value, meas(j), "the measurement of that name")
        x = sstr("unknown")
        require_forall(n, lambda q: Not(names.get(q) == x))
        must_fail(attempt(s.get_measurement, x), mod("errors").MeasurementNotFoundError, "unknown measurements are refused")
        return
    if decide(sbool("all")):
        got = attempt(s.get_measurements)
        want = lambda q: True
    else:
        f = sreal("fs")
        got = attempt(s.get_measurements, f) if decide(sbool("positional")) else attempt(s.get_measurements, fs=f)
        want = lambda q: rate(q) == f
    ensure(got.ok, "measurements are returned")
    if not got.ok:
        return
    cover("some")
    m = got.value.lookup(names.get(j))
    if decide(want(j)):
        ensure(m is not V.MISSING, "every measurement recorded at the frequency is returned")
        if m is not V.MISSING:
            ensure_same(m, meas(j), "under its own name")
    else:
        ensure(m is V.MISSING, "no other measurement is returned")
    x = sstr("unknown")
    require_forall(n, lambda q: Not(names.get(q) == x))
    ensure(got.value.lookup(x) is V.MISSING, "nothing else is returned")
    unchanged(pre, "the site is unchanged")


@contract("C24", "sampling frequencies of a site", [FN + "Site.fs"])
def site_fs():
    s, n, names, rate, meas = site()
    got = attempt(s.fs)
    ensure(got.ok, "frequencies are returned")
    if not got.ok:
        return
    cover("fs")
    listed(PList(got.value), n, rate)


def listed(l, n, rate):
    """l is sorted, lists each once and exactly the values rate(0..n-1)."""
    m = l.n
    ensure_forall(m - 1, lambda q: l.get(q) < l.get(q + 1), "sorted, each once")

    def present(q):
        ensure(V.seq_member(PList.sym(n, rate), l.get(q)), "only frequencies that are present")
    ensure_forall(m, present, "present")

    def all_(q):
        ensure(V.seq_member(l, rate(q)), "every frequency that is present")
    ensure_forall(n, all_, "all")


def project(index=False):
    base = fs.Path(sstr("project_dir"))
    ns = nat("n_sites")
    names = PList(strings("site", ns))
    b, e = eng.fresh_fn("begin", [I], z3.RealSort()), eng.fresh_fn("end", [I], z3.RealSort())
    rate = eng.fresh_fn("rate", [I, I], z3.RealSort())
    nm = eng.fresh_fn("n_meas", [I], I)
    mname = eng.fresh_fn("meas", [I, I], I)
    minv = eng.fresh_fn("measinv", [I, I], I)
    z = z3.IntVal(0)
    eng.fn_axioms[mname(z, z).decl().name()] = lambda t: [minv(t.arg(0), t) == t.arg(1)]
    eng.fn_axioms[nm(z).decl().name()] = lambda t: [t >= 0]

    def site(i):
        def meas(j):
            md = build(mod("time").TimeMetadata, fs=SNum.atom(rate(iz(i), iz(j)), "real"), chans=PList(), n_chans=0, n_samples=0, first_time=instant("f"), last_time=instant("l"), chans_metadata=PDict())
            return build(PR().Measurement, site_name=names.get(i), dir_path=base / names.get(i) / SStr(mname(iz(i), iz(j))), metadata=md, reader=Proc(mod("time").TimeReader, "reader", Kind("x"), j))
        t = lambda f: times.attodatetime.of(SNum.atom(f(iz(i)), "real"))
        s = build(PR().Site, dir_path=base / names.get(i), begin_time=t(b), end_time=t(e),
                  measurements=PDict.family(SNum.atom(nm(iz(i)), "int"), lambda j: SStr(mname(iz(i), iz(j))), generic_object(meas)))
        if index:
            s.__dict__["_ix"] = i
        return s
    site = generic_object(site)
    md = build(PR().ProjectMetadata, ref_time=instant("ref_time"))
    p = build(PR().Project, dir_path=base, begin_time=instant("B"), end_time=instant("E"), metadata=md, sites=PDict.family(ns, lambda i: names.get(i), site))
    p_ = lambda f: (lambda i: SNum.atom(f(iz(i)), "real"))
    return p, ns, names, site, p_(b), p_(e), (lambda i, j: SNum.atom(rate(iz(i), iz(j)), "real")), (lambda i: SNum.atom(nm(iz(i)), "int"))


@contract("C24", "sites of a project", [FN + "Project.get_sites", FN + "Project.get_site", FN + "Project.__getitem__", FN + "Site.fs"], budget=240)
def project_sites():
    p, ns, names, site, b, e, rate, nm = project()
    i = sint("i")
    require(And(0 <= i, i < ns))
    pre = mark()
    x = sstr("unknown")
    require_forall(ns, lambda q: Not(names.get(q) == x))
    if decide(sbool("one")):
        got = attempt(p.get_site if decide(sbool("method")) else p.__getitem__, names.get(i))
        ensure(got.ok, "a site of the project is returned")
        if got.ok:
            cover("one")
            ensure_same(got.value, site(i), "the site of that name")
        must_fail(attempt(p.get_site, x), mod("errors").SiteNotFoundError, "unknown sites are refused")
        return
    if decide(sbool("all")):
        got = attempt(p.get_sites)
        has = True
    else:
        f = sreal("fs")
        got = attempt(p.get_sites, f) if decide(sbool("positional")) else attempt(p.get_sites, fs=f)
        has = V.seq_member(PList.sym(nm(i), lambda j: rate(i, j)), f)
    ensure(got.ok, "sites are returned")
    if not got.ok:
        return
    cover("some")
    m = got.value.lookup(names.get(i))
    if decide(has):
        ensure(m is not V.MISSING, "every site recorded at the frequency is returned")
        if m is not V.MISSING:
            ensure_same(m, site(i), "under its own name")
    else:
        ensure(m is V.MISSING, "no other site is returned")
    ensure(got.value.lookup(x) is V.MISSING, "nothing else is returned")
    unchanged(pre, "the project is unchanged")


@contract("C24", "concurrent sites", [FN + "Project.get_concurrent"])
def concurrent():
    p, ns, names, site, b, e, rate, nm = project()
    s = sint("s")
    require(And(0 <= s, s < ns))
    pre = mark()
    got = attempt(p.get_concurrent, names.get(s))
    ensure(got.ok, "concurrent sites are returned")
    if not got.ok:
        return
    cover("concurrent")
    l = PList(got.value)
    name = lambda q: l.get(q).name
    overlap = lambda q: And(Not(q == s), e(q) >= b(s), b(q) <= e(s))

    def only(q):
        ensure(V.seq_member(PList.sym(ns, lambda j: Ite(overlap(j), names.get(j), names.get(s))), name(q)), "only sites that overlap")
        ensure(Not(name(q) == names.get(s)), "never the site itself")
    ensure_forall(l.n, only, "only")

    def all_(q):
        require(overlap(q))
        ensure(V.seq_member(PList.sym(l.n, name), names.get(q)), "every other site that overlaps, touching included")
    ensure_forall(ns, all_, "all")
    unchanged(pre, "the project is unchanged")


def site_fs_contract(site, rate, nm):
    """Project.fs meets the contract of Site.fs ("sampling frequencies of a site"): a list, sorted
    and distinct, of exactly the frequencies of the site's measurements."""
    size = eng.fresh_fn("n_fs", [I], I)
    get = eng.fresh_fn("fs_at", [I, I], z3.RealSort())
    loc = eng.fresh_fn("fs_pos", [I, I], I)
    k, q = z3.Int(eng.name("q")), z3.Int(eng.name("q"))
    z = z3.IntVal(0)
    R, M = lambda a, b: num(rate(SNum.atom(a, "int"), SNum.atom(b, "int"))).zr, lambda a: iz(nm(SNum.atom(a, "int")))
    at = loc(k, q)
    eng.assume_q(QFact.several([(k, z, iz(SITES[0])), (q, z, M(k))], z3.And(0 <= at, at < size(k), get(k, at) == R(k, q)), [R(k, q)]))
    # `present` is any set of numbers that contains every frequency of every site
    present = eng.fresh_fn("present", [z3.RealSort()], z3.BoolSort())
    eng.assume_q(QFact.several([(k, z, iz(SITES[0])), (q, z, size(k))], present(get(k, q)), [get(k, q)]))
    eng.fn_axioms[size(z).decl().name()] = lambda t: [t >= 0]

    def fs(self):
        i = iz(self._ix)
        return PList.sym(SNum.atom(size(i), "int"), lambda q: SNum.atom(get(i, iz(q)), "real"))
    method(PR().Site, "fs", fs)
    return lambda x: N.mkbool(present(num(x).zr))


SITES = []


@contract("C24", "sampling frequencies of a project", [FN + "Project.fs"])
def project_fs():
    p, ns, names, site, b, e, rate, nm = project(index=True)
    SITES[:] = [ns]
    present = site_fs_contract(site, rate, nm)
    got = attempt(p.fs)
    ensure(got.ok, "frequencies are returned")
    if not got.ok:
        return
    cover("fs")
    l = PList(got.value)
    ensure_forall(l.n - 1, lambda q: l.get(q) < l.get(q + 1), "sorted, each once")
    ensure_forall(l.n, lambda q: present(l.get(q)), "only frequencies that are present")
    i, j = sint("i"), sint("j")
    if decide(And(0 <= i, i < ns, 0 <= j, j < nm(i))):
        ensure(V.seq_member(l, rate(i, j)), "every frequency that is present")


contract("C24", "times of a loaded site", ["resistics.letsgo.ProjectLoader._load_site"], budget=180)(lambda: P26.load_site())
contract("C24", "times of a loaded project", ["resistics.letsgo.ProjectLoader.run"], budget=240)(lambda: P26.load_project())
