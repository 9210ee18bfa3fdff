from stages import *

L = lambda: mod("letsgo")
FN = "resistics.letsgo."


# ------------------------------------------------------------------ creating
@contract("C26", "creating a project", [FN + "ProjectCreator.run", FN + "ProjectCreator._make_subdirs", "resistics.common.WriteableMetadata.write", "resistics.common.is_dir", "resistics.common.assert_dir"], budget=300)
def create():
    P = mod("project")
    d = fs.Path(sstr("parent")) / sstr("project")
    md = build(P.ProjectMetadata, ref_time=instant("ref_time"), file_info=None)
    subdirs = [d / x for x in P.PROJ_DIRS.values()]
    info = d / P.PROJ_FILE
    for p in subdirs:
        require(Not(p.is_file()))                   # nothing else uses the names of the subdirectories
    require(Not(info.is_dir()))
    existed = fs.KIND0(info.code)
    other = fs.Path.mk(sstr("elsewhere"), ())        # any other path
    named = lambda p: N.mkbool(p.code == other.code)
    was = [other.kind_is(k) for k in (0, 1, 2)]
    for p in fs.ancestors(d):
        require(Not(p.is_file()))                   # no file where a parent directory has to be
    o = attempt(build(L().ProjectCreator, dir_path=d, metadata=md).run)
    if decide(N.mkbool(existed != 0)):
        cover("existing")
        must_fail(o, mod("errors").ProjectCreateError, "an existing project is refused")
        ensure(len(fs.FS.events) == 0, "and nothing is changed")
        return
    if decide(N.mkbool(fs.KIND0(d.code) == 1)):
        cover("file")
        ensure(not o.ok, "a file in the way is refused")
        ensure(len(fs.FS.events) == 0, "and nothing is changed")
        return
    ensure(o.ok, "a project is created where there is none")
    if not o.ok:
        return
    cover("created")
    ensure(And(*[p.is_dir() for p in subdirs]), "all subdirectories exist")
    ensure(info.is_file(), "the project file exists")
    written = [(k, p) for k, p, _ in fs.FS.events if k != "mkdir" and k != "mkdirs"]
    ensure(And(*[p == info for k, p in written]), "no file but the project file is written")
    ensure(And(*[k == "write" for k, p in written]), "nothing is removed")
    ensure(And(*[Implies(And(was[k], Not(named(info))), other.kind_is(k)) for k in (1, 2)]), "existing files and directories are kept")


# ------------------------------------------------------------------ loading
class Readers:
    """any readers: each reads a directory's metadata or fails in one of the ways readers fail."""
    def __init__(self):
        T = mod("time")
        self.n = nat("n_readers")
        self.ok = z3.Function("reader_ok", I, I, z3.BoolSort())
        how = z3.Function("reader_error", I, I, I)
        r = z3.RealSort()
        f = {x: z3.Function("md_" + x, I, I, r) for x in ("fs", "first", "last")}

        def run(p, args):
            d = args[1]
            ensure(args[2] is True, "only metadata is read")
            i, c = iz(p.id), code_of(d)
            if not decide(N.mkbool(self.ok(i, c))):
                h = SNum.atom(how(i, c), "int")
                E = mod("errors")
                if decide(h == 0):
                    raise E.MetadataReadError(d, "not here")
                if decide(h == 1):
                    raise E.TimeDataReadError(d, "not here")
                raise RuntimeError("not here")
            return self.metadata(p.id, d)
        real = lambda x, i, d: SNum.atom(f[x](iz(i), code_of(d)), "real")
        t = lambda x, i, d: times.attodatetime.of(real(x, i, d))
        self.first, self.last = (lambda i, d: t("first", i, d)), (lambda i, d: t("last", i, d))
        self.metadata = lambda i, d: build(T.TimeMetadata, fs=real("fs", i, d), chans=PList(), n_chans=0, n_samples=0, first_time=t("first", i, d), last_time=t("last", i, d), chans_metadata=PDict())
        self.reader = lambda i: Proc(T.TimeReader, "reader", Kind("md"), i, result=run)
        self.config = build(mod("config").Configuration, time_readers=PList.sym(self.n, self.reader))


@contract("C26", "reading a measurement", [FN + "ProjectLoader._load_measurement"])
def load_measurement():
    r = Readers()
    d = fs.Path(sstr("site_dir")) / sstr("meas_dir")
    s = sstr("site")
    loader = build(L().ProjectLoader, dir_path=fs.Path(sstr("project")))
    works = lambda j: N.mkbool(r.ok(iz(j), d.code))
    pre = mark()
    if decide(sbool("some_reader_works")):
        m = sint("first_reader")
        require(And(0 <= m, m < r.n), works(m))
        require_forall(m, lambda j: Not(works(j)))
        o = attempt(loader._load_measurement, s, d, r.config)
        ensure(o.ok, "a readable measurement is loaded")
        if not o.ok:
            return
        cover("read")
        x = o.value
        ensure(type(x) is mod("project").Measurement, "as a measurement")
        if type(x) is not mod("project").Measurement:
            return
        ensure(And(x.site_name == s, x.dir_path == d), "of the site and directory")
        ensure(x.reader == r.reader(m), "with the first configured reader that succeeds")
        ensure_same(x.metadata, r.metadata(m, d), "what that reader read")
    else:
        require_forall(r.n, lambda j: Not(works(j)))
        o = attempt(loader._load_measurement, s, d, r.config)
        cover("unreadable")
        ensure(o.ok, "an unreadable measurement is no error")
        if o.ok:
            ensure(o.value is None, "but skipped")
    unchanged(pre, "nothing else is changed")
    ensure(len(fs.FS.events) == 0, "nothing is written")


def measurement_contract():
    """what _load_measurement gives for a directory (proved above): nothing, or a measurement."""
    P, T = mod("project"), mod("time")
    ok = z3.Function("readable", I, z3.BoolSort())
    r = z3.RealSort()
    f = {x: z3.Function("meas_" + x, I, r) for x in ("fs", "first", "last")}
    real = lambda x, d: SNum.atom(f[x](d.code), "real")
    t = lambda x, d: times.attodatetime.of(real(x, d))

    def meas(s, d):
        md = build(T.TimeMetadata, fs=real("fs", d), chans=PList(), n_chans=0, n_samples=0, first_time=t("first", d), last_time=t("last", d), chans_metadata=PDict())
        return build(P.Measurement, site_name=s, dir_path=d, metadata=md, reader=Proc(T.TimeReader, "reader", Kind("md"), SNum.atom(z3.Function("reader_of", I, I)(d.code), "int")))
    return (lambda d: N.mkbool(ok(d.code))), meas, (lambda d: t("first", d)), (lambda d: t("last", d))


@contract("C26", "loading a site", [FN + "ProjectLoader._load_site", "resistics.common.dir_subdirs", "resistics.common.dir_contents"])
def load_site():
    ok, meas, first, last = measurement_contract()
    root = fs.Path(sstr("project"))
    sname = sstr("site")
    sdir = root / sname
    config = build(mod("config").Configuration)
    loader = build(L().ProjectLoader, dir_path=root)

    def stub(self, site_name, meas_dir, conf):
        ensure(And(site_name == sname, conf is config), "measurements are read for the site, with the configuration's readers")
        return meas(site_name, meas_dir) if decide(ok(meas_dir)) else None
    method(L().ProjectLoader, "_load_measurement", stub)
    require(sdir.is_dir())
    pre = mark()
    o = attempt(loader._load_site, sdir, config)
    ensure(o.ok, "a site is loaded")
    if not o.ok:
        return
    cover("loaded")
    s = o.value
    ensure(type(s) is mod("project").Site, "as a site")
    ensure(s.dir_path == sdir, "of the directory")
    x = sstr("name")
    d = sdir / x
    got = s.measurements.lookup(x)
    if decide(And(d.is_dir(), ok(d))):
        cover("measurement")
        ensure(got is not V.MISSING, "every readable measurement directory gives a measurement")
        if got is not V.MISSING:
            ensure_same(got, meas(sname, d), "the one read from it")
        ensure(And(s.begin_time <= first(d), last(d) <= s.end_time), "the site's times include every measurement's")
    else:
        ensure(got is V.MISSING, "nothing else is a measurement")
    ms = PList(s.measurements.values())
    if decide(ms.n > 0):
        at = lambda f, t: V.seq_member(PList.sym(ms.n, lambda q: f(ms.get(q).dir_path).t), t)
        ensure(at(first, s.begin_time.t), "the site begins with its earliest measurement")
        ensure(at(last, s.end_time.t), "and ends with its latest")
    unchanged(pre, "nothing else is changed")
    ensure(len(fs.FS.events) == 0, "nothing is written")


@contract("C26", "loading a project", [FN + "ProjectLoader.run", FN + "ProjectLoader._check_subdirs", FN + "load", "resistics.common.dir_subdirs"], budget=240)
def load_project():
    P = mod("project")
    root = fs.Path(sstr("parent")) / sstr("project")
    config = build(mod("config").Configuration, name=sstr("config_name"))
    md = build(P.ProjectMetadata, ref_time=instant("ref_time"))
    info, tdir = root / P.PROJ_FILE, root / "time"
    b, e = z3.Function("site_begin", I, z3.RealSort()), z3.Function("site_end", I, z3.RealSort())
    t = lambda f, d: times.attodatetime.of(SNum.atom(f(d.code), "real"))
    site = lambda d: build(P.Site, dir_path=d, begin_time=t(b, d), end_time=t(e, d), measurements=PDict())

    def stub(self, site_dir, conf):
        """the contract of _load_site ("loading a site")"""
        ensure(conf is config, "sites are loaded with the configuration's readers")
        ensure(site_dir.is_dir(), "from directories")
        return site(site_dir)
    method(L().ProjectLoader, "_load_site", stub)

    def parse_file(path, *a, **k):
        ensure(path == info, "the project file is read")
        return md
    P.ProjectMetadata.parse_file = staticmethod(parse_file)
    pre = mark()
    if decide(sbool("through_load")):
        callee("config", "get_default_configuration", lambda: config)
        callee("letsgo", "get_default_configuration", lambda: config)
        o = attempt(L().load, root, config) if decide(sbool("configuration_given")) else attempt(L().load, root)
        env = o.value if o.ok else None
        if o.ok:
            ensure(type(env) is L().ResisticsEnvironment, "as an environment")
            ensure_same(env.config, config, "with the configuration")
            o.value = env.proj
    else:
        o = attempt(build(L().ProjectLoader, dir_path=root).run, config)
    if not decide(And(root.is_dir(), info.exists())):
        cover("missing")
        ensure(not o.ok, "a directory that is no project is refused")
        if decide(root.is_dir()):
            must_fail(o, mod("errors").ProjectLoadError, "a project file is required")
        return
    if not decide(tdir.is_dir()):
        ensure(not o.ok, "the time data directory is required")
        return
    ensure(o.ok, "a project is loaded")
    if not o.ok:
        return
    cover("loaded")
    p = o.value
    ensure(type(p) is P.Project, "as a project")
    ensure(And(p.dir_path == root), "of the directory")
    ensure_same(p.metadata, md, "project metadata")
    x = sstr("name")
    d = tdir / x
    got = p.sites.lookup(x)
    if decide(d.is_dir()):
        cover("site")
        ensure(got is not V.MISSING, "every site directory gives a site")
        if got is not V.MISSING:
            ensure_same(got, site(d), "the one loaded from it")
        ensure(And(p.begin_time <= t(b, d), t(e, d) <= p.end_time), "the project's times include every site's")
    else:
        ensure(got is V.MISSING, "nothing else is a site")
    ss = PList(p.sites.values())
    if decide(ss.n > 0):
        at = lambda f, v: V.seq_member(PList.sym(ss.n, lambda q: t(f, ss.get(q).dir_path).t), v)
        ensure(at(b, p.begin_time.t), "the project begins with its earliest site")
        ensure(at(e, p.end_time.t), "and ends with its latest")
    unchanged(pre, "nothing else is changed")
    ensure(len(fs.FS.events) == 0, "nothing is written")


@contract("C26", "creating through new", [FN + "new"])
def create_new():
    P = mod("project")
    d = fs.Path(sstr("parent")) / sstr("project")
    made = PList()
    method(L().ProjectCreator, "run", lambda self: made.append((self.dir_path, self.metadata)))
    t = instant("ref_time")
    o = attempt(L().new, d, PDict({"ref_time": t})) if decide(sbool("path")) else attempt(L().new, d.pv_str(), PDict({"ref_time": t}))
    ensure(o.ok, "the creator runs")
    if not o.ok:
        return
    cover("new")
    ensure(made.n == 1, "once")
    if clen(made.n) == 1:
        p, md = made.get(0)
        ensure(p == d, "for the directory")
        ensure(And(type(md) is P.ProjectMetadata, md.ref_time == t), "with the project details")
    ensure(o.value is True, "success is reported")
