from stages import *

L = lambda: mod("letsgo")
FN = "resistics.letsgo."
ERRORS = lambda: (mod("errors").MetadataReadError, mod("errors").TimeDataReadError)


class Pipeline:
    """an arbitrary configuration: any readers, processors and stages."""
    def __init__(self, data_dir=None):
        T, D, W, P, G, R = (mod(m) for m in ("time", "decimate", "window", "spectra", "gather", "regression"))
        recording = stage("recording", **TIME)
        self.n_time, self.n_spec = nat("n_time_processors"), nat("n_spectra_processors")
        self.time_procs, self.x0, self.time_after = chain("time", self.n_time, T.TimeProcess, "time_processor", recording)
        self.dec_setup = Proc(D.DecimationSetup, "dec_setup", Kind("dec_params"))
        self.decimator = Proc(D.Decimator, "decimator", Kind("decimated", DEC))
        self.win_setup = Proc(W.WindowSetup, "win_setup", Kind("win_params"))
        self.windower = Proc(W.Windower, "windower", Kind("windowed"))
        self.fourier = Proc(P.FourierTransform, "fourier", Kind("spectra"))
        spectra = stage("spectra")
        self.spec_procs, self.s0, self.spec_after = chain("spectra", self.n_spec, P.SpectraProcess, "spectra_processor", spectra)
        self.evals = Proc(P.EvaluationFreqs, "evals", Kind("evals"))
        self.calibrator = Proc(mod("calibrate").Calibrator, "calibrator", Kind("calibrated"))
        self.tf = stage("tf", **TF)
        self.preparer = Proc(R.RegressionPreparerGathered, "preparer", Kind("regression_input"))
        self.solution = Kind("solution", {"tf": part("solution_tf", **TF), "write": lambda s: (lambda path: self.log.append((path, s)))})
        self.solver = Proc(R.Solver, "solver", self.solution)
        self.log = PList()
        self.name = sstr("config_name")
        # readers: each reads the directory or fails, in one of the ways readers fail
        self.n_readers = nat("n_readers")
        self.ok = z3.Function("reader_ok", I, I, z3.BoolSort())
        how = z3.Function("reader_error", I, I)

        def fails(p, args):
            if decide(N.mkbool(self.ok(iz(p.id), code_of(args[1])))):
                return
            h = SNum.atom(how(iz(p.id)), "int")
            e = ERRORS()
            if decide(h == 0):
                raise e[0](args[1], "not here")
            if decide(h == 1):
                raise e[1](args[1], "not here")
            raise RuntimeError("not here")
        self.reader = lambda i: Proc(T.TimeReader, "reader", self.x0.what, i, fails=fails)
        self.readers = PList.sym(self.n_readers, self.reader)
        self.config = build(mod("config").Configuration, name=self.name, time_readers=self.readers, time_processors=self.time_procs, dec_setup=self.dec_setup,
                            decimator=self.decimator, win_setup=self.win_setup, windower=self.windower, fourier=self.fourier, spectra_processors=self.spec_procs,
                            evals=self.evals, sensor_calibrator=self.calibrator, tf=self.tf, regression_preparer=self.preparer, solver=self.solver)
        callee("letsgo", "get_default_configuration", lambda: self.config)
        self.gathers = {}
        for cls, meth in ((G.QuickGather, "quick_gather"), (G.ProjectGather, "project_gather"), (G.Selector, "selector")):
            p = self.gathers[meth] = Proc(cls, meth, Kind("gathered"))
            p.__dict__["cls"] = method(cls, "run", (lambda p: lambda self, *a, **k: p.run(*a, **k))(p))
        for m, c in (("spectra", "SpectraDataWriter"), ("time", "TimeWriterNumpy")):
            real = []
            real.append(method(getattr(mod(m), c), "run", (lambda real: lambda self_, *a, **k: self.log.append(tuple(bound(real[0], "run", a, k))))(real)))

    # the stages, as documented
    def to_spectra(self, x0, ref_time):
        td = self.time_after(self.n_time)
        p = self.dec_setup.value(td.metadata.fs)
        d = self.decimator.value(p, td)
        w = self.win_setup.value(d.metadata.n_levels, d.metadata.fs)
        s = self.fourier.value(self.windower.value(ref_time, w, d))
        return td, p, s

    def to_evals(self, p, s, calibration_path):
        eng.assume(s == self.s0)             # the chain of spectra processors starts here
        e = self.evals.value(p, self.spec_after(self.n_spec))
        return e if calibration_path is None else self.calibrator.value(calibration_path, e)


def spectra_invariant(pl):
    """spectra produced by the transform start the chain of spectra processors."""
    pl.fourier.kind = pl.s0.what


def read_by_first(pl, d):
    """the recording in d: what the first reader able to read it gives."""
    m = sint("first_reader")
    require(And(0 <= m, m < pl.n_readers), N.mkbool(pl.ok(iz(m), d.code)))
    require_forall(m, lambda j: Not(N.mkbool(pl.ok(iz(j), d.code))))
    args = pl.reader(m).args(d)
    require(apply("reader", pl.x0.what, args) == pl.x0)
    return m


@contract("C32", "reading with the first reader able to", [FN + "quick_read"])
def reading():
    pl = Pipeline()
    d = fs.Path(sstr("dir"))
    given = decide(sbool("configuration_given"))
    if decide(sbool("some_reader_works")):
        m = read_by_first(pl, d)
        o = attempt(L().quick_read, d, pl.config) if given else attempt(L().quick_read, d)
        ensure(o.ok, "a recording some reader can read is read")
        if o.ok:
            cover("read")
            ensure(o.value == pl.x0, "result of the first configured reader that succeeds")
    else:
        require_forall(pl.n_readers, lambda j: Not(N.mkbool(pl.ok(iz(j), d.code))))
        o = attempt(L().quick_read, d, pl.config) if given else attempt(L().quick_read, d)
        cover("unreadable")
        must_fail(o, ERRORS()[1], "a recording no reader can read is refused")


RUNS = [FN + f for f in ("run_time_processors", "run_decimation", "run_windowing", "run_fft")]
MORE = [FN + f for f in ("run_spectra_processors", "run_evals", "run_sensor_calibration")]


def read_contract(pl, d):
    """quick_read's contract (proved above): the recording of the directory."""
    def quick_read(dir_path, config=None):
        ensure(And(dir_path == d, config is None or config is pl.config), "the requested recording is read with the configuration's readers")
        return pl.x0
    callee("letsgo", "quick_read", quick_read)


@contract("C32", "to spectra", [FN + "quick_spectra"] + RUNS)
def to_spectra():
    pl = Pipeline()
    d = fs.Path(sstr("dir"))
    read_contract(pl, d)
    pre = mark()
    o = attempt(L().quick_spectra, d, pl.config) if decide(sbool("configuration_given")) else attempt(L().quick_spectra, d)
    ensure(o.ok, "processing succeeds when its stages do")
    if not o.ok:
        return
    cover("done")
    ensure(o.value == pl.to_spectra(pl.x0, pl.x0.metadata.first_time)[2], "spectra by the documented sequence of stages")
    unchanged(pre, "the configuration is unchanged")


@contract("C32", "to a transfer function", [FN + "quick_tf", FN + "run_regression_preparer", FN + "run_solver"] + RUNS + MORE, budget=120)
def to_tf():
    pl = Pipeline()
    spectra_invariant(pl)
    d = fs.Path(sstr("dir"))
    read_contract(pl, d)
    td, p, s = pl.to_spectra(pl.x0, pl.x0.metadata.first_time)
    cal = fs.Path(sstr("calibration_dir")) if decide(sbool("calibrate")) else None
    want = pl.to_evals(p, s, cal)
    want = pl.gathers["quick_gather"].value(d, p, pl.tf, want)
    want = pl.solver.value(pl.preparer.value(pl.tf, want))
    pre = mark()
    a = {} if cal is None and decide(sbool("no_path")) else {"calibration_path": cal}
    o = attempt(L().quick_tf, d, pl.config, **a) if decide(sbool("configuration_given")) else attempt(L().quick_tf, d, **a)
    ensure(o.ok, "processing succeeds when its stages do")
    if not o.ok:
        return
    cover("done")
    ensure(o.value == want, "solution by the documented sequence of stages")
    unchanged(pre, "the configuration is unchanged")


def project(pl):
    """a project with any sites and measurements; the names are the directory names."""
    PR = mod("project")
    base = fs.Path(sstr("project_dir"))
    ns, nm = nat("n_sites"), eng.fresh_fn("n_meas", [I], I)
    require_forall(ns, lambda i: SNum.atom(nm(iz(i)), "int") >= 0)
    sites = PList(strings("site", ns))
    mname, minv = eng.fresh_fn("meas", [I, I], I), eng.fresh_fn("measinv", [I, I], I)
    eng.fn_axioms[mname(z3.IntVal(0), z3.IntVal(0)).decl().name()] = lambda t: [minv(t.arg(0), t) == t.arg(1)]
    pl.meas_dirs = {}

    def meas(i, j):
        name = SStr(mname(iz(i), iz(j)))
        ddir = base / "time" / sites.get(i) / name
        rd = Proc(mod("time").TimeReader, "reader", pl.x0.what, SNum.atom(z3.Function("reader_of", I, I, I)(iz(i), iz(j)), "int"))
        md = Stage(z3.Function("metadata_of", I, I, I)(iz(i), iz(j)), Kind("metadata"))
        return build(PR.Measurement, site_name=sites.get(i), dir_path=ddir, metadata=md, reader=rd)

    def site(i):
        return build(PR.Site, dir_path=base / "time" / sites.get(i), begin_time=instant("b"), end_time=instant("e"),
                     measurements=PDict.family(SNum.atom(nm(iz(i)), "int"), lambda j: SStr(mname(iz(i), iz(j))), lambda j: meas(i, j)))
    metadata = build(PR.ProjectMetadata, ref_time=instant("ref_time"))
    proj = build(PR.Project, dir_path=base, begin_time=instant("B"), end_time=instant("E"), metadata=metadata,
                 sites=PDict.family(ns, lambda i: sites.get(i), site))
    env = build(L().ResisticsEnvironment, proj=proj, config=pl.config)
    i, j = sint("i"), sint("j")
    require(And(0 <= i, i < ns), And(0 <= j, j < SNum.atom(nm(iz(i)), "int")))
    return env, proj, sites.get(i), meas(i, j)


def recorded(pl, meas, **kw):
    """the recording of the measurement, read with its own reader and metadata."""
    require(apply("reader", pl.x0.what, meas.reader.args(meas.dir_path, metadata=meas.metadata, **kw)) == pl.x0)


@contract("C32", "to stored evaluation frequency data", [FN + "process_time_to_evals", "resistics.project.get_meas_evals_path"] + RUNS + MORE, budget=120)
def to_evals():
    pl = Pipeline()
    spectra_invariant(pl)
    env, proj, s, meas = project(pl)
    recorded(pl, meas)
    td, p, sp = pl.to_spectra(pl.x0, proj.metadata.ref_time)
    want = pl.to_evals(p, sp, proj.dir_path / "calibrate")
    o = attempt(L().process_time_to_evals, env, s, meas.name)
    ensure(o.ok, "processing succeeds when its stages do")
    if not o.ok:
        return
    cover("done")
    ensure(pl.log.n == 1, "stored once")
    path, data = pl.log.get(0)
    ensure(data == want, "evaluation frequency data by the documented sequence of stages")
    ensure(path == mod("project").get_meas_evals_path(proj.dir_path, s, meas.name, pl.name), "stored under the measurement's own site, name and configuration")


@contract("C32", "time processors on stored recordings", [FN + "process_time", "resistics.project.get_meas_time_path"] + RUNS[:1])
def time_to_time():
    pl = Pipeline()
    env, proj, s, meas = project(pl)
    kw = {k: instant(k) for k in ("from_time", "to_time") if decide(sbool("give_" + k))}
    recorded(pl, meas, **kw)
    to_s, to_m = sstr("out_site"), sstr("out_meas")
    o = attempt(L().process_time, env, s, meas.name, to_s, to_m, **kw)
    ensure(o.ok, "processing succeeds when its stages do")
    if not o.ok:
        return
    cover("done")
    ensure(pl.log.n == 1, "stored once")
    path, data = pl.log.get(0)
    ensure(data == pl.time_after(pl.n_time), "the configured time processors in order")
    ensure(path == mod("project").get_meas_time_path(proj.dir_path, to_s, to_m), "stored under the requested site and name")


@contract("C32", "unknown sites and measurements", ["resistics.project.Project.get_site", "resistics.project.Site.get_measurement"])
def unknown():
    pl = Pipeline()
    env, proj, s, meas = project(pl)
    if decide(sbool("site")):
        s = sstr("another")
        require_forall(proj.sites.layers[0][1].n, lambda i: Not(s == proj.sites.layers[0][1].keyfn(i)))
        m = meas.name
        err = mod("errors").SiteNotFoundError
    else:
        return
    cover("unknown")
    must_fail(attempt(L().process_time_to_evals, env, s, m), err, "unknown site refused")


def results_are_directories(proj, out, name):
    """precondition: no file lies where the results directory has to be."""
    r = mod("project").get_results_path(proj.dir_path, out, name)
    for p in [r] + fs.ancestors(r):
        require(Not(p.is_file()))


@contract("C32", "stored data to a transfer function", [FN + "process_evals_to_tf", FN + "run_regression_preparer", FN + "run_solver"])
def evals_to_tf():
    pl = Pipeline()
    env, proj, out, meas = project(pl)
    rate = pos_real("fs")
    kw = {k: sstr(k) for k in ("in_site", "cross_site", "postfix") if decide(sbool("give_" + k))}
    p = pl.dec_setup.value(rate)
    sites = [out] + [kw[k] for k in ("in_site", "cross_site") if k in kw]
    results_are_directories(proj, out, pl.name)
    o = attempt(L().process_evals_to_tf, env, rate, out, **kw)
    ensure(o.ok, "processing succeeds when its stages do")
    if not o.ok:
        return
    cover("done")
    sel = pl.gathers["selector"].value(pl.name, proj, PList(sites), p)
    g = pl.gathers["project_gather"].value(pl.name, proj, sel, pl.tf, out_name=out, in_name=kw.get("in_site"), cross_name=kw.get("cross_site"))
    want = pl.solver.value(pl.preparer.value(pl.tf, g))
    ensure(o.value == want, "solution by the documented sequence of stages")
    ensure(pl.log.n == 1, "stored once")
    path, sol = pl.log.get(0)
    ensure(sol == want, "the solution is stored")
    PR = mod("project")
    ensure(path == PR.get_results_path(proj.dir_path, out, pl.name) / PR.get_solution_name(rate, want.tf.name, want.tf.variation, kw.get("postfix")),
           "stored under the output site and configuration")
