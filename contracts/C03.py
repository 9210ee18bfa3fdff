from objs import *

T = lambda: mod("time")
S = lambda: mod("sampling")
FN = "resistics.time."


def recording(fmt):
    """a recording on disk: metadata and a directory with its data file."""
    f = sstr("file")
    m = time_metadata(n=nat("n", 1))
    nc, n = m.n_chans, m.n_samples
    st = PList(m.chans)
    m.chans_metadata = chans_metadata(m.chans, nc, files=lambda i: PList([f]))
    d = fs.Path(sstr("dir"))
    x = real_array("x", nc, n)
    path = d / f
    eng.assume(path.is_file())
    head = nat("n_header")
    delim = None if decide(sbool("whitespace")) else sstr("delimiter")
    fs.GIVEN[:] = [(path, ("npy", x) if fmt == "npy" else ("rows", head, n, nc, lambda i, c: x.at(c, i), delim))]
    if fmt == "npy":
        r = T().TimeReaderNumpy(apply_scalings=sbool("scale"))
    else:
        r = T().TimeReaderAscii(apply_scalings=sbool("scale"), n_header=head, delimiter=delim)
    require(period_exact(m.fs))
    return d, m, x, r


def asked(m):
    """from and to by time, sample or not at all: the samples meant, None when refused."""
    kw, out = {}, []
    n = m.n_samples
    for side, conv, end in (("from", S().from_time_to_sample, num(0)), ("to", S().to_time_to_sample, n - 1)):
        how = 0 if decide(sbool(side + "_nothing")) else 1 if decide(sbool(side + "_by_sample")) else 2
        if how == 0:
            out.append(end)
        elif how == 1:
            k = kw[side + "_sample"] = sint(side + "_sample")
            out.append(k if decide(And(0 <= k, k < n)) else None)
        else:
            t = kw[side + "_time"] = instant(side + "_time")
            if decide(sbool(side + "_sample_too")):
                kw[side + "_sample"] = sint(side + "_sample")
            o = attempt(conv, m.fs, m.first_time, m.last_time, t)
            out.append(num(o.value) if o.ok else None)
    return kw, out[0], out[1]


def check(o, m, x, a, b, pre):
    if a is None or b is None or decide(num(a) >= b):
        cover("refused")
        must_fail(o, ValueError, "samples outside the recording and ranges out of order are refused")
        return
    ensure(o.ok, "range inside the recording is returned")
    if not o.ok:
        return
    cover("read")
    td = o.value
    r = td.metadata
    ensure(len(td.data.shape) == 2 and num(td.data.shape[0]) == m.n_chans, "every channel")
    ensure(num(td.data.shape[1]) == num(b) - a + 1, "from the first to the last requested sample inclusive")
    ensure_cells(td.data, lambda c, j: x.at(c, num(a) + j), "the samples in order and unchanged")
    ensure(num(r.n_samples) == num(b) - a + 1, "number of samples in the metadata")
    ensure(And(r.first_time.t == m.first_time.t + quotient(num(a), m.fs), r.last_time.t == m.first_time.t + quotient(num(b), m.fs)), "times of the first and last sample in the metadata")
    ensure(And(num(r.fs) == m.fs, num(r.n_chans) == m.n_chans), "sampling frequency and number of channels kept")
    ensure_list(PList(r.chans), m.n_chans, lambda i: PList(m.chans).get(i), "channels kept in order")
    unchanged(pre, "the recording's metadata is unchanged")


def reading(fmt):
    time_to_sample_contracts()
    d, m, x, r = recording(fmt)
    kw, a, b = asked(m)
    pre = mark()
    o = attempt(r.run, d, metadata=m, **kw)
    check(o, m, x, a, b, pre)


READ = [FN + "TimeReader.run", FN + "TimeReader._get_read_samples", FN + "TimeReader._get_return_metadata", FN + "adjust_time_metadata", "resistics.sampling.check_sample"]
contract("C03", "reading numpy recordings", READ + [FN + "TimeReaderNumpy.read_data"], budget=150)(lambda: reading("npy"))
contract("C03", "reading text recordings", READ + [FN + "TimeReaderAscii.read_data"], budget=150)(lambda: reading("txt"))


@contract("C03", "subsection", [FN + "Subsection.run", FN + "adjust_time_metadata", "resistics.sampling.datetimes_to_samples", "resistics.sampling.samples_to_datetimes"], budget=150)
def subsection():
    time_to_sample_contracts()
    td = time_data(n=nat("n", 1))
    m = td.metadata
    require(period_exact(m.fs))
    x = td.data.copy()
    t = [instant("from_time"), instant("to_time")]
    a = attempt(S().from_time_to_sample, m.fs, m.first_time, m.last_time, t[0])
    b = attempt(S().to_time_to_sample, m.fs, m.first_time, m.last_time, t[1])
    pre = mark()
    o = attempt(build(T().Subsection, name="Subsection", from_time=t[0], to_time=t[1]).run, td)
    check(o, m, x, a.value if a.ok else None, b.value if b.ok else None, pre)
