from objs import *

FN = "resistics."
KINDS = {"decimated": ("decimate", "DecimatedDataWriter", "DecimatedDataReader", decimated_data, "DecimatedMetadata"),
         "windowed": ("window", "WindowedDataWriter", "WindowedDataReader", windowed_data, "WindowedMetadata"),
         "spectra": ("spectra", "SpectraDataWriter", "SpectraDataReader", spectra_data, "SpectraMetadata")}


def place():
    """a directory that can be written to."""
    d = fs.Path(sstr("parent")) / sstr("directory")
    for p in [d] + fs.ancestors(d):
        require(Not(p.is_file()))
    return d


def same_metadata(m, r, name, changed=()):
    """every field of the metadata written comes back; data_files of time data name the file written."""
    ensure(type(r) is type(m), f"{name}: of the same type")
    for k in m.field_dict():
        if k in ("file_info", "history") + tuple(changed):
            continue
        ensure_same(m.field_dict()[k], r.field_dict()[k], f"{name}: {k}")


def same_channels(m, r, name):
    """the metadata of every channel but the names of the files the data came from."""
    a, b = m.chans_metadata, r.chans_metadata
    st = PList(m.chans)
    ensure(num(b.n) == num(a.n), f"{name}: metadata of every channel")

    def check(i):
        x, y = a.lookup(st.get(i)), b.lookup(st.get(i))
        ensure(y is not V.MISSING, f"{name}: channel metadata present")
        if x is V.MISSING or y is V.MISSING:
            return
        for k in x.field_dict():
            if k != "data_files":
                ensure_same(x.field_dict()[k], y.field_dict()[k], f"{name}: channel {k}")
    ensure_forall(m.n_chans, check, name)


def same_history(m, r, name, creators):
    a, b = PList(m.history.records), PList(r.history.records)
    ensure(num(b.n) == num(a.n) + len(creators), f"{name}: records added")
    ensure_forall(a.n, lambda i: ensure_same(a.get(i), b.get(i), f"{name}: original history"), name)
    for j, c in enumerate(creators):
        ensure(V.scalar_eq(b.get(num(a.n) + j).creator["name"], c), f"{name}: {c}'s record")


def round_trip(kind):
    def run():
        m, wn, rn, make, _ = KINDS[kind]
        obj = make()
        d = place()
        w, r = build(getattr(mod(m), wn), overwrite=True, name=wn), build(getattr(mod(m), rn), name=rn)
        md = obj.metadata
        o = attempt(w.run, d, obj)
        ensure(o.ok, "data is written")
        if not o.ok:
            return
        o = attempt(r.run, d, metadata_only=True)
        ensure(o.ok, "the metadata is read")
        if o.ok:
            same_metadata(md, o.value, "metadata alone")
        o = attempt(r.run, d)
        ensure(o.ok, "the data is read")
        if not o.ok:
            return
        cover("read")
        b = o.value
        ensure(type(b) is type(obj), "data of the same type")
        same_metadata(md, b.metadata, "metadata")
        same_history(md, b.metadata, "history", [wn, rn])
        ensure(num(b.data.n) == num(md.n_levels), "as many levels")

        def level(l):
            x, y = obj.data.lookup(l), b.data.lookup(l)
            ensure(y is not V.MISSING, "every level comes back")
            if y is not V.MISSING and x is not V.MISSING:
                ensure_same_array(y, x, "the data of every level")
                ensure(x.dtype.kind == y.dtype.kind, "type of the data")
        ensure_forall(md.n_levels, level, "levels")
    return run


for _k, (_m, _w, _r, _, _md) in KINDS.items():
    contract("C31", f"{_k}: written and read back", [FN + f"{_m}.{_w}.run", FN + f"{_m}.{_r}.run", FN + "common.ResisticsWriter._check_dir", FN + "common.ResisticsWriter._get_record",
                                                      FN + "common.WriteableMetadata.write", FN + "sampling.datetime_to_string", FN + "sampling.datetime_from_string"], budget=200)(round_trip(_k))


RD = [FN + "time." + x for x in ("TimeReader.run", "TimeReader._get_read_samples", "TimeReader._get_return_metadata", "TimeReaderJSON.read_metadata", "TimeReader._check_data_files",
                                 "TimeReader._check_extensions", "adjust_time_metadata")]
WR = [FN + "common.ResisticsWriter._check_dir", FN + "common.ResisticsWriter._get_record", FN + "common.WriteableMetadata.write", FN + "sampling.datetime_to_string", FN + "sampling.datetime_from_string"]


def time_read(r, d, md, x, creators, **more):
    """the metadata alone, the data, and the data with the metadata given."""
    o = attempt(r.run, d, metadata_only=True)
    ensure(o.ok, "the metadata is read")
    if not o.ok:
        return
    same_metadata(md, o.value, "metadata alone", ["chans_metadata"])
    same_channels(md, o.value, "metadata alone")
    kw = dict(metadata=o.value) if decide(sbool("metadata_given")) else {}
    o = attempt(r.run, d, **kw)
    ensure(o.ok, "the data is read")
    if not o.ok:
        return
    cover("read")
    b = o.value
    same_metadata(md, b.metadata, "metadata", ["chans_metadata"])
    same_channels(md, b.metadata, "metadata")
    same_history(md, b.metadata, "history", creators)
    ensure_same_array(b.data, x, "data")
    ensure(b.data.dtype.kind == x.dtype.kind, "type of the data")


@contract("C31", "time: written and read back", [FN + "time.TimeWriterNumpy.run", FN + "time.TimeReaderNumpy.read_data"] + RD + WR, budget=200)
def time_numpy():
    T = mod("time")
    td = time_data(n=nat("n", 2), nan=True)
    require(period_exact(td.metadata.fs))
    d = place()
    o = attempt(build(T.TimeWriterNumpy, overwrite=True, name="TimeWriterNumpy").run, d, td)
    ensure(o.ok, "data is written")
    if o.ok:
        time_read(build(T.TimeReaderNumpy, name="TimeReaderNumpy", apply_scalings=sbool("scale"), extension=".npy"), d, td.metadata, td.data, ["TimeWriterNumpy", "TimeReaderNumpy"])


@contract("C31", "time: a text recording in the documented layout", [FN + "time.TimeReaderAscii.read_data"] + RD, budget=200)
def time_ascii():
    T = mod("time")
    m = time_metadata(n=nat("n", 2))
    nc, n = m.n_chans, m.n_samples
    f = sstr("file")
    m.chans_metadata = chans_metadata(m.chans, nc, files=lambda i: PList([f]))
    require(period_exact(m.fs))
    d = fs.Path(sstr("parent")) / sstr("directory")
    x = real_array("x", nc, n)
    head = nat("n_header")
    delim = None if decide(sbool("whitespace")) else sstr("delimiter")
    require((d / f).suffix == ".txt")
    eng.assume(And((d / f).is_file(), (d / "metadata.json").is_file(), Not((d / f) == d / "metadata.json")))
    fs.GIVEN[:] = [(d / f, ("rows", head, n, nc, lambda i, c: x.at(c, i), delim)), (d / "metadata.json", m.json())]
    r = build(T.TimeReaderAscii, name="TimeReaderAscii", apply_scalings=sbool("scale"), extension=".txt", n_header=head, delimiter=delim)
    time_read(r, d, m, x, ["TimeReaderAscii"])
