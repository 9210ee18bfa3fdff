from objs import *

FN = "resistics."
KINDS = {"decimated": ("decimate", "DecimatedDataWriter", decimated_data, "data.npz"),
         "windowed": ("window", "WindowedDataWriter", windowed_data, "data.npz"),
         "spectra": ("spectra", "SpectraDataWriter", spectra_data, "data.npz"),
         "time": ("time", "TimeWriterNumpy", time_data, "data.npy"),
         "ascii": ("time", "TimeWriterAscii", time_data, None)}


def writer(kind, overwrite):
    m, c, make, f = KINDS[kind]
    return build(getattr(mod(m), c), overwrite=overwrite), make(), f


def refusal(kind):
    def run():
        w, obj, f = writer(kind, False)
        d = fs.Path(sstr("parent")) / sstr("directory")
        require(d.exists())
        pre = mark()
        o = attempt(w.run, d, obj)
        cover("existing")
        must_fail(o, mod("errors").WriteError, "an existing path is refused when overwriting is off")
        ensure(len(fs.FS.events) == 0, "nothing in it is changed")
        unchanged(pre, "the object being written is unchanged")
    return run


def writing(kind):
    def run():
        w, obj, f = writer(kind, sbool("overwrite"))
        d = fs.Path(sstr("parent")) / sstr("directory")
        for p in [d] + fs.ancestors(d):
            require(Not(p.is_file()))            # no file where a directory has to be
        require(Or(Not(d.exists()), w.overwrite))
        pre = mark()
        o = attempt(w.run, d, obj)
        ensure(o.ok, "data is written")
        if not o.ok:
            return
        cover("written")
        ensure(d.is_dir(), "the directory exists")
        ensure((d / "metadata.json").is_file(), "with the metadata")
        if f is not None:
            ensure((d / f).is_file(), "and the data")
        else:
            chans = PList(obj.metadata.chans)
            ensure_forall(chans.n, lambda i: (d / (chans.get(i).lower() + ".ascii")).is_file(), "and the data of every channel")
        unchanged(pre, "the object being written is unchanged")
    return run


for k, (m, c, _, _) in KINDS.items():
    fns = [FN + f"{m}.{c}.run", FN + "common.ResisticsWriter._check_dir"]
    contract("C25", f"{k}: existing data is not overwritten", fns)(refusal(k))
    contract("C25", f"{k}: writing", fns + [FN + "common.ResisticsWriter._get_record", FN + "common.WriteableMetadata.write"])(writing(k))
