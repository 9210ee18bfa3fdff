from common import *
import writers
from gen import *
from resistics.errors import WriteError


@scenario(weight=2)
def no_overwrite(rng):
    k, cls, obj = writers.kinds(rng)
    k2, cls2, obj2 = writers.kinds(rng)
    how = rng.choice(["empty directory", "own output", "other output", "stray file", "file"])
    note(kind=k, existing=how)
    with Scratch() as d:
        p = d / "out"
        if how == "file":
            p.write_text("something")
        else:
            p.mkdir()
            if how == "own output":
                cls().run(p, obj)
            elif how == "other output":
                cls2().run(p, obj2)
            elif how == "stray file":
                (p / rng.choice(["metadata.json", "data.npy", "data.npz", "notes"])).write_text("something")
        t, b = tree(d), freeze(obj)
        refused("existing path with overwrite off", (WriteError,), cls(overwrite=False).run, p, obj)
        same(tree(d), t, "everything in the existing path")
        same(freeze(obj), b, "the object being written")


@scenario(weight=2)
def writes(rng):
    k, cls, obj = writers.kinds(rng)
    how = rng.choice(["new", "new with parents", "overwrite"])
    note(kind=k, path=how)
    with Scratch() as d:
        p = d / "out" if how != "new with parents" else d / "a" / "b" / "c"
        if how == "overwrite":
            cls().run(p, writers.kinds(rng)[2] if False else obj)
        b = freeze(obj)
        cls(overwrite=how == "overwrite" or rng.random() < 0.5).run(p, obj)
        same(freeze(obj), b, "the object being written")
        check(p.is_dir() and (p / "metadata.json").is_file(), "directory and metadata")
        for f in writers.data_files(k, obj, p):
            check(f.is_file() and f.stat().st_size > 0, f"data file {f.name}")
        m = type(obj.metadata).parse_file(p / "metadata.json")
        same(m.chans, obj.metadata.chans, "channels in the written metadata")
