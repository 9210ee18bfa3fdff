from common import *
import project
from gen import *
from resistics import letsgo as L, time as T, project as PR
from resistics.config import Configuration
from resistics.errors import ProjectCreateError, ProjectLoadError


def info(rng):
    return dict(ref_time="2019-01-01 00:00:00", location=rng.choice(["", "here"]), year=rng.choice([2000, 2021]), contributors=["a"])


@scenario(weight=2)
def create(rng):
    how = rng.choice(["new", "parents", "existing empty", "existing content", "some subdirectories", "project", "project only file"])
    i = info(rng)
    note(path=how, info=i)
    with Scratch() as d:
        p = d / "a" / "b" if how == "parents" else d / "p"
        if how.startswith("existing") or how == "some subdirectories" or how == "project only file":
            p.mkdir()
        if how == "existing content":
            (p / "mine.txt").write_text("keep")
            (p / "time" / "site" / "meas").mkdir(parents=True)
            (p / "time" / "site" / "meas" / "x").write_text("y")
        if how == "some subdirectories":
            for s in rng.sample(sorted(PR.PROJ_DIRS.values()), 3):
                (p / s).mkdir()
                (p / s / "f").write_text(s)
        if how == "project":
            L.new(p, info(rng))
            (p / "time" / "s").mkdir()
        if how == "project only file":
            (p / PR.PROJ_FILE).write_text("{}")
        t = tree(d)
        arg = rng.choice([str, lambda x: x])(p)
        if how.startswith("project"):
            refused("project where there is one", ProjectCreateError, L.new, arg, i)
            same(tree(d), t, "everything in the existing project")
            return
        same(L.new(arg, i), True, "result")
        u = tree(d)
        for k, v in t.items():
            same(u.get(k, 0), v, f"existing {k}")
        for s in PR.PROJ_DIRS.values():
            check((p / s).is_dir(), f"subdirectory {s}")
        m = PR.ProjectMetadata.parse_file(p / PR.PROJ_FILE)
        same([str(m.ref_time), m.location, m.year, m.contributors], [str(S.to_datetime(i["ref_time"])), i["location"], i["year"], ["a"]], "project file")


class Picky(T.TimeReader):
    """reads directories holding its mark."""
    mark: str = "m"
    fs: float = 1.0

    def read_metadata(self, dir_path):
        if not (dir_path / self.mark).exists():
            raise T.__dict__.get("MetadataReadError", ValueError)("not mine") if False else ValueError("not mine")
        return T.TimeMetadata(fs=self.fs, chans=["Ex"], n_samples=10, first_time="2021-01-01", last_time="2021-01-01 00:00:09",
                              chans_metadata={"Ex": T.ChanMetadata(name="Ex", data_files=[self.mark])})


@scenario(weight=2)
def load(rng):
    marks = ["a", "b", "c"]
    readers = [Picky(mark=m, fs=10.0 + i) for i, m in enumerate(rng.sample(marks, rng.randrange(1, 4)))]
    sites = {s: {k: rng.sample(marks, rng.randrange(0, 3)) for k in rng.sample(project.MEAS, rng.randrange(0, 4))} for s in rng.sample(project.NAMES, rng.randrange(0, 4))}
    note(sites=sites, readers=[r.mark for r in readers])
    with Scratch() as d:
        p = d / "p"
        L.new(p, info(rng))
        for s, ms in sites.items():
            (p / "time" / s).mkdir()
            (p / "time" / s / "stray.txt").write_text("x")
            for k, mk in ms.items():
                (p / "time" / s / k).mkdir()
                for m in mk:
                    (p / "time" / s / k / m).write_text("x")
        (p / "time" / "stray").write_text("x")
        t = tree(d)
        c = Configuration(name="c", time_readers=readers)
        env = L.load(rng.choice([str, lambda x: x])(p), c)
        same(tree(d), t, "the project on disk")
        same(env.config.name, "c", "configuration")
        same(sorted(env.proj.sites), sorted(sites), "sites")
        for s, ms in sites.items():
            e = {k: next((r for r in readers if r.mark in mk), None) for k, mk in ms.items()}
            e = {k: r for k, r in e.items() if r is not None}
            site = env.proj[s]
            same(sorted(site.measurements), sorted(e), f"measurements of {s}")
            for k, r in e.items():
                m = site[k]
                same([m.metadata.fs, m.reader.mark, m.name, m.site_name, str(m.dir_path)], [r.fs, r.mark, k, s, str(p / "time" / s / k)], f"measurement {s} {k}")
        r2 = L.reload(env)
        same(sorted(r2.proj.sites), sorted(sites), "sites after reloading")


@scenario(limit=30)
def not_a_project(rng):
    with Scratch() as d:
        how = rng.choice(["missing", "empty"])
        note(path=how)
        if how == "missing":
            refused("missing directory", FileNotFoundError, L.load, d / "x")
        else:
            refused("no project file", ProjectLoadError, L.load, d)
