"""A file system: unknown initial state plus the writes of this run; pathlib, file
objects and numpy file input/output as contracts over it."""
import z3
from . import reg
from ..core import eng, Unsupported, model_exc, axiom
from .. import num as N
from ..num import SNum, SBool, SStr, num, And, Or, Not, Implies, Ite
from .. import values as V
from ..values import PList, PDict, PObject, Tracked, decide
from .. import arrays as A
from ..arrays import NDArray
from .misc import JsonText

I = z3.IntSort()
JOIN = z3.Function("pathjoin", I, I, I)
PARENT = z3.Function("pathparent", I, I)
NAME = z3.Function("pathname", I, I)
DEPTH = z3.Function("pathdepth", I, I)
DIRN, DIRNAME, DIRPOS = z3.Function("dirn", I, I), z3.Function("dirname", I, I, I), z3.Function("dirpos", I, I, I)
KIND0 = z3.Function("kind0", I, I)       # 0 missing, 1 file, 2 directory


@axiom("pathjoin")
def _join_ax(t):
    p, n = t.arg(0), t.arg(1)
    return [PARENT(t) == p, NAME(t) == n, DEPTH(t) == DEPTH(p) + 1]


@axiom("kind0")
def _kind_ax(t):
    p = t.arg(0)
    out = [t >= 0, t <= 2]
    if z3.is_app(p) and p.decl().name() == "pathjoin":
        out.append(z3.Implies(t != 0, KIND0(p.arg(0)) == 2))
        if FS.lists:        # a listing has every entry
            d, x = p.arg(0), p.arg(1)
            out.append(z3.Implies(t != 0, z3.And(0 <= DIRPOS(d, x), DIRPOS(d, x) < DIRN(d), DIRNAME(d, DIRPOS(d, x)) == x)))
    return out


class Path:
    """base code and the names below it (names must be plain: no separator)."""
    _cellvalue = False

    def __init__(self, *parts):
        self.base, self.names = None, ()
        if not parts:
            parts = (".",)
        for p in parts:
            self._add(p)

    def _add(self, p):
        if isinstance(p, Path):
            if self.base is None:
                self.base, self.names = p.base, p.names
            else:
                raise Unsupported("join of two paths")
            return
        if not isinstance(p, (str, SStr)):
            raise model_exc(TypeError("expected str or Path"))
        if self.base is None:
            if isinstance(p, str) and "/" in p.strip("/"):
                ps = [x for x in p.split("/") if x]
                self.base = ("/" if p.startswith("/") else "") + ps[0]
                self.names = tuple(ps[1:])
            else:
                t = p.z if isinstance(p, SStr) else None
                if t is not None and z3.is_app(t) and t.decl().name() == "pathstr":
                    self.base = SStr(t.arg(0))
                else:
                    self.base = p
        else:
            if isinstance(p, str):
                if p.startswith("/"):
                    self.base, self.names = p, ()
                else:
                    self.names = self.names + tuple(x for x in p.split("/") if x and x != ".")
            else:
                self.names = self.names + (p,)

    @staticmethod
    def mk(base, names):
        r = Path.__new__(Path)
        r.base, r.names = base, tuple(names)
        return r

    @property
    def code(self):
        c = N.code(self.base)
        for n in self.names:
            c = JOIN(c, N.code(n))
        return c

    def __truediv__(self, o):
        r = Path.mk(self.base, self.names)
        r._add(o)
        return r

    def joinpath(self, *o):
        r = self
        for x in o:
            r = r / x
        return r

    def __eq__(self, o):
        if not isinstance(o, Path):
            return False
        return N.mkbool(self.code == o.code)

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        raise Unsupported("hash of path")

    @property
    def _scalar_z(self):
        return self.code

    @property
    def name(self):
        if self.names:
            return self.names[-1]
        return SStr(NAME(N.code(self.base)))

    @property
    def parent(self):
        if self.names:
            return Path.mk(self.base, self.names[:-1])
        return Path.mk(SStr(PARENT(N.code(self.base))), ())

    @property
    def stem(self):
        n = self.name
        if isinstance(n, str):
            return n.rsplit(".", 1)[0] if "." in n[1:] else n
        return N.strfn("stem", n)

    @property
    def suffix(self):
        n = self.name
        if isinstance(n, str):
            return "." + n.rsplit(".", 1)[1] if "." in n[1:] else ""
        return N.strfn("suffix", n)

    def pv_str(self, spec=""):
        if not self.names and isinstance(self.base, str):
            return self.base
        return SStr(z3.Function("pathstr", I, I)(self.code))

    def __str__(self):
        return "<path>"

    def as_posix(self):
        return self.pv_str()

    def resolve(self, *a):
        return self
    absolute = resolve

    def __repr__(self):
        return f"Path({self.base!r}, {self.names!r})"

    # queries
    def kind_is(self, k):
        return FS.kind_is(self, k)

    def exists(self):
        return Not(self.kind_is(0))

    def is_file(self):
        return self.kind_is(1)

    def is_dir(self):
        return self.kind_is(2)

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if decide(self.exists()):
            if exist_ok and decide(self.is_dir()):
                return
            raise model_exc(FileExistsError(17, "File exists"))
        if not decide(self.parent.is_dir()):
            if not parents:
                raise model_exc(FileNotFoundError(2, "No such file or directory"))
            if decide(Or(*[p.is_file() for p in ancestors(self)])):
                raise model_exc(NotADirectoryError(20, "Not a directory"))
            FS.event("mkdirs", self, None)
            return
        FS.event("mkdir", self, None)

    def iterdir(self):
        return FS.listdir(self)

    def open(self, mode="r", *a, **k):
        return File(self, mode)

    def read_text(self, *a, **k):
        return File(self, "r").read()

    def write_text(self, s, *a, **k):
        with File(self, "w") as f:
            f.write(s)

    def glob(self, *a):
        raise Unsupported("Path.glob")
    rglob = glob

    def unlink(self, *a, **k):
        FS.event("remove", self, None)

    rmdir = unlink

    def touch(self, *a, **k):
        FS.event("write", self, None)

    def rename(self, o):
        raise Unsupported("rename")
    replace = rename


V.SUBST[Path] = lambda v, k, i: Path.mk(V.subst(v.base, k, i), tuple(V.subst(n, k, i) for n in v.names))


class FileSystem(Tracked):
    lists = False

    def __init__(self):
        self.events = ()
        self._born()

    def _snapshot(self):
        return self.events

    def _restore(self, st):
        self.events = st

    def reset(self):
        self.lists = False
        self.events = ()
        self._born()

    def event(self, kind, path, content):
        self._touch()
        self.events = self.events + ((kind, path, content),)

    def kind_is(self, path, k):
        """condition: path is missing (0) / file (1) / directory (2) now."""
        c = path.code
        r = N.mkbool(KIND0(c) == k)
        for (e, p, _) in self.events:
            if e == "each":          # files written by the iterations of a loop
                n, e, at = p
                r = Ite(V.seq_member(PList.sym(n, lambda j: SNum.atom(at(j).code, "int")), SNum.atom(c, "int")), k == 1, r)
                continue
            same = N.mkbool(p.code == c)
            if e == "write":
                r = Ite(same, k == 1, r)
            elif e == "mkdir":
                r = Ite(same, k == 2, r)
            elif e == "remove":
                r = Ite(same, k == 0, r)
            elif e == "mkdirs":
                anc = [N.mkbool(q.code == c) for q in ancestors(p)]
                r = Ite(Or(same, *anc), k == 2, r)
        return r

    def content(self, path):
        """contents of a file known to exist."""
        c = path.code
        for (e, p, v) in reversed(self.events):
            if e == "each":
                n, _, at = p
                j = PList.sym(n, lambda j: SNum.atom(at(j).code, "int")).find(SNum.atom(c, "int"))
                if j is not None:
                    return v(j)
                continue
            if e == "write" and decide(N.mkbool(p.code == c)):
                return v
        for p, v in GIVEN:
            if decide(N.mkbool(p.code == c)):
                return v
        return None

    def listdir(self, path):
        if not decide(path.is_dir()):
            raise model_exc(FileNotFoundError(2, "No such file or directory"))
        for (e, p, v) in self.events:
            if e == "each":
                raise Unsupported("listing of a directory changed in this run")
            if e != "write" or decide(Or(*[N.mkbool(q.code == path.code) for q in ancestors(p)][:1])):
                raise Unsupported("listing of a directory changed in this run")
        FS.lists = True
        n = SNum.atom(DIRN(path.code), "int")
        nm = DIRNAME
        eng.assume(n >= 0)
        child = lambda i: path / SStr(nm(path.code, N.iz(i)))
        eng.forall(0, n, lambda i: Not(N.mkbool(KIND0(child(i).code) == 0)))
        inv = DIRPOS
        eng.forall(0, n, lambda i: N.mkbool(inv(path.code, nm(path.code, N.iz(i))) == N.iz(i)))
        return PList.sym(n, child)


def ancestors(p):
    out = []
    names = p.names
    while names:
        names = names[:-1]
        out.append(Path.mk(p.base, names))
    b = out[-1] if out else p
    out.append(Path.mk(SStr(PARENT(N.code(b.base))), ()))
    return out


FS = FileSystem()
GIVEN = []          # [(path, content)] initial contents supplied by a contract


def need_parent(path):
    if not decide(path.parent.is_dir()):
        raise model_exc(FileNotFoundError(2, "No such file or directory"))


class File:
    def __init__(self, path, mode):
        self.path, self.mode = Path(path) if not isinstance(path, Path) else path, mode
        self.pos = 0
        if "w" in mode:
            need_parent(self.path)
            FS.event("write", self.path, None)
        elif "r" in mode:
            if not decide(self.path.is_file()):
                raise model_exc(FileNotFoundError(2, "No such file or directory"))
        else:
            raise Unsupported("file mode " + mode)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def write(self, s):
        FS.event("write", self.path, s)

    def read(self):
        c = FS.content(self.path)
        if c is None:
            return unknown_text(self.path)
        if not isinstance(c, str) and not isinstance(c, SStr):
            raise Unsupported("read of binary content")
        return c

    def readlines(self):
        c = FS.content(self.path)
        if isinstance(c, PList):
            return PList(c)
        raise Unsupported("lines of an unknown file")

    def to_seq(self):
        return self.readlines()


def unknown_text(path):
    raise model_exc(ValueError("unreadable file"))


def aspath(p):
    return p if isinstance(p, Path) else Path(p)


def snap(a):
    return A.asarray(a).copy()


def suffixed(path, suffix):
    """numpy appends the suffix when the name lacks it."""
    path = aspath(path)
    n = path.name
    if not isinstance(n, str):
        raise Unsupported("file of unknown name")
    return path if n.endswith(suffix) else path.parent / (n + suffix)


def np_save(path, arr, *a, **k):
    path = suffixed(path, ".npy")
    need_parent(path)
    FS.event("write", path, ("npy", snap(arr)))


def np_savez_compressed(path, *a, **kw):
    path = suffixed(path, ".npz")
    need_parent(path)
    if a:
        raise Unsupported("savez positional")
    d = kw.get("__pv_symkw__")
    if d is None:
        d = PDict(kw)
    from .misc import map_dict
    FS.event("write", path, ("npz", map_dict(d, lambda v: snap(v))))


def np_savetxt(path, arr, fmt="%.18e", **k):
    path = aspath(path)
    need_parent(path)
    FS.event("write", path, ("txt", snap(arr), fmt, k))


class Npz(PObject):
    def __init__(self, d):
        self.d = d

    @property
    def files(self):
        return self.d.keys()

    def keys(self):
        return self.d.keys()

    def items(self):
        return self.d.items()

    def __getitem__(self, k):
        return self.d[k]

    def to_seq(self):
        return self.d.keys()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def np_load(path, mmap_mode=None, **k):
    path = aspath(path)
    if not decide(path.is_file()):
        raise model_exc(FileNotFoundError(2, "No such file or directory"))
    c = FS.content(path)
    if isinstance(c, tuple) and c[0] == "npy":
        return c[1].copy()
    if isinstance(c, tuple) and c[0] == "npz":
        from .misc import map_dict
        return Npz(map_dict(c[1], lambda v: v.copy()))
    raise model_exc(ValueError("Cannot load file containing pickled data"))


def np_loadtxt(path, dtype=float, delimiter=None, skiprows=0, max_rows=None, ndmin=0, **k):
    """content ("rows", lines before the data, rows, columns, value(row, column), delimiter)"""
    if k:
        raise Unsupported("loadtxt(options)")
    path = aspath(path)
    if not decide(path.is_file()):
        raise model_exc(FileNotFoundError(2, "No such file or directory"))
    c = FS.content(path)
    if not (isinstance(c, tuple) and c[0] == "rows"):
        raise Unsupported("loadtxt of unknown text")
    _, nhead, n, cols, val, delim = c
    if delim is not delimiter and not decide(V.scalar_eq(delim, delimiter)):
        raise model_exc(ValueError("could not convert string to float"))
    lo = skiprows - nhead
    if not decide(lo >= 0):
        raise model_exc(ValueError("could not convert string to float"))
    if not decide(lo <= n):
        lo = n
    dt = A.as_dtype(dtype)
    avail = n - lo
    cnt = avail
    if max_rows is not None:
        cnt = max_rows if decide(num(max_rows) <= avail) else avail
    r = NDArray.make((cnt, cols), dt, lambda i, j: A.cast_scalar(val(lo + i, j), dt))
    if ndmin < 2:
        if decide(num(cols) == 1):
            r = r[:, 0]
            if ndmin < 1 and decide(num(cnt) == 1):
                r = r[0]
        elif decide(num(cnt) == 1):
            r = r[0]
    return r


reg("pathlib", Path=Path, PurePath=Path)
