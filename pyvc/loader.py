"""Loads the modules of the package under verification from their current source,
desugared, with library contracts in place of the libraries."""
import os, sys, types, hashlib
from .core import eng, Unsupported
from . import transform, runtime
from .libs import REG, Mod

REPO = os.environ.get("PV_REPO", "/repo")
MODS = {}
SOURCES = {}


def importer(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        raise Unsupported("relative import")
    if name == "resistics" or name.startswith("resistics."):
        if name == "resistics":
            m = package()
            for f in fromlist or ():
                if not hasattr(m, f):
                    setattr(m, f, load("resistics." + f))
            return m
        m = load(name)
        return m if fromlist else package()
    if name not in REG:
        if name in ("typing", "abc", "__future__", "functools_", "textwrap", "re", "copy_", "enum"):
            return __import__(name, globals, locals, fromlist, level)
        raise Unsupported(f"import of {name}")
    return REG[name] if fromlist else REG[name.split(".")[0]]


BUILTINS = None


def builtins():
    global BUILTINS
    if BUILTINS is None:
        BUILTINS = runtime.make_builtins(importer)
    return BUILTINS


_pkg = None


def package():
    global _pkg
    if _pkg is None:
        _pkg = Mod("resistics", __version__="1.0.0")
    return _pkg


def load(name):
    if name in MODS:
        return MODS[name]
    path = os.path.join(REPO, *name.split(".")) + ".py"
    with open(path) as f:
        src = f.read()
    SOURCES[name] = hashlib.sha256(src.encode()).hexdigest()
    m = types.ModuleType(name)
    m.__file__ = path
    m.__dict__["__builtins__"] = builtins()
    m.__dict__["__pv__"] = runtime.pv
    MODS[name] = m
    code = transform.transform(src, name, path)
    try:
        exec(code, m.__dict__)
    except BaseException:
        MODS.pop(name, None)
        raise
    setattr(package(), name.split(".", 1)[1], m)
    return m
