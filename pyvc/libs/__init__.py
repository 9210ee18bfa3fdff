"""Contracts of the libraries the program uses (assumed, listed in the evidence)."""
import types


class Mod(types.ModuleType):
    def __init__(self, name, **kw):
        super().__init__(name)
        self.__path__ = []
        self.__dict__.update(kw)


REG = {}


def reg(name, **kw):
    m = REG.get(name)
    if m is None:
        m = REG[name] = Mod(name)
        if "." in name:
            p, l = name.rsplit(".", 1)
            setattr(reg(p), l, m)
    m.__dict__.update(kw)
    return m
