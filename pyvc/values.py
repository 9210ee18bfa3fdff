"""Heap values: tracked lists, dictionaries, sets, objects; substitution of the
index of a generic element by an actual index; the generic-iteration primitive."""
import contextlib
import weakref
import z3
from fractions import Fraction
from . import core
from .core import eng, Unsupported, PathEnd, model_exc, QFact, sanctioned
from . import num as N
from .num import SNum, SBool, SStr, SComplex, num, iz, And, Or, Not, Implies, Ite


class Poison:
    """Value of a variable before assignment / an unsupported carried value."""
    def __init__(self, why):
        self.__dict__["why"] = why

    def _bad(self, *a, **k):
        raise Unsupported(f"use of {self.why}")
    __getattr__ = __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bad
    __getitem__ = __setitem__ = __bool__ = __iter__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _bad
    __contains__ = __len__ = __truediv__ = __rtruediv__ = __str__ = __format__ = __hash__ = _bad


UNBOUND = Poison("an unassigned variable")


# ------------------------------------------------------------------ tracked
class Tracked:
    _stamp = 0
    _frozen = False
    _src = None      # the generic object this one is an instance of

    def _born(self):
        object.__setattr__(self, "_stamp", eng.stamp())

    def _touch(self):
        if self._frozen:
            raise Unsupported("modification of a member of a symbolic family")
        eng.log(self, self._snapshot())


class Undefined(Unsupported):
    pass


def undefined(what):
    """only on impossible paths."""
    if eng.check() == "unsat":
        raise PathEnd()
    raise Undefined(what)


class PObject(Tracked):
    """Base of every class of the program: attribute writes are tracked."""
    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        o._born()
        return o

    def __init_subclass__(cls, **kw):
        pass

    def __setattr__(self, k, v):
        if self._frozen:
            return member_write(self, k, v)
        self._touch()
        object.__setattr__(self, k, v)

    def __delattr__(self, k):
        self._touch()
        object.__delattr__(self, k)

    def _snapshot(self):
        return dict(self.__dict__)

    def _restore(self, st):
        self.__dict__.clear()
        self.__dict__.update(st)


INTERNAL = ("_stamp", "_frozen", "_src", "_mods", "_mix", "_insts", "_carry")


def public_dict(o):
    return {k: v for k, v in o.__dict__.items() if k not in INTERNAL}


def member_write(o, a, v):
    """attribute write to the member of a symbolic family: member index i of the generic object g.
    Recorded on g; every instance made from g afterwards has it, those made before are brought
    up to date (or lose the attribute when their index may or may not be i)."""
    g, ix = o._src, o.__dict__.get("_mix")
    if g is None or ix is None or g._frozen:
        raise Unsupported("modification of a member of a symbolic family")
    g._touch()
    object.__setattr__(g, "_mods", g.__dict__.get("_mods", ()) + (("w", a, ix[1], v),))
    for w in g.__dict__.get("_insts", ()):
        r = w()
        if r is None:
            continue
        if r is o or r.__dict__["_mix"][1].eq(ix[1]):
            object.__setattr__(r, a, v)
        elif not eng.valid(r.__dict__["_mix"][1] != ix[1], quick=True):
            object.__setattr__(r, a, Stale())


class Stale:
    """an attribute which may have been changed through another name of the same member."""
    def __getattr__(self, k):
        raise Unsupported("attribute of a member changed under another name")
    __eq__ = __bool__ = __len__ = __iter__ = __getitem__ = lambda self, *a: Stale.__getattr__(self, "")
    __hash__ = None


def modified(r, g, i):
    """applies the writes recorded on the generic object to its instance i."""
    for m in g.__dict__.get("_mods", ()):
        if m[0] == "w":
            c, val = N.mkbool(m[2] == i), lambda: m[3]
        else:
            c, val = m[2](i), lambda: m[3](i)
        if c is True or c is not False and decide(c):
            r.__dict__[m[1]] = val()


# -------------------------------------------------------------------- lists
def clen(n):
    """native int of a length if constant, else None."""
    if isinstance(n, int):
        return n
    c = n.const()
    return int(c) if c is not None else None


class PList(Tracked):
    """Chunks: ('c', tuple of items) | ('s', n, getter)."""
    def __init__(self, items=()):
        self.chunks = (("c", tuple(items)),) if not isinstance(items, PList) else items.chunks
        self._born()

    @staticmethod
    def sym(n, getter, stamp=None, frozen=False):
        p = PList()
        cn = clen(n)
        if cn is not None and cn <= 64:
            p.chunks = (("c", tuple(getter(i) for i in range(cn))),)
        else:
            p.chunks = (("s", n, getter),)
        if stamp is not None:
            p._stamp = stamp
        p._frozen = frozen
        return p

    def _snapshot(self):
        return self.chunks

    def _restore(self, st):
        self.chunks = st

    @property
    def n(self):
        t = 0
        for c in self.chunks:
            t = t + (len(c[1]) if c[0] == "c" else c[1])
        return t

    def concrete(self):
        """tuple of items, or None."""
        if all(c[0] == "c" for c in self.chunks):
            out = ()
            for c in self.chunks:
                out += c[1]
            return out
        return None

    def get(self, i):
        """element at an index assumed in range."""
        ci = i if isinstance(i, int) else i.const()
        off = 0
        chunks = [c for c in self.chunks if not (c[0] == "c" and not c[1])]
        for pos, c in enumerate(chunks):
            ln = len(c[1]) if c[0] == "c" else c[1]
            last = pos == len(chunks) - 1
            rel = i - off
            if last or decide(rel < ln):
                if c[0] == "s":
                    return c[2](rel)
                crel = rel if isinstance(rel, int) else rel.const()
                if crel is not None:
                    if not 0 <= crel < len(c[1]):
                        undefined("element beyond the end of a list")
                    return c[1][int(crel)]
                return select(c[1], rel)
            off = off + ln
        undefined("element of an empty list")

    def norm_index(self, i):
        if isinstance(i, (SNum,)) and i.kind != "int":
            raise model_exc(TypeError("list indices must be integers"))
        if not isinstance(i, (int, SNum)):
            if hasattr(i, "item") and getattr(i, "shape", None) == ():
                return self.norm_index(i.item())
            raise model_exc(TypeError(f"list indices must be integers, not {type(i).__name__}"))
        n = self.n
        if bool(And(0 <= i, i < n)):
            return i
        if bool(And(i < 0, -n <= i)):
            return i + n
        raise model_exc(IndexError("list index out of range"))

    def __getitem__(self, i):
        if isinstance(i, slice):
            from .runtime import slice_bounds
            lo, ln, step = slice_bounds(i, self.n)
            cc = self.concrete()
            cl, cn = clen(lo), clen(ln)
            if cc is not None and cl is not None and cn is not None:
                return PList([cc[cl + j * step] for j in range(cn)])
            st = PList(self)
            return PList.sym(ln, lambda j: st.get(lo + j * step))
        return self.get(self.norm_index(i))

    def __setitem__(self, i, v):
        i = self.norm_index(i)
        cc = self.concrete()
        ci = i if isinstance(i, int) else i.const()
        self._touch()
        if cc is not None and ci is not None:
            l = list(cc)
            l[int(ci)] = v
            self.chunks = (("c", tuple(l)),)
            return
        old = PList(self)
        self.chunks = (("s", self.n, lambda j: v if decide(j == i) else old.get(j)),)

    def __delitem__(self, i):
        cc = self.concrete()
        ci = i if isinstance(i, int) else None
        if cc is None or ci is None:
            raise Unsupported("del on symbolic list")
        self._touch()
        l = list(cc)
        del l[ci]
        self.chunks = (("c", tuple(l)),)

    def append(self, v):
        self._touch()
        cs = self.chunks
        if cs and cs[-1][0] == "c":
            self.chunks = cs[:-1] + (("c", cs[-1][1] + (v,)),)
        else:
            self.chunks = cs + (("c", (v,)),)

    def extend(self, o):
        o = aslist(o)
        self._touch()
        self.chunks = self.chunks + o.chunks

    def insert(self, i, v):
        cc = self.concrete()
        self._touch()
        if cc is not None and isinstance(i, int):
            l = list(cc)
            l.insert(i, v)
            self.chunks = (("c", tuple(l)),)
        elif isinstance(i, int) and i == 0:
            self.chunks = (("c", (v,)),) + self.chunks
        else:
            raise Unsupported("insert")

    def pop(self, i=-1):
        v = self[i]
        cc = self.concrete()
        if cc is not None and isinstance(i, int):
            self._touch()
            l = list(cc)
            l.pop(i)
            self.chunks = (("c", tuple(l)),)
            return v
        if isinstance(i, int) and i == -1:
            self._touch()
            st = PList(self)
            self.chunks = (("s", st.n - 1, st.get),)
            return v
        raise Unsupported("pop")

    def remove(self, v):
        cc = self.concrete()
        if cc is None:
            raise Unsupported("remove")
        for j, x in enumerate(cc):
            if eq(x, v):
                self._touch()
                self.chunks = (("c", cc[:j] + cc[j + 1:]),)
                return
        raise model_exc(ValueError("list.remove(x): x not in list"))

    def reverse(self):
        r = reversed_list(self)
        self._touch()
        self.chunks = r.chunks

    def sort(self, key=None, reverse=False):
        from .runtime import psorted
        r = psorted(self, key=key, reverse=reverse)
        self._touch()
        self.chunks = r.chunks

    def copy(self):
        return PList(self)

    def clear(self):
        self._touch()
        self.chunks = ()

    def index(self, v):
        cc = self.concrete()
        if cc is not None:
            for j, x in enumerate(cc):
                if eq(x, v):
                    return j
            raise model_exc(ValueError("not in list"))
        j = self.find(v)
        if j is None:
            raise model_exc(ValueError("not in list"))
        return j

    def find(self, v):
        """index of the first element equal to v (fresh, contract) or None."""
        n = self.n
        j = N.sint("idx")
        present = True if known_index(self, v) is not None else self.member_cond(v)
        if present is None:
            present = N.sbool("isin")
        st = PList(self)
        if bool(present):
            eng.assume(And(0 <= j, j < n))
            eng.assume(scalar_eq(st.get(j), v))
            eng.forall(0, j, lambda q: Not(scalar_eq(st.get(q), v)))
            return j
        eng.forall(0, n, lambda q: Not(scalar_eq(st.get(q), v)))
        return None

    def count(self, v):
        cc = self.concrete()
        if cc is None:
            raise Unsupported("count")
        return sum(1 for x in cc if eq(x, v))

    def __contains__(self, v):
        cc = self.concrete()
        if cc is not None:
            if all(isinstance(x, (str, SStr, int, SNum, Fraction)) and isinstance(v, (str, SStr, int, SNum, Fraction)) for x in cc):
                return bool(Or(*[scalar_eq(x, v) for x in cc]))
            return any(bool(eq(x, v)) for x in cc)
        k = known_index(self, v)
        if k is not None:
            return True
        if locator(self) is not None:
            return decide(seq_member(self, v))
        c = self.member_cond(v)
        if c is not None:
            return decide(c)
        return self.find(v) is not None

    def member_cond(self, v):
        """membership through a choice function of the list: where(x) is a position of x
        if x is an element.  Only for lists of strings or numbers given by one term."""
        ch = [c for c in self.chunks if not (c[0] == "c" and not c[1])]
        if len(ch) != 1 or ch[0][0] != "s" or not isinstance(v, (str, SStr, int, SNum)) or isinstance(v, bool):
            return None
        st = PList(self)
        mark = len(eng.pc)
        kk = st.get(SNum.atom(z3.Int("probe!key"), "int"))
        if len(eng.pc) != mark or isinstance(kk, (str, SStr)) != isinstance(v, (str, SStr)) or not isinstance(kk, (str, SStr, int, SNum)) or isinstance(kk, bool):
            return None
        code = N.code if isinstance(v, (str, SStr)) else N.rz
        t, n = eng.sub(code(kk)), eng.sub(iz(self.n))
        if any(contains(x, b) for x in (t, n) for b in eng.binders):
            return None
        i = ("where", t.get_id(), n.get_id())
        if i not in eng.cache_inv:
            eng.cache_inv[i] = (len(eng.cache_inv), t, n)
        f = z3.Function(f"where!{eng.cache_inv[i][0]}", code(v).sort(), z3.IntSort())
        tag = ("where", eng.cache_inv[i][0])
        n = self.n
        ok = lambda x: And(0 <= SNum.atom(f(code(x)), "int"), SNum.atom(f(code(x)), "int") < n, scalar_eq(st.get(SNum.atom(f(code(x)), "int")), x))
        if not eng.has_tag(tag):
            eng.forall(0, n, lambda q: ok(st.get(q)), tag=tag, depth=0)
        return ok(v)

    def __iter__(self):
        cc = self.concrete()
        if cc is None:
            n = self.n
            raise Unsupported("native iteration over a symbolic list")
        return iter(cc)

    def __len__(self):
        c = clen(self.n)
        if c is None:
            raise Unsupported("native len of a symbolic list")
        return c

    def __bool__(self):
        return bool(self.n != 0)

    def __add__(self, o):
        if not isinstance(o, PList):
            return NotImplemented
        r = PList()
        r.chunks = self.chunks + o.chunks
        return r

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, k):
        cc = self.concrete()
        if cc is not None and isinstance(k, int):
            return PList(cc * k)
        if cc is not None and len(cc) == 1:
            return PList.sym(N.smax(num(k), num(0)), lambda j: cc[0])
        raise Unsupported("list repetition")
    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, PList):
            return False
        return deep_eq_branch(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r

    __hash__ = None

    def __repr__(self):
        return "PList(" + ", ".join(repr(c[1]) if c[0] == "c" else f"<{c[1]!r}>" for c in self.chunks) + ")"


def known_index(lst, v):
    """v is syntactically lst[j] for some in-range j: return j."""
    if len(lst.chunks) == 1 and lst.chunks[0][0] == "s" and isinstance(v, SStr):
        t = v.z
        if z3.is_app(t) and t.num_args() >= 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            j = SNum.atom(t.arg(t.num_args() - 1), "int") if t.arg(t.num_args() - 1).is_int() else None
            if j is not None:
                try:
                    w = lst.chunks[0][2](j)
                except (Unsupported, PathEnd):
                    return None
                if isinstance(w, SStr) and w.z.eq(t) and eng.valid(And(0 <= j, j < lst.n), quick=False):
                    return j
    return None


def reversed_list(l):
    cc = l.concrete()
    if cc is not None:
        return PList(cc[::-1])
    st = PList(l)
    n = st.n
    return PList.sym(n, lambda j: st.get(n - 1 - j))


def decide(c):
    return c if isinstance(c, bool) else bool(c)


def select(items, rel):
    """items[rel] with symbolic rel: merged when scalars, else branch."""
    if all(isinstance(x, (int, Fraction, SNum)) and not isinstance(x, bool) for x in items) or \
            all(isinstance(x, (str, SStr)) for x in items):
        r = items[-1]
        for j in range(len(items) - 2, -1, -1):
            r = Ite(rel == j, items[j], r)
        return r
    for j in range(len(items) - 1):
        if decide(rel == j):
            return items[j]
    return items[-1]


def aslist(o):
    from .runtime import to_seq
    return to_seq(o)


# --------------------------------------------------------------- dictionaries
class Family:
    """keys keyfn(0..n-1) distinct, values valfn; inv(key) -> candidate index."""
    pending = False

    def __init__(self, n, keyfn, valfn, inv=None, nest=None):
        self.n, self.keyfn, self.valfn = n, keyfn, valfn
        self._inv = inv
        self.nest = nest              # (pre, key2): entries given by part and position in the part
        self.depth = len(eng.pc)      # the keys are distinct given the path condition so far

    def inv(self, key):
        k = self.syntactic(key)
        if k is not None:
            return k
        if self._inv is None or self.canon is not None:
            self.mk_inv(key)
        return self._inv(key)

    canon = None

    def canonical_key(self):
        kk, n = self.keyfn(SNum.atom(z3.Int("probe!key"), "int")), iz(self.n)
        t = N.code(kk) if isinstance(kk, (str, SStr)) else N.rz(kk) if isinstance(kk, (int, SNum)) else None
        if t is None:
            return None
        t, n = eng.sub(t), eng.sub(n)
        if any(contains(x, b) for x in (t, n) for b in eng.binders):
            return None
        return (t.get_id(), n.get_id()), t, n

    def canonical(self):
        """families with the same keys share one inverse."""
        key = self.canonical_key()
        if key is None:
            return None
        i, t, n = key
        if i in eng.locators and eng.has_tag(("located", i)):
            return eng.locators[i][0]
        if i not in eng.cache_inv:
            eng.cache_inv[i] = (len(eng.cache_inv), t, n)
        return eng.cache_inv[i][0]

    def mk_inv(self, key):
        if self._inv is None:
            self.canon = self.canonical()
        if callable(self.canon):
            self._inv = self.canon
            return
        if self.canon is not None:
            tag = ("finv", self.canon)
            if isinstance(key, (str, SStr)):
                f, arg = z3.Function(f"finv!s{self.canon}", z3.IntSort(), z3.IntSort()), N.code
            elif isinstance(key, (int, SNum)) and (isinstance(key, int) or key.kind == "int"):
                f, arg = z3.Function(f"finv!i{self.canon}", z3.IntSort(), z3.IntSort()), iz
            else:
                f, arg = z3.Function(f"finv!r{self.canon}", z3.RealSort(), z3.IntSort()), N.rz
            self._inv = inv = lambda x: SNum.atom(f(arg(x)), "int")
            if not eng.has_tag(tag):
                eng.forall(0, self.n, lambda q: (inv(self.keyfn(q)) == q), tag=tag, depth=self.depth)
            return
        if isinstance(key, (str, SStr)):
            f = eng.fresh_fn("finv", [z3.IntSort()], z3.IntSort())
            self._inv = lambda x: SNum.atom(f(N.code(x)), "int")
        elif isinstance(key, (int, SNum)) and (isinstance(key, int) or key.kind == "int"):
            f = eng.fresh_fn("finv", [z3.IntSort()], z3.IntSort())
            self._inv = lambda x: SNum.atom(f(iz(x)), "int")
        else:
            f = eng.fresh_fn("finv", [z3.RealSort()], z3.IntSort())
            self._inv = lambda x: SNum.atom(f(N.rz(x)), "int")
        inv = self._inv
        eng.forall(0, self.n, lambda q: (inv(self.keyfn(q)) == q))

    def revalued(self, valfn):
        """other values under the same keys."""
        return Family(self.n, self.keyfn, valfn, self._inv, self.nest)

    def syntactic(self, key):
        if self.nest is not None:
            return self.in_part(key)
        probe = z3.Int("probe!key")
        kk = self.keyfn(SNum.atom(probe, "int"))
        if isinstance(kk, SStr) and isinstance(key, SStr):
            m = match1(kk.z, key.z, probe)
            return None if m is None else SNum.atom(m, "int")
        if isinstance(kk, (SNum,)) and isinstance(key, (int, SNum)):
            d = N.num(key) - kk
            # kk = probe + c
            if kk.p == N.p_add(N.p_from(probe), {m: c for m, c in kk.p.items() if m != ((probe.get_id(), 1),)}) \
                    and set(kk.p) <= {(), ((probe.get_id(), 1),)}:
                return num(key) - N.mk(N.p_const(kk.p.get((), 0)), "int")
            if kk.p and isinstance(key, SNum) and len(kk.p) == 1 and len(key.p) == 1:
                (m1, c1), = kk.p.items()
                (m2, c2), = key.p.items()
                if len(m1) == 1 and len(m2) == 1 and c1 == c2 and m1[0][1] == m2[0][1] == 1:
                    m = match1(N._atoms[m1[0][0]], N._atoms[m2[0][0]], probe)
                    return None if m is None else SNum.atom(m, "int")
        return None

    def in_part(self, key):
        pre, key2 = self.nest
        a, b = z3.Int("probe!part"), z3.Int("probe!at")
        kk = key2(SNum.atom(a, "int"), SNum.atom(b, "int"))
        if isinstance(kk, SStr) and isinstance(key, SStr):
            env = {}
            if match_all(kk.z, key.z, (a, b), env) and len(env) == 2:
                return pre.at(SNum.atom(env[a.get_id()], "int")) + SNum.atom(env[b.get_id()], "int")
        if isinstance(kk, SNum) and kk.kind == "int" and isinstance(key, (int, SNum)):
            one, size, c = {}, {}, {}                      # c + size * a + one * b
            for m, co in kk.p.items():
                rest = tuple(x for x in m if x[0] not in (a.get_id(), b.get_id()))
                if any(contains(N._atoms[x], y) for x, _ in rest for y in (a, b)):
                    return None
                if len(rest) == len(m):
                    c[m] = co
                elif (a.get_id(), 1) in m and len(rest) == len(m) - 1:
                    size[rest] = co
                elif m == ((b.get_id(), 1),):
                    one[()] = co
                else:
                    return None
            if one == {(): 1} and size:
                from .arrays import split_lin
                r, k = split_lin(num(key) - N.mk(c, "int"), N.mk(size, "int"))
                if eng.valid(And(0 <= k, k < pre.n, 0 <= r, r < pre.length(k))):
                    return pre.at(k) + r
        return None

    def subst(self, k, i):
        f = self
        inv, nest = self._inv, self.nest
        if nest is not None:
            nest = nest[0].subst(k, i), lambda *a: under(k, i, lambda: f.nest[1](*a))
        return Family(subst(self.n, k, i), lambda j: under(k, i, lambda: f.keyfn(j)),
                      lambda j: under(k, i, lambda: f.valfn(j)),
                      None if inv is None else (lambda x: under(k, i, lambda: inv(x))), nest)


def nested(pre, key2, val2):
    """a family of parts k = 0 .. pre.n - 1 with pre.length(k) entries each, one after the other: key2(k, r), val2(k, r)."""
    return Family(pre.at(pre.n), lambda q: key2(*pre.locate(q)), lambda q: val2(*pre.locate(q)), nest=(pre, key2))


def match_all(pat, t, probes, env):
    """t == pat with the probes replaced as in env, which is extended."""
    for p in probes:
        if pat.eq(p):
            if p.get_id() in env:
                return env[p.get_id()].eq(t)
            env[p.get_id()] = t
            return True
    if pat.eq(t):
        return True
    if not (z3.is_app(pat) and z3.is_app(t) and pat.decl().eq(t.decl()) and pat.num_args() == t.num_args() and pat.num_args()):
        return False
    return all(match_all(x, y, probes, env) for x, y in zip(pat.children(), t.children()))


def match1(pat, t, probe):
    """t == pat[probe := m] for one m."""
    if pat.eq(probe):
        return t
    if pat.get_id() == t.get_id():
        return None
    if z3.is_app(pat) and z3.is_app(t) and pat.decl().eq(t.decl()) and pat.num_args() == t.num_args():
        m = None
        for a, b in zip(pat.children(), t.children()):
            if a.eq(b):
                continue
            if a.eq(probe):
                x = b
            else:
                x = match1(a, b, probe)
                if x is None:
                    return None
            if m is not None and not m.eq(x):
                return None
            m = x
        return m
    return None


MISSING = object()


class PDict(Tracked):
    """layers (oldest first): ('i', key, value) | ('f', Family) | ('d', key)."""
    def __init__(self, items=(), **kw):
        self.layers = ()
        self._born()
        if isinstance(items, PDict):
            self.layers = items.layers
        else:
            if isinstance(items, dict):
                items = items.items()
            elif isinstance(items, PList):
                items = items.concrete()
                if items is None:
                    raise Unsupported("dict of a symbolic list")
            for k, v in items:
                self.layers = self._set(k, v)
        for k, v in kw.items():
            self.layers = self._set(k, v)

    @staticmethod
    def family(n, keyfn, valfn, inv=None, stamp=None, frozen=False):
        d = PDict()
        cn = clen(n)
        if cn is not None and cn <= 64:
            d.layers = tuple(("i", keyfn(j), valfn(j)) for j in range(cn))
        else:
            d.layers = (("f", Family(n, keyfn, valfn, inv)),)
        if stamp is not None:
            d._stamp = stamp
        d._frozen = frozen
        return d

    def _snapshot(self):
        return self.layers

    def _restore(self, st):
        self.layers = st

    def _set(self, k, v):
        """Persistent set, insertion order kept for existing keys."""
        ls = self.layers
        for p in range(len(ls) - 1, -1, -1):
            l = ls[p]
            if l[0] == "i":
                if decide(key_eq(l[1], k)):
                    return ls[:p] + (("i", l[1], v),) + ls[p + 1:]
            else:
                fam = l[1]
                if fam.pending:
                    continue
                j = fam.inv(k)
                if decide(And(0 <= j, j < fam.n, key_eq(fam.keyfn(j), k))):
                    def nv(q, fam=fam, j=j):
                        a = None
                        c = (q == j)
                        if c is True:
                            return v
                        if c is False:
                            return fam.valfn(q)
                        old = fam.valfn(q)
                        if is_scalar(old) and is_scalar(v):
                            return Ite(c, v, old)
                        return v if decide(c) else old
                    nf = fam.revalued(nv)
                    nf.upd = (fam, j, v)
                    return ls[:p] + (("f", nf),) + ls[p + 1:]
        return ls + (("i", k, v),)

    def lookup(self, k):
        for p in range(len(self.layers) - 1, -1, -1):
            l = self.layers[p]
            if l[0] == "i":
                if decide(key_eq(l[1], k)):
                    return l[2]
            else:
                fam = l[1]
                j = fam.inv(k)
                if decide(And(0 <= j, j < fam.n, key_eq(fam.keyfn(j), k))):
                    return fam.valfn(j)
        return MISSING

    def __getitem__(self, k):
        v = self.lookup(k)
        if v is MISSING:
            raise model_exc(KeyError(k))
        return v

    def __setitem__(self, k, v):
        if isinstance(k, PList) or isinstance(k, PDict):
            raise model_exc(TypeError("unhashable"))
        new = self._set(k, v)
        self._touch()
        self.layers = new

    def __delitem__(self, k):
        self.pop(k)

    def __contains__(self, k):
        return self.lookup(k) is not MISSING

    def get(self, k, d=None):
        v = self.lookup(k)
        return d if v is MISSING else v

    def setdefault(self, k, d=None):
        v = self.lookup(k)
        if v is MISSING:
            self[k] = d
            return d
        return v

    def pop(self, k, *d):
        for p in range(len(self.layers) - 1, -1, -1):
            l = self.layers[p]
            if l[0] == "i":
                if decide(key_eq(l[1], k)):
                    self._touch()
                    self.layers = self.layers[:p] + self.layers[p + 1:]
                    return l[2]
            else:
                fam = l[1]
                j = fam.inv(k)
                if decide(And(0 <= j, j < fam.n, key_eq(fam.keyfn(j), k))):
                    raise Unsupported("pop from a symbolic family")
        if d:
            return d[0]
        raise model_exc(KeyError(k))

    def update(self, o=(), **kw):
        if not isinstance(o, PDict):
            o = PDict(o)
        new = PDict(self)
        for l in o.layers:
            if l[0] == "i":
                new.layers = new._set(l[1], l[2])
            elif not new.layers:
                new.layers = (l,)
            else:
                raise Unsupported("update with a symbolic family")
        for k, v in kw.items():
            new.layers = new._set(k, v)
        self._touch()
        self.layers = new.layers

    def copy(self):
        return PDict(self)

    def clear(self):
        self._touch()
        self.layers = ()

    @property
    def n(self):
        t = 0
        for l in self.layers:
            t = t + (1 if l[0] == "i" else l[1].n)
        return t

    def _seq(self, f):
        r = PList()
        cs = ()
        for l in self.layers:
            if l[0] == "i":
                cs += (("c", (f(l[1], l[2]),)),)
            else:
                fam = l[1]
                cs += (("s", fam.n, lambda j, fam=fam: f(fam.keyfn(j), Lazy(lambda: fam.valfn(j)))),)
        out = PList()
        out.chunks = cs
        if all(c[0] == "c" for c in cs):
            out.chunks = (("c", tuple(x for c in cs for x in c[1])),)
        return out

    def keys(self):
        return self._seq(lambda k, v: k)

    def values(self):
        return self._seq(lambda k, v: v() if isinstance(v, Lazy) else v)

    def items(self):
        return self._seq(lambda k, v: (k, v() if isinstance(v, Lazy) else v))

    def concrete(self):
        if all(l[0] == "i" for l in self.layers):
            return [(l[1], l[2]) for l in self.layers]
        return None

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        c = clen(self.n)
        if c is None:
            raise Unsupported("native len of symbolic dict")
        return c

    def __bool__(self):
        return bool(self.n != 0)

    def __eq__(self, o):
        if not isinstance(o, PDict):
            return False
        return deep_eq_branch(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __repr__(self):
        return "PDict(" + ", ".join(f"{l[1]!r}: {l[2]!r}" if l[0] == "i" else f"<family {l[1].n!r}>" for l in self.layers) + ")"


class Lazy:
    def __init__(self, f):
        self.f = f

    def __call__(self):
        return self.f()


class Distinct:
    """the distinct values of a list, in some order: only good for making a set of them."""
    def __init__(self, of):
        self.of = of


class PSet(Tracked):
    """A set: concrete distinct items, or a membership description."""
    def __init__(self, items=()):
        self._born()
        self.items = ()
        self.sym = None          # (sorted distinct sequence PList) when symbolic
        self.member = None
        self.lift = None
        self.seqs = self.seqs2 = None        # the sequence(s) it is the set of, when symbolic
        if isinstance(items, PSet):
            self.items, self.sym, self.member = items.items, items.sym, items.member
            self.seqs, self.seqs2, self.lift = items.seqs, items.seqs2, items.lift
            return
        if isinstance(items, Distinct):
            items = items.of
        if isinstance(items, (PList, PDict)) or not isinstance(items, (tuple, list)):
            items = aslist(items)
            cc = items.concrete()
            if cc is None:
                st = PList(items)
                self.seqs = st
                self.member = lambda x: seq_member(st, x)
                return
            items = cc
        for x in items:
            self._add(x)

    def _add(self, x):
        for y in self.items:
            if decide(key_eq(x, y)):
                return
        self.items = self.items + (x,)

    def _snapshot(self):
        return (self.items, self.member, self.seqs, self.seqs2)

    def _restore(self, st):
        self.items, self.member, self.seqs, self.seqs2 = st

    def add(self, x):
        if self.member is not None:
            m = self.member
            self._touch()
            self.member = lambda y: Or(key_eq(x, y), m(y))
            self.seqs = self.seqs2 = None
            return
        self._touch()
        self._add(x)

    def update(self, o):
        r = self | (o if isinstance(o, PSet) else PSet(o))
        self._touch()
        self.items, self.member, self.seqs, self.seqs2 = r.items, r.member, r.seqs, r.seqs2

    def has(self, x):
        if self.member is not None:
            return self.member(x)
        return Or(*[key_eq(x, y) for y in self.items])

    def __contains__(self, x):
        return decide(self.has(x))

    @staticmethod
    def of(member):
        s = PSet()
        s.member = member
        return s

    def __or__(self, o):
        if self.member is None and o.member is None:
            r = PSet(self)
            for x in o.items:
                r._add(x)
            return r
        r = PSet.of(lambda x: Or(self.has(x), o.has(x)))
        r.grow = getattr(self, "grow", ()) + (o,)
        return r

    def union(self, *os):
        r = self
        for o in os:
            r = r | (o if isinstance(o, PSet) else PSet(o))
        q = PSet(r)
        if hasattr(r, "grow"):
            q.grow = r.grow
        return q

    def __and__(self, o):
        if self.member is None:
            r = PSet()
            r.items = tuple(x for x in self.items if decide(o.has(x)))
            return r
        if o.member is None:
            return o & self
        return PSet.of(lambda x: And(self.has(x), o.has(x)))

    def intersection(self, *os):
        r = self
        for o in os:
            r = r & (o if isinstance(o, PSet) else PSet(o))
        return PSet(r)

    def __sub__(self, o):
        if self.member is None:
            r = PSet()
            r.items = tuple(x for x in self.items if not decide(o.has(x)))
            return r
        return PSet.of(lambda x: And(self.has(x), Not(o.has(x))))

    def difference(self, *os):
        r = self
        for o in os:
            r = r - (o if isinstance(o, PSet) else PSet(o))
        return PSet(r)

    @property
    def n(self):
        if self.member is not None:
            raise Unsupported("size of a symbolic set")
        return len(self.items)

    def concrete(self):
        return None if self.member is not None else self.items

    def __iter__(self):
        if self.member is not None:
            raise Unsupported("iteration over a symbolic set")
        return iter(self.items)

    def __len__(self):
        return self.n

    def __bool__(self):
        return bool(self.n != 0)

    def __eq__(self, o):
        if not isinstance(o, PSet):
            return False
        if self.member is None and o.member is None:
            return len(self.items) == len(o.items) and all(x in o for x in self.items)
        raise Unsupported("comparison of symbolic sets")
    __hash__ = None


def locator(l):
    """position of a value in the list (if it is there), when the list comes with it."""
    ch = [c for c in l.chunks if not (c[0] == "c" and not c[1])]
    return getattr(ch[0][2], "locate", None) if len(ch) == 1 and ch[0][0] == "s" else None


def located(n, g, locate):
    """dictionaries whose keys are g(0), ..., g(n-1) find them with locate."""
    g.locate = locate
    fam = Family(n, g, None)
    key = fam.canonical_key()
    if key is not None:
        eng.locators[key[0]] = (locate, key)
        tag = ("located", key[0])
        if not eng.has_tag(tag):          # follows from what is known; marks the paths it holds on
            eng.forall(0, n, lambda q: locate(g(q)) == q, tag=tag, depth=fam.depth)


def seq_member(st, x):
    """exists j: st[j] == x, as a defined predicate."""
    cc = st.concrete()
    if cc is not None:
        return Or(*[key_eq(y, x) for y in cc])
    where = locator(st)
    if where is not None:
        i = where(x)
        return And(0 <= i, i < st.n, key_eq(st.get(i), x))
    p = N.sbool("mem")
    j = N.sint("memi")
    eng.assume(Implies(p, And(0 <= j, j < st.n, key_eq(st.get(j), x))))
    eng.forall(0, st.n, lambda q: Implies(key_eq(st.get(q), x), p))
    return p


# --------------------------------------------------------------------- equality
def is_scalar(x):
    return isinstance(x, (SNum, SBool, SStr, SComplex, int, float, str, Fraction, bool)) or hasattr(x, "_scalar_z")


class Opaque:
    """An immutable value about which nothing but identity is known."""
    __slots__ = ("z", "what")

    def __init__(self, z, what="value"):
        self.z, self.what = z, what

    def like(self, z):
        return type(self)(z, self.what)

    def __eq__(self, o):
        if isinstance(o, Opaque):
            return N.mkbool(self.z == o.z)
        return False

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        raise Unsupported("hash of opaque")

    def __bool__(self):
        raise Unsupported("truth of opaque")

    def __repr__(self):
        return f"Opaque({self.z})"


def opaque(base):
    return Opaque(eng.fresh(base, z3.IntSort()), base)


def key_eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And(*[key_eq(x, y) for x, y in zip(a, b)])
    return scalar_eq(a, b)


def scalar_eq(a, b):
    """equality without branching (scalars, None, tuples of scalars)."""
    if a is b:
        return True
    if a is None or b is None:
        return a is b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return key_eq(a, b)
    if isinstance(a, (str, SStr)) != isinstance(b, (str, SStr)):
        return False
    r = a == b
    if isinstance(r, (bool, SBool)):
        return r
    raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")


def eq(a, b):
    return decide(scalar_eq(a, b))


def deep_eq_branch(a, b):
    """Program-level == on containers (concrete structure only)."""
    if isinstance(a, PList):
        ca, cb = a.concrete(), b.concrete()
        if ca is None or cb is None:
            if decide(a.n != b.n):
                return False
            same = N.sbool("listeq")
            n = a.n
            sa, sb = PList(a), PList(b)
            if bool(same):
                eng.forall(0, n, lambda q: scalar_eq(sa.get(q), sb.get(q)))
                return True
            w = N.sint("diff")
            eng.assume(And(0 <= w, w < n))
            eng.assume(Not(scalar_eq(sa.get(w), sb.get(w))))
            return False
        return len(ca) == len(cb) and all(decide(gen_eq(x, y)) for x, y in zip(ca, cb))
    if isinstance(a, PDict):
        ca, cb = a.concrete(), b.concrete()
        if ca is None or cb is None:
            raise Unsupported("comparison of symbolic dictionaries")
        if len(ca) != len(cb):
            return False
        for k, v in ca:
            w = b.lookup(k)
            if w is MISSING or not decide(gen_eq(v, w)):
                return False
        return True
    raise Unsupported("deep_eq_branch")


def gen_eq(a, b):
    if isinstance(a, (PList, PDict, PSet)) or isinstance(b, (PList, PDict, PSet)):
        return a == b
    if is_scalar(a) or is_scalar(b) or a is None or b is None or isinstance(a, tuple):
        return scalar_eq(a, b)
    return a == b


# ------------------------------------------------------------------ substitution
_has = {}


def contains(t, k):
    key = (t.get_id(), k.get_id())
    r = _has.get(key)
    if r is None:
        eng.keep.append(t)
        r = False
        st, vis = [t], set()
        while st:
            x = st.pop()
            if x.get_id() in vis:
                continue
            vis.add(x.get_id())
            if x.eq(k):
                r = True
                break
            st.extend(x.children())
        _has[key] = r
    return r


@contextlib.contextmanager
def substituting(k, i):
    eng.subst_stack.append((k, i))
    try:
        yield
    finally:
        eng.subst_stack.pop()


def under(k, i, f):
    with substituting(k, i):
        v = f()
    return subst(v, k, i)


def psub(p, k, i):
    """polynomial substitution."""
    if not any(contains(N._atoms[a], k) for m in p for a, e in m):
        return p
    r = {}
    for m, c in p.items():
        t = N.p_const(c)
        for a, e in m:
            at = N._atoms[a]
            if contains(at, k):
                q = N.p_from(z3.substitute(at, (k, i)))
            else:
                q = N.p_atom(at)
            if e < 0:
                if not q:
                    undefined("division by zero")
                q = N.p_inv(q)
                e = -e
            for _ in range(e):
                t = N.p_mul(t, q)
        r = N.p_add(r, t)
    return r


SUBST = {}


def subst(v, k, i):
    """v with the generic index k replaced by the z3 term i."""
    if v is None or isinstance(v, (int, str, bool, Fraction, float)):
        return v
    if isinstance(v, SNum):
        nan = v.nan if v.nan is None or v.nan is True else subst(v.nan, k, i)
        return N.mk(psub(v.p, k, i), v.kind, None if nan is False else nan)
    if isinstance(v, SBool):
        return N.mkbool(z3.substitute(v.z, (k, i))) if contains(v.z, k) else v
    if isinstance(v, SStr):
        if v.parts:
            return N.str_concat([subst(x, k, i) for x in v.parts])
        return SStr(z3.substitute(v.z, (k, i))) if contains(v.z, k) else v
    if isinstance(v, SComplex):
        return SComplex(subst(v.re, k, i), subst(v.im, k, i))
    if isinstance(v, Opaque):
        return v.like(z3.substitute(v.z, (k, i))) if contains(v.z, k) else v
    if isinstance(v, tuple):
        return tuple(subst(x, k, i) for x in v)
    if isinstance(v, list):
        return [subst(x, k, i) for x in v]
    if isinstance(v, dict):
        return {a: subst(b, k, i) for a, b in v.items()}
    if isinstance(v, PList):
        r = PList()
        cs = []
        for c in v.chunks:
            if c[0] == "c":
                cs.append(("c", tuple(subst(x, k, i) for x in c[1])))
            else:
                g = c[2]
                cs.append(("s", subst(c[1], k, i), lambda j, g=g: under(k, i, lambda: g(j))))
        r.chunks = tuple(cs)
        return fam_copy(r, v)
    if isinstance(v, PDict):
        r = PDict()
        r.layers = tuple(("i", subst(l[1], k, i), subst(l[2], k, i)) if l[0] == "i" else ("f", l[1].subst(k, i))
                         for l in v.layers)
        return fam_copy(r, v)
    if isinstance(v, PSet):
        r = PSet()
        r.items = tuple(subst(x, k, i) for x in v.items)
        if v.member is not None:
            m = v.member
            r.member = lambda x: under(k, i, lambda: m(x))
        return fam_copy(r, v)
    for t, f in SUBST.items():
        if isinstance(v, t):
            return f(v, k, i)
    if isinstance(v, PObject):
        r = object.__new__(type(v))
        for a, b in v.__dict__.items():
            if a not in INTERNAL:
                r.__dict__[a] = subst(b, k, i)
        fam_copy(r, v)
        if v._src is None and not v._frozen:
            member(r, v, k, i)
        elif v.__dict__.get("_mix") is not None:
            member(r, v._src, v.__dict__["_mix"][0], z3.substitute(v.__dict__["_mix"][1], (k, i)))
        return r
    if isinstance(v, slice):
        return slice(subst(v.start, k, i), subst(v.stop, k, i), subst(v.step, k, i))
    return v


def member(r, g, k, i):
    """r is instance i of the generic object g."""
    r.__dict__["_mix"] = (k, i)
    if "_mods" in g.__dict__:
        modified(r, g, i)
    ws = g.__dict__.get("_insts")
    if ws is None:
        ws = []
        object.__setattr__(g, "_insts", ws)
    if len(ws) > 400:
        ws[:] = [w for w in ws if w() is not None]
    ws.append(weakref.ref(r))


def fam_copy(r, v):
    object.__setattr__(r, "_stamp", v._stamp)
    object.__setattr__(r, "_frozen", True)
    object.__setattr__(r, "_src", v._src if v._src is not None else v)
    return r


def mergeable(vals):
    """scalars of one kind."""
    return all(is_scalar(v) for v in vals) and (all(isinstance(v, (str, SStr)) for v in vals) or not any(isinstance(v, (str, SStr)) for v in vals))


# --------------------------------------------------- generic element / iteration
class PathFn:
    """The results of a body explored at a generic index k in [0, n)."""
    def __init__(self, k, paths, n=None):
        self.k, self.paths, self.n = k, paths, n
        self.depth = len(eng.pc)

    def cond(self, p):
        return z3.And(*p.decs) if p.decs else z3.BoolVal(True)

    def cond_at(self, p, i):
        return z3.substitute(self.cond(p), (self.k, i))

    def at(self, i, pick=lambda p: p.value):
        i = iz(i)
        ps = self.paths
        k = self.k
        if len(ps) > 1:
            vals, left = [], []
            for p in ps:
                try:
                    vals.append(under(k, i, lambda p=p: pick(p)))
                    left.append(p)
                except Undefined:
                    if decide(N.mkbool(self.cond_at(p, i))):
                        raise
            ps = left
            if ps and mergeable(vals):
                for p in reversed(ps):
                    self.facts(p, i)
                return self.merged(ps, i, vals)
            if ps and all(type(v) is tuple for v in vals) and len({len(v) for v in vals}) == 1 and all(mergeable(c) for c in zip(*vals)):
                for p in reversed(ps):
                    self.facts(p, i)
                return tuple(self.merged(ps, i, c) for c in zip(*vals))
            for p in ps[:-1]:
                if decide(N.mkbool(self.cond_at(p, i))):
                    self.facts(p, i)
                    return under(k, i, lambda: pick(p))
        if not ps:
            raise PathEnd()
        p = ps[-1]
        self.facts(p, i)
        return under(k, i, lambda: pick(p))

    def merged(self, ps, i, vals):
        r = None
        for p, v in reversed(list(zip(ps, vals))):
            r = v if r is None else Ite(N.mkbool(self.cond_at(p, i)), v, r)
        return r

    def facts(self, p, i):
        """facts established on path p, instantiated at i (guarded by range and path)."""
        k = self.k
        if not p.asms and not p.qfacts:
            return
        g = [self.cond_at(p, i), i >= 0]
        if self.n is not None:
            g.append(i < iz(self.n))
        guard = z3.And(*g)
        for a in p.asms:
            if contains(a, k):
                e = z3.substitute(a, (k, i))
                eng.assume(z3.Implies(guard, e))
        for q in p.qfacts:
            if q.tag is not None and q.depth <= self.depth:
                if not eng.has_tag(q.tag):
                    eng.assume_q(q)
                continue
            r = q.subst([(k, i)]).guarded(guard)
            eng.assume_q(r)


    def lift(self, n=None):
        """the facts of the paths, for every index."""
        k, hi = self.k, iz(self.n if n is None else n)
        for p in self.paths:
            c = self.cond(p)
            for a in p.asms:
                if contains(a, k):
                    eng.assume_q(QFact(k, z3.IntVal(0), hi, z3.Implies(c, a)))
            for q in p.qfacts:
                if q.multi or q.more or (q.tag is not None and q.depth <= self.depth):
                    continue
                hs = heads_of(q.body, (k, q.k))
                if hs:
                    eng.assume_q(QFact.several([(k, z3.IntVal(0), hi), (q.k, q.lo, q.hi)], z3.Implies(c, q.body), hs))


def prefix(n, length):
    """the running total of lengths len(0), len(1), ... len(n - 1)."""
    probe = z3.Int("probe!len")
    c = num(length(SNum.atom(probe, "int")))
    if not contains(eng.sub(iz(c)), probe):
        return Even(n, c)
    return Prefix(n, length)


class Even:
    """parts of the same length."""
    def __init__(self, n, size):
        self.n, self.size = n, size
        self.length = lambda k: size

    def at(self, k):
        return k * self.size

    def locate(self, q):
        from .arrays import split_lin
        r, k = split_lin(num(q), self.size)
        return k, r

    def subst(self, k, i):
        return Even(subst(self.n, k, i), subst(self.size, k, i))


class Prefix:
    """start(k) is the sum of the lengths below k.  Totals of the same lengths are the same function."""
    def subst(self, k, i):
        return self

    def __init__(self, n, length):
        probe = z3.Int("probe!len")
        t, nz = eng.sub(iz(num(length(SNum.atom(probe, "int"))))), eng.sub(iz(n))
        if any(contains(x, b) for x in (t, nz) for b in eng.binders):
            raise Unsupported("lengths that depend on an enclosing loop")
        self.n, self.length = n, length
        i = ("start", t.get_id(), nz.get_id())
        if i not in eng.cache_inv:
            eng.cache_inv[i] = (len(eng.cache_inv), t, nz)
        name = f"start!{eng.cache_inv[i][0]}"
        self.fn = z3.Function(name, z3.IntSort(), z3.IntSort())
        self.seg = z3.Function("in" + name, z3.IntSort(), z3.IntSort())
        fn, seg = self.fn, self.seg
        ln = lambda x: z3.substitute(t, (probe, x))

        def one(a):
            x = a.arg(0)
            return [z3.Implies(0 <= x, a >= 0), z3.Implies(x == 0, a == 0)]

        def two(a, b):
            x, y = a.arg(0), b.arg(0)
            out = []
            for (a, x), (b, y) in (((a, x), (b, y)), ((b, y), (a, x))):
                out += [z3.Implies(z3.And(0 <= x, x < y, y <= nz), a + ln(x) <= b), z3.Implies(z3.And(0 <= x, x + 1 == y, y <= nz), b == a + ln(x))]
            return out

        def of(a):
            q = a.arg(0)
            return [z3.Implies(z3.And(0 <= q, q < fn(nz)), z3.And(0 <= a, a < nz, fn(a) <= q, q < fn(a) + ln(a)))]
        eng.fn_axioms[name] = one
        eng.fn_axioms["in" + name] = of
        core.PAIR_AXIOMS[name] = two

    def at(self, k):
        return 0 if isinstance(k, int) and k == 0 else SNum.atom(self.fn(iz(k)), "int")

    def locate(self, q):
        """(k, r): position q is the r-th of part k."""
        q = num(q)
        for m in q.p:
            if q.p[m] == 1 and len(m) == 1 and m[0][1] == 1:
                a = N._atoms[m[0][0]]
                if z3.is_app(a) and a.decl().eq(self.fn):
                    k = SNum.atom(a.arg(0), "int")
                    r = q - self.at(k)
                    if eng.valid(And(0 <= k, k < self.n, 0 <= r, r < self.length(k))):
                        return k, r
        k = SNum.atom(self.seg(iz(q)), "int")
        return k, q - self.at(k)


def generic(n, fn, allow_writes=False):
    """Explore fn at a generic index k in [0, n)."""
    k = z3.Int(eng.name("k"))
    ks = SNum.atom(k, "int")

    def run():
        eng.assume(And(0 <= ks, ks < n))
        mark, st = len(eng.trail), eng.stampno
        if not eng_feasible():
            raise PathEnd()
        r = fn(ks)
        if not allow_writes:
            for o, s in eng.trail[mark:]:
                if o._stamp <= st:
                    raise Unsupported("write to an outer object in a comprehension")
        return r
    eng.binders.append(k)
    eng.starts(k, eng.stampno)
    try:
        paths = eng.explore(run)
    finally:
        eng.binders.pop()
    return PathFn(k, paths, n)


def eng_feasible():
    return eng.check() != "unsat"


def gen_map(n, fn):
    """List of fn(i) for i < n, fn effect free; exceptions fork to the first failing index."""
    cn = clen(n)
    if cn is not None:
        return PList([fn(i) for i in range(cn)])
    pf = generic(n, fn)
    bad = [p for p in pf.paths if p.kind == "exc"]
    good = [p for p in pf.paths if p.kind == "ret"]
    if bad:
        exits(n, pf, good, lambda m: fn(m))
    if not good:
        # every iteration raises (or no iteration at all)
        return PList()
    g = PathFn(pf.k, good, n)
    return PList.sym(n, g.at)


def normal_fact(pf, good):
    """z3 condition over pf.k that the iteration ends normally."""
    if len(good) == len(pf.paths):
        return z3.BoolVal(True)
    bad = [p for p in pf.paths if p not in good]
    return z3.And(*[z3.Not(pf.cond(p)) for p in bad])


def exits(n, pf, good, rerun):
    """Either no iteration leaves abnormally (assumed from here on), or one does:
    then rerun it at its index."""
    ok = N.sbool("allnormal")
    nf = normal_fact(pf, good)
    if bool(ok):
        eng.assume_q(QFact(pf.k, z3.IntVal(0), iz(n), nf))
        return None
    m = N.sint("exit")
    eng.assume(And(0 <= m, m < n))
    eng.assume_q(QFact(pf.k, z3.IntVal(0), iz(m), nf))
    eng.assume(z3.Not(z3.substitute(nf, (pf.k, iz(m)))))
    if not eng_feasible():
        raise PathEnd()
    rerun(m)
    raise PathEnd()
