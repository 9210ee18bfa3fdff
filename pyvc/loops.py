"""Loop rule: the body is executed once at a generic index; the effects observed on
variables and on the heap give closed forms of the state after k iterations
(templates), which are then re-checked by executing the body from that state."""
import z3
from .core import eng, Unsupported, PathEnd, model_exc, QFact
from . import num as N
from .num import SNum, SBool, SStr, SComplex, num, iz, And, Or, Not, Implies, Ite
from . import values as V
from .values import PList, PDict, PSet, PObject, Tracked, Poison, UNBOUND, Opaque, clen, decide, PathFn, Family
from . import arrays as A
from .runtime import Ret, BRK, to_seq


class _Done:
    pass


DONE = _Done()


class NotForced(BaseException):
    pass


def for_loop(it, body, acc, names, carried, live, where):
    s = PList(to_seq(it))
    cc = s.concrete()
    if cc is not None:
        for x in cc:
            r = body(x)
            if r is BRK or isinstance(r, Ret):
                return r
        return None
    n = s.n
    if decide(n <= 0):
        return None
    # peel the first iteration when a carried variable starts as None
    start = 0
    if any(acc(v, False, None) is None for v in carried):
        r = body(s.get(0))
        if r is BRK or isinstance(r, Ret):
            return r
        start = 1
        if decide(n <= 1):
            return None
    L = Loop(lambda k: body(s.get(k + start)), n - start, acc, names, carried, live, where)
    if eng.loop_invariants is not None and len(s.chunks) == 1:
        L.elem = lambda k: s.chunks[0][2](num(k) + start)
    return L.run()


def while_loop(test, body, acc, names, carried, live, where):
    # native execution as long as every decision is forced
    def native(limit):
        for _ in range(limit):
            if not test():
                return DONE
            r = body()
            if r is BRK or isinstance(r, Ret):
                return r
        raise NotForced()
    saved = {v: acc(v, False, None) for v in names}
    old = eng.forced_only
    ok = True
    eng.forced_only = True
    try:
        eng.explore(lambda: native(80))
    except NotForced:
        ok = False
    finally:
        eng.forced_only = old
        for v, x in saved.items():
            acc(v, True, x)
    if ok:
        r = native(80)
        return None if r is DONE else r

    def step(k):
        if not test():
            return DONE
        return body()
    if any(acc(v, False, None) is None for v in carried):
        raise Unsupported("while loop with a None carried variable")
    L = Loop(step, None, acc, names, carried, live, where)
    return L.run()


class Result:
    __slots__ = ("sig", "vals", "heap", "writes", "attrs", "cells")


def flat_and(z):
    if z3.is_and(z):
        out = []
        for c in z.children():
            out += flat_and(c)
        return out
    return [z]


class Tmpl:
    """state of one location after k iterations"""
    kind = "?"


class Const(Tmpl):
    kind = "const"

    def __init__(self, v):
        self.v = v

    def at(self, k):
        return self.v


class Affine(Tmpl):
    kind = "affine"

    def __init__(self, init, step):
        self.init, self.step = init, step

    def at(self, k):
        return self.init + k * self.step


class Func(Tmpl):
    """after k iterations: a function of k (which happens to give the initial value at 0)."""
    kind = "func"

    def __init__(self, init, k, val):
        self.init, self.k, self.val = init, k, val

    def at(self, k):
        return V.subst(self.val, self.k, iz(num(k) - 1))


class Geom(Tmpl):
    kind = "geom"

    def __init__(self, init, ratio):
        self.init, self.ratio = init, ratio

    def at(self, k):
        p = N.ipower(self.ratio, k)
        return num(self.init) * (N.power(num(self.ratio), num(k)) if p is None else p)


class Rec(Tmpl):
    kind = "rec"

    def __init__(self, init):
        self.init = init
        self.invs = None
        self.given = None
        if isinstance(init, (bool, SBool)):
            self.wrap = lambda t: SBool(t)
            sort, self.un = z3.BoolSort(), N.bz
        elif isinstance(init, (int, SNum)) and num(init).kind == "int":
            self.wrap = lambda t: SNum.atom(t, "int")
            sort, self.un = z3.IntSort(), iz
        elif N.isnum(init):
            self.wrap = lambda t: SNum.atom(t, "real")
            sort, self.un = z3.RealSort(), N.rz
        elif isinstance(init, (str, SStr)):
            self.wrap = lambda t: SStr(t)
            sort, self.un = z3.IntSort(), N.code
        elif isinstance(init, Opaque):
            self.wrap = init.like
            sort, self.un = z3.IntSort(), lambda o: o.z
        else:
            raise Unsupported(f"loop-carried {type(init).__name__}")
        self.sort = sort
        self.fn = eng.fresh_fn("X", [z3.IntSort()], sort)

    def at(self, k):
        return self.wrap(self.fn(iz(k)))

    def real(self):
        """int start, real afterwards"""
        r = Rec(num(self.init) * N.const(1))
        return r


class RecArr(Tmpl):
    """an array assigned anew by every iteration from the previous one."""
    kind = "recarr"

    def __init__(self, init):
        self.init = init
        self.c0 = init.freeze_cell()
        if init.dtype.kind not in "fi":
            raise Unsupported("loop-carried array of this type")
        self.sort = z3.IntSort() if init.dtype.kind == "i" else z3.RealSort()
        self.un = iz if init.dtype.kind == "i" else N.rz
        nd = len(init.shape)
        self.fn = eng.fresh_fn("XA", [z3.IntSort()] * (nd + 1), self.sort)
        self.ix = [z3.Int(eng.name("xi")) for _ in range(nd)]
        self.dims = {}           # axis -> template of its length
        self.grown = None        # an axis whose length was seen to change
        self.given = None

    def shape(self, k):
        return tuple(self.dims[d].at(k) if d in self.dims else n for d, n in enumerate(self.init.shape))

    def at(self, k):
        if isinstance(k, int) and k == 0:
            return self.init
        kd = "int" if self.sort == z3.IntSort() else "real"
        f, k0 = self.fn, iz(k)
        r = self.given = A.NDArray.make(self.shape(k), self.init.dtype, lambda *ix: SNum.atom(f(k0, *map(iz, ix)), kd))
        self.given_cell = r.buf.cell
        return r

    def step(self, x):
        """the cell of the next array at arbitrary indices."""
        if self.given.buf.cell is not self.given_cell:
            raise Unsupported("loop-carried array written in place")
        if not isinstance(x, A.NDArray) or x.dtype != self.init.dtype or len(x.shape) != len(self.init.shape):
            raise Unsupported("loop-carried array changes type")
        for d, (a, b) in enumerate(zip(x.shape, self.init.shape)):
            if d not in self.dims and not (a is b or eng.valid(N.bz(num(a) == b), quick=False)):
                self.grown = d
                return None
        n0 = len(eng.pc)
        v = x.at(*[SNum.atom(i, "int") for i in self.ix])
        if len(eng.pc) != n0 or not isinstance(v, (int, SNum)) and not N.isnum(v):
            raise Unsupported("loop-carried array with conditional cells")
        if isinstance(v, SNum) and v.nan is not None:
            raise Unsupported("loop-carried array with nan")
        return self.un(v)

    def ranges(self, k):
        return [(i, z3.IntVal(0), iz(s)) for i, s in zip(self.ix, self.init.shape if k is None else self.shape(k))]


def lens_of(x):
    """(tag, number, from number, supplied invariant) of a value carried as a number."""
    if isinstance(x, PObject):
        mix, g = x.__dict__.get("_mix"), x._src
        if mix is None or g is None or "_carry" not in g.__dict__:
            return None
        k = mix[0]
        return g, SNum.atom(mix[1], "int"), lambda n: V.subst(g, k, iz(n)), g.__dict__["_carry"]
    if hasattr(x, "_lens"):
        return type(x), x._lens()[0], x._lens()[1], None
    return None


def cands(t, v, k):
    """candidate invariants of the value v after k iterations."""
    if t.kind == "rec" and isinstance(v, Opaque):
        inv = getattr(v.what, "invariant", None)
        return inv(v, k) if inv is not None else []
    if t.kind != "rec" or not N.isnum(v):
        return []
    if t.given is not None:
        return t.given(v, k)
    i = t.init
    return [v > 0, v >= 1, v >= 0, v >= i, v <= i]


def fold_of(chunks, name):
    """a ghost fold over the parts of a list; None when it is not known."""
    acc, step = eng.folds[name]
    start = 0
    for p in range(len(chunks) - 1, -1, -1):
        if chunks[p][0] == "s":
            d = getattr(chunks[p][2], "_folds", {}).get(name)
            if d is None or len(d[0]) != p or any(a is not b for a, b in zip(d[0], chunks)):
                return None
            acc, start = d[1], p + 1
            break
    for c in chunks[start:]:
        for e in c[1]:
            try:
                acc = step(acc, e)
            except TypeError:       # not a list of numbers
                return None
    return acc


class State:
    """what a contract's loop invariants may speak of: the numbers carried, the ghost folds
    of the lists built, the values of the sequence iterated over (elem), iterations done (k)."""
    def __init__(self, loop, k, val):
        self.k, self.elem, self.outer = k, loop.elem, list(eng.loop_states)      # outer: states of the enclosing loops
        self.nums, self.folds = {}, {}
        for v, t in loop.tm.items():
            if t.kind not in ("rec", "affine", "geom", "func"):
                continue
            x = val(v, t)
            if v in loop.ghost:
                key, f = loop.ghost[v]
                self.folds.setdefault(key, {})[f] = x
            elif N.isnum(x):
                self.nums[v] = num(x)
        self.start = {v: num(loop.init[v]) for v in self.nums if N.isnum(loop.init[v])}


class ListT(Tmpl):
    kind = "list"
    ghost = ()

    def __init__(self, base, per=1):
        self.base = base          # chunks
        self.per = per            # appended per iteration, or "cond"
        self.elt = None           # getter of appended element j
        self.count = None         # for cond: count(k)

    def at(self, k):
        e = self.elt or bad("element appended by an earlier iteration")
        if self.per == "cond":
            c = self.count(k) if self.count else cond_count(k)
        elif self.per == "nest":
            c = self.count(k) if self.count else some_count()
        else:
            c = k * self.per if self.per != 1 else k
        if isinstance(c, int) and c == 0:
            return self.base
        if self.ghost:
            fs = {f: (self.base, t.at(k)) for f, t in self.ghost.items()}
            if self.elt is not None:
                e = lambda i, g=self.elt: g(i)
            e._folds = fs
        return self.base + (("s", c, e),)


def sub_prefix(pre, k):
    """the first k parts."""
    r = object.__new__(type(pre))
    r.__dict__.update(pre.__dict__)
    r.n = k
    return r


def some_count():
    c = N.sint("ccount")
    eng.assume(c >= 0)
    return c


def cond_count(k):
    c = N.sint("ccount")
    eng.assume(And(0 <= c, c <= k))
    return c


class DictT(Tmpl):
    kind = "dict"

    def __init__(self, base):
        self.base = base
        self.keyfn = self.valfn = None
        self.upd = None           # (layer position, offset) for updates of a family
        self.some = False         # some iterations add an entry
        self.nest = None          # iterations add several entries each
        self.count = None         # then: count(k)

    def at(self, k):
        if self.upd is not None:
            p, off = self.upd
            fam = self.base[p][1]
            val = self.valfn or bad("dictionary value set by an earlier iteration")

            def nv(q):
                j = q - off
                c = And(0 <= j, j < k)
                if isinstance(c, bool):
                    return val(j) if c else fam.valfn(q)
                return A.merge(c, lambda: val(j), lambda: fam.valfn(q))
            return self.base[:p] + (("f", fam.revalued(nv)),) + self.base[p + 1:]
        key = self.keyfn or bad("dictionary key set by an earlier iteration")
        val = self.valfn or bad("dictionary value set by an earlier iteration")
        if isinstance(k, int) and k == 0:
            return self.base
        if self.nest:
            if self.nest is not True:
                pre, parts = self.nest
                return self.base + (("f", V.nested(pre if k is pre.n else sub_prefix(pre, k), *parts)),)
            k = some_count()
        if self.some:
            k = self.count(k) if self.count else cond_count(k)
        fam = Family(k, key, val)
        fam.pending = self.keyfn is None      # keys still unknown: shown distinct when the loop is summarised
        return self.base + (("f", fam),)


class ModsT(Tmpl):
    """attribute writes to members of a family: iteration k writes member k + offset."""
    kind = "mods"

    def __init__(self, base):
        self.base, self.spec, self.vals, self.entry = base, None, None, len(base)

    def at(self, k):
        out = self.base
        for n, (a, off) in enumerate(self.spec or ()):
            val = (lambda i, n=n, off=off: self.vals(num(SNum.atom(i, "int") - off), n)) if self.vals else (lambda i: V.Stale())
            out += (("l", a, lambda i, off=off: And(0 <= SNum.atom(i, "int") - off, SNum.atom(i, "int") - off < k), val),)
        self.entry = len(out)
        return out

    def own(self, st, k):
        ws = st["_mods"][self.entry:]
        out = []
        for w in ws:
            d = SNum.atom(w[2], "int") - k
            if w[0] != "w" or mentions(d, k, k):
                raise Unsupported("member of a family modified at a varying index")
            out.append((w[1], d))
        return out, ws

    def observe(self, st, k):
        spec, _ = self.own(st, k)
        if self.spec is None:
            self.spec = spec
            return True
        if [(a, num(d).p) for a, d in spec] != [(a, num(d).p) for a, d in self.spec]:
            raise Unsupported("members of a family modified differently from iteration to iteration")
        return False

    def fill(self, finals, gp, k):
        if any(f is None for f in finals):
            raise Unsupported("member of a family modified in some iterations only")
        ws = {id(p): self.own(f, k)[1] for p, f in zip(gp.paths, finals)}
        self.vals = lambda j, n: gp.at(j, lambda p: ws[id(p)][n][3])


class EventsT(Tmpl):
    """file system events: each iteration writes the same number of files."""
    kind = "events"

    def __init__(self, base):
        self.base, self.spec, self.vals, self.entry = base, None, None, len(base)

    def at(self, k):
        out = self.base
        if self.spec is not None:
            kk, evs = self.spec
            for n, (e, p) in enumerate(evs):
                content = (lambda j, n=n: self.vals(j, n)) if self.vals else bad("contents of a file written by an earlier iteration")
                out += (("each", (k, e, lambda j, p=p: V.subst(p, kk, iz(j))), content),)
        self.entry = len(out)
        return out

    def own(self, st):
        ws = st[self.entry:]
        if any(e != "write" for e, p, c in ws):
            raise Unsupported("loop changes the file system other than by writing files")
        return ws

    def observe(self, st, k):
        ws = self.own(st)
        kz = iz(k)
        if self.spec is None:
            self.spec = (kz, [(e, p) for e, p, c in ws])
            return True
        kk, evs = self.spec
        if len(evs) != len(ws) or any(not z3.substitute(p.code, (kk, kz)).eq(q.code) for (e, p), (f, q, c) in zip(evs, ws)):
            raise Unsupported("loop writes files that depend on earlier iterations")
        return False

    def fill(self, finals, gp, k):
        if any(f is None for f in finals):
            raise Unsupported("files written in some iterations only")
        ws = {id(p): self.own(f) for p, f in zip(gp.paths, finals)}
        self.vals = lambda j, n: gp.at(j, lambda p: ws[id(p)][n][2])


class BufT(Tmpl):
    kind = "buf"

    def __init__(self, base):
        self.base = base          # cell
        self.cond = self.val = None    # (bi, k) -> bool ; bi -> value
        self.axis = None          # iteration k writes at positions k + offset on this axis only
        self.guess = self.scatter = False
        self.hits = None          # (j, bi) -> does iteration j write the cell

    def at(self, k):
        if self.cond is None:
            f = bad("array element written by an earlier iteration")

            def cell(bi):
                if self.scatter:
                    j = N.sint("earlier")
                    if eng.valid(Not(And(0 <= j, j < k, self.hits(j, bi))), quick=False):
                        return self.base(bi)
                    f()
                if self.axis is None:     # discovery only: the body is executed again once the positions are known
                    self.guess = True
                    return self.base(bi)
                ax, c0, e = self.axis
                j = (bi[ax] - c0) // e
                earlier = And(0 <= j, j < k)
                if earlier is False or not isinstance(earlier, bool) and eng.valid(Not(earlier), quick=True):
                    return self.base(bi)
                f()
            return cell
        base, cond, val = self.base, self.cond, self.val

        def cell(bi):
            c = cond(bi, k)
            if c is False:
                return base(bi)
            if self.scatter:
                return A.merge(c, lambda: val(bi, k), lambda: base(bi))
            if c is True:
                return val(bi)
            return A.merge(c, lambda: val(bi), lambda: base(bi))
        return cell


class SetT(Tmpl):
    kind = "set"

    def __init__(self, base):
        self.base = base
        self.member = None
        self.inner = None

    def at(self, k):
        m = self.member
        b = self.base
        if m is None:
            f = bad("set element added by an earlier iteration")
            s = PSet.of(lambda x: f())
        else:
            s = PSet.of(lambda x: Or(b.has(x), m(x, k)))
            if self.inner is not None and b.member is None and not b.items:
                s.seqs2 = (k, self.inner)
                s.lift = lambda: self.lift(k)
        return s


class AttrT(Tmpl):
    kind = "attr"

    def __init__(self, base):
        self.base = base


def bad(why):
    def f(*a):
        raise Unsupported("use of a loop-carried " + why)
    return f


class Loop:
    def __init__(self, step, n, acc, names, carried, live, where):
        self.step, self.n, self.acc, self.names, self.where = step, n, acc, names, where
        self.carried = list(carried)
        self.live = live
        self.temps = [v for v in names if v not in carried]
        self.lenses = {}          # instants and durations are carried as numbers, members of a family as their index
        self.allcands = {}        # supplied invariants of variables carried as an index
        for v in carried:
            x = acc(v, False, None)
            m = lens_of(x)
            if m is not None:
                self.lenses[v] = m
                self.allcands[v] = m[3]
        if self.lenses:
            self.acc = self.focus(acc)
        self.init = {v: self.acc(v, False, None) for v in names}
        self.stamp0 = eng.stampno
        self.others = {v: Poison(f"variable {v} of another iteration") for v in self.temps}
        self.tm = {}              # carried variable -> template
        self.heap = {}            # id -> (obj, template)
        self.sets = []
        self.lengths = {}         # name of a virtual variable -> (array variable, axis)
        self.ghost = {}           # name of a virtual variable -> (list, fold)
        self.noghost = set()
        self.dropped = set()      # supplied invariants that are not inductive
        self.elem = None

    def focus(self, acc):
        def through(v, write, x):
            if v not in self.lenses:
                return acc(v, write, x)
            tag, _, make, _ = self.lenses[v]
            if write:
                return acc(v, True, make(x) if N.isnum(x) else x)
            x = acc(v, False, None)
            m = lens_of(x)
            if m is not None and m[0] is tag:
                return m[1]
            if N.isnum(x) or m is not None or isinstance(x, PObject):
                raise Unsupported(f"loop-carried variable {v} changes type")
            return x
        return through

    # -- state -------------------------------------------------------------
    def set_state(self, k, final=False):
        for v in self.carried:
            if v in self.lengths or v in self.ghost:
                continue
            t = self.tm[v]
            if t.kind == "list":
                l = type(self.init[v])()
                l.chunks = t.at(k)
                self.acc(v, True, l)
            else:
                self.acc(v, True, t.at(k))
        if not final:
            for v in self.temps:
                self.acc(v, True, self.others[v])
        for o, t in self.heap.values():
            if t.kind == "mods":
                o._touch()
                object.__setattr__(o, "_mods", t.at(k))
                continue
            if t.kind == "attr":
                o._touch()
                for a, (old, after) in t.base.items():
                    if final:
                        o.__dict__[a] = after(k)
                    else:
                        o.__dict__[a] = Poison(f"attribute {a} set by another iteration")
                continue
            self.put(o, t.at(k))

    def put(self, o, st):
        if isinstance(o, PSet):
            o._touch()
            o.items, o.member, o.seqs, o.seqs2, o.lift = st.items, st.member, st.seqs, st.seqs2, st.lift
        elif isinstance(o, PList):
            o._touch()
            o.chunks = st
        elif isinstance(o, PDict):
            o._touch()
            o.layers = st
        elif isinstance(o, A.Buf):
            o._touch()
            o.cell = st
        else:                 # the file system
            o._touch()
            o.events = st

    def restore_names(self):
        for v, x in self.init.items():
            if v not in self.lengths and v not in self.ghost:
                self.acc(v, True, x)

    # -- one exploration of the body -------------------------------------------
    def explore(self):
        k = z3.Int(eng.name("k"))
        ks = SNum.atom(k, "int")
        n = self.n

        def run():
            eng.assume(ks >= 0 if n is None else And(0 <= ks, ks < n))
            if not V.eng_feasible():
                raise PathEnd()
            self.set_state(ks)
            for v, t in self.tm.items():
                if t.kind == "rec":
                    for c in self.active(t, t.at(ks), ks):
                        eng.assume(c)
            for c in self.supplied(ks).values():
                eng.assume(c)
            mark = len(eng.trail)
            eng.wlogs.append({})
            eng.loop_states.append(self.state(ks))
            try:
                sig = self.step(ks)
                wl = eng.wlogs[-1]
            finally:
                eng.wlogs.pop()
                eng.loop_states.pop()
            r = Result()
            r.sig = sig
            r.vals = {v: self.acc(v, False, None) for v in self.names}
            for v, (a, d) in self.lengths.items():
                r.vals[v] = r.vals[a].shape[d]
            r.cells = {v: t.step(r.vals[v]) for v, t in self.tm.items() if t.kind == "recarr"}
            r.heap = {}
            for o, s in eng.trail[mark:]:
                if o._stamp <= self.stamp0 and id(o) not in r.heap:
                    r.heap[id(o)] = (o, dict(o.__dict__) if isinstance(o, PObject) else o._snapshot())
            for w, (key, f) in self.ghost.items():
                if key in self.heap:
                    st = r.heap[key][1] if key in r.heap else None
                else:
                    st = r.vals[key].chunks
                r.vals[w] = self.tm[w].at(ks) if st is None else fold_of(st, f)
            r.writes = wl
            return r
        eng.binders.append(k)
        eng.starts(k, self.stamp0)
        try:
            paths = eng.explore(run)
        finally:
            eng.binders.pop()
            self.restore_names()
        return PathFn(k, paths, n)

    def active(self, t, v, k):
        cs = cands(t, v, k)
        if t.invs is None:
            t.invs = set(range(len(cs)))
        return [c for j, c in enumerate(cs) if j in t.invs]

    def state(self, k):
        return State(self, k, lambda v, t: t.at(k)) if eng.loop_invariants is not None else None

    def supplied(self, k, val=None):
        """the contract's invariants after k iterations that are still candidates."""
        if eng.loop_invariants is None:
            return {}
        st = State(self, k, (lambda v, t: t.at(k)) if val is None else val)
        return {j: c for j, c in eng.loop_invariants(st).items() if j not in self.dropped}

    def ghosts(self, good):
        """a ghost variable for every fold over every list the loop builds."""
        changed = False
        for w in list(self.ghost):
            if any(p.value.vals.get(w, 0) is None for p in good):
                key, f = self.ghost.pop(w)
                self.noghost.add(w)
                self.carried.remove(w)
                del self.tm[w]
                t = self.heap[key][1] if key in self.heap else self.tm[key]
                t.ghost.pop(f)
                changed = True
        ls = [(i, t) for i, (o, t) in self.heap.items() if t.kind == "list"] + [(v, self.tm[v]) for v in self.carried if self.tm[v].kind == "list"]
        for key, t in ls:
            for f in eng.folds:
                w = f"{key}@{f}"
                if w in self.ghost or w in self.noghost:
                    continue
                i = fold_of(t.base, f)
                if i is None:
                    self.noghost.add(w)
                    continue
                self.ghost[w] = (key, f)
                self.init[w] = i
                g = self.tm[w] = Rec(i)
                g.noclosed = True
                self.carried.append(w)
                t.ghost = dict(t.ghost) if t.ghost else {}
                t.ghost[f] = g
                changed = True
        return changed

    def joint(self, pf, good):
        """drop supplied invariants that are not inductive."""
        k = SNum.atom(pf.k, "int")
        cs = self.supplied(k)
        if not cs:
            return False
        n0 = len(self.dropped)
        first = self.supplied(num(0), lambda v, t: self.init[v])
        for j in cs:
            c = first[j]
            if not (c is True or not isinstance(c, bool) and eng.valid(c, quick=False)):
                self.dropped.add(j)
        for p in good:
            nxt = self.supplied(k + 1, lambda v, t: p.value.vals[v])
            for j, c in nxt.items():
                if c is True:
                    continue
                if isinstance(c, bool):
                    self.dropped.add(j)
                    continue
                if not eng.valid(SBool(z3.Implies(z3.And(pf.cond(p), *p.asms), c.z)), quick=False):
                    self.dropped.add(j)
        return len(self.dropped) > n0

    # -- main --------------------------------------------------------------
    def run(self):
        for _ in range(5):
            try:
                return self.run_once()
            except Redo:
                self.restore_names()
                for t in list(self.tm.values()) + [t for _, t in self.heap.values()]:
                    for a in ("elt", "count", "keyfn", "valfn", "cond", "val", "member"):
                        if hasattr(t, a):
                            setattr(t, a, None)
                    if getattr(t, "nest", None):
                        t.nest = True
        raise Unsupported("loop templates do not stabilise: " + self.where)

    def run_once(self):
        for v in self.carried:
            if v in self.tm:
                continue
            i = self.init[v]
            if isinstance(i, Poison):
                self.tm[v] = Const(i)
            elif isinstance(i, PList):
                t = self.tm[v] = ListT(i.chunks)
                t.per = 0
            elif isinstance(i, PSet):
                self.tm[v] = SetT(i)
            elif isinstance(i, (PDict, PObject, A.NDArray, tuple)) or i is None or callable(i):
                self.tm[v] = Const(i)
            else:
                self.tm[v] = Rec(i)
                self.tm[v].given = self.allcands.get(v)
        pf = None
        for attempt in range(8 if eng.loop_invariants is None else 20):
            pf = self.explore()
            good = [p for p in pf.paths if p.kind == "ret" and p.value.sig is None]
            if not self.update(pf, good):
                break
        else:
            raise Unsupported("loop templates do not stabilise: " + self.where)
        kept = set()             # variables no complete iteration assigns
        for v in list(self.temps):
            un = [p.value.vals[v] is self.others[v] for p in good]
            if un and all(un):
                kept.add(v)
            elif any(un) and v in self.live and not isinstance(self.init[v], Poison):
                self.temps.remove(v)
                self.carried.append(v)
                raise Redo()
        self.k = pf.k
        gp = PathFn(pf.k, good, self.n)
        self.fill(gp)
        hi_all = self.n
        bad_ = [p for p in pf.paths if p not in good]
        if self.n is not None:
            allok = True
            if bad_:
                allok = bool(N.sbool("allnormal"))
            if allok:
                if not good:
                    raise PathEnd()
                self.facts(gp, pf, good, iz(self.n))
                self.set_state(self.n, final=True)
                self.last(gp, self.n - 1, kept)
                self.log_writes(self.n)
                return None
        m = N.sint("exit")
        eng.assume(m >= 0 if self.n is None else And(0 <= m, m < self.n))
        self.facts(gp, pf, good, iz(m))
        if bad_:
            nf = V.normal_fact(pf, good)
            eng.assume(z3.Not(z3.substitute(nf, (pf.k, iz(m)))))
        if not V.eng_feasible():
            raise PathEnd()
        self.set_state(m)
        for v in kept:
            self.acc(v, True, self.init[v])
        for o, t in self.heap.values():       # attributes: as the last complete iteration left them
            if t.kind == "attr":
                some = decide(num(m) >= 1)
                for a, (old, after) in t.base.items():
                    if some:
                        o.__dict__[a] = after(m)
                    elif old is UNBOUND:
                        o.__dict__.pop(a, None)
                    else:
                        o.__dict__[a] = old
        eng.loop_states.append(self.state(m))
        try:
            sig = self.step(m)
        finally:
            eng.loop_states.pop()
        if sig is None:
            raise PathEnd()
        if self.n is None:
            eng.trust("termination of " + self.where.split(":", 1)[1].rsplit(":", 1)[0])
        return None if sig is DONE else sig

    def last(self, gp, k, kept):
        for v in self.temps:
            if v in kept:
                self.acc(v, True, self.init[v])
                continue
            if v not in self.live:
                self.acc(v, True, Poison(f"variable {v} after its loop"))
                continue
            vals = [p.value.vals[v] for p in gp.paths]
            if any(isinstance(x, Poison) for x in vals):
                self.acc(v, True, Poison(f"variable {v} assigned in some iterations"))
            else:
                self.acc(v, True, gp.at(k, lambda p: p.value.vals[v]))

    def facts(self, gp, pf, good, hi):
        """forall j in [0, hi): iteration j is normal, and the recurrences."""
        k = pf.k
        eng.assume_q(QFact(k, z3.IntVal(0), hi, V.normal_fact(pf, good)))
        for v, t in self.tm.items():
            if t.kind == "recarr":
                h0, h1 = t.fn(z3.IntVal(0), *t.ix), t.fn(k + 1, *t.ix)
                n0 = len(eng.pc)
                init = t.un(t.c0(*[SNum.atom(i, "int") for i in t.ix]))
                if len(eng.pc) != n0:
                    raise Unsupported("loop-carried array with conditional cells")
                eng.assume_q(QFact.several(t.ranges(None), h0 == init, [h0]))
                for p in good:
                    eng.assume_q(QFact.several([(k, z3.IntVal(0), hi)] + t.ranges(SNum.atom(k + 1, "int")), z3.Implies(gp.cond(p), h1 == p.value.cells[v]), [h1]))
                continue
            if t.kind != "rec":
                continue
            eng.assume(V.SBool(t.fn(z3.IntVal(0)) == t.un(t.init)))
            parts = []
            for p in good:
                c = gp.cond(p)
                parts.append(z3.Implies(c, t.fn(k + 1) == t.un(p.value.vals[v])))
                for a in p.asms:
                    if V.contains(a, k):
                        parts.append(z3.Implies(c, a))
            eng.assume_q(QFact(k, z3.IntVal(0), hi, z3.And(*parts)))
            for c in self.active(t, t.at(SNum.atom(k, "int")), SNum.atom(k, "int")):
                if not isinstance(c, bool):
                    eng.assume_q(QFact(k, z3.IntVal(0), hi + 1, c.z))
                    eng.assume(V.SBool(z3.substitute(c.z, (k, hi))))

        for c in self.supplied(SNum.atom(k, "int")).values():
            if not isinstance(c, bool):
                eng.assume_q(QFact(k, z3.IntVal(0), hi + 1, c.z))
                eng.assume(V.SBool(z3.substitute(c.z, (k, hi))))

    # -- template inference ----------------------------------------------------
    def update(self, pf, good):
        """Adjust templates to the observed effects; True if anything changed."""
        changed = False
        self.k0 = pf.k
        k = SNum.atom(pf.k, "int")
        for v in list(self.carried):
            t = self.tm[v]
            if t.kind == "recarr" and t.grown is not None:
                w = f"{v}#{t.grown}"
                self.lengths[w] = (v, t.grown)
                self.init[w] = t.init.shape[t.grown]
                self.carried.append(w)
                t.dims[t.grown] = self.tm[w] = Rec(num(self.init[w]))
                t.grown = None
                changed = True
                continue
        if changed:
            return True
        for v in self.carried:
            t = self.tm[v]
            for p in good:
                x = p.value.vals[v]
                nt = self.var_step(v, t, x, k, p)
                if nt is not t:
                    self.retemplate(v, nt)
                    t = nt
                    changed = True
        # closed forms: all normal paths agree on X(k+1) - X(k) (or ratio)
        if not changed:
            for v in self.carried:
                t = self.tm[v]
                if t.kind == "rec" and good and N.isnum(self.init[v]) and not getattr(t, "noclosed", False):
                    nt = self.closed(t, [p.value.vals[v] for p in good], k)
                    if nt is not None:
                        self.retemplate(v, nt)
                        changed = True
        if not changed:
            for v in self.carried:
                t = self.tm[v]
                if t.kind == "rec" and t.invs:
                    if self.houdini(t, v, pf, good):
                        changed = True
        if eng.folds and self.ghosts(good):
            changed = True
        if not changed and eng.loop_invariants is not None and self.joint(pf, good):
            changed = True
        for p in good:
            for i, (o, st) in p.value.heap.items():
                if i not in self.heap:
                    self.heap[i] = (o, self.new_heap(o, st))
                    changed = True
                t = self.heap[i][1]
                if t.kind in ("mods", "events"):
                    if t.observe(st, k):
                        changed = True
                if t.kind == "attr":
                    for a in st:
                        if a in V.INTERNAL:
                            continue
                        cur = o.__dict__.get(a, UNBOUND)
                        if a not in t.base and st[a] is not cur:
                            t.base[a] = (cur, None)
                            changed = True
        return changed

    def retemplate(self, v, t):
        self.tm[v] = t
        if v in self.lengths:
            a, d = self.lengths[v]
            self.tm[a].dims[d] = t

    def var_step(self, v, t, x, k, p):
        if t.kind == "const":
            if x is t.v or isinstance(t.v, Poison):
                return t
            if isinstance(t.v, tuple) and isinstance(x, tuple) and len(x) == len(t.v) and all(a is b for a, b in zip(x, t.v)):
                return t
            if isinstance(t.v, A.NDArray) and isinstance(x, A.NDArray):
                return RecArr(t.v)
            raise Unsupported(f"loop-carried variable {v} ({type(t.v).__name__}) in {self.where}")
        if t.kind in ("affine", "geom", "func"):
            if not N.isnum(x) or not num(num(x) - t.at(k + 1)).p == {}:
                r = Rec(num(t.init) * N.const(1) if t.kind == "geom" and num(t.ratio).kind == "real" or num(x).kind == "real" else t.init)
                r.noclosed = True
                return r
            return t
        if t.kind == "rec":
            if isinstance(t.init, (int, SNum)) and t.sort == z3.IntSort() and isinstance(x, SNum) and x.kind == "real":
                return t.real()
            if isinstance(x, Poison):
                raise Unsupported("poison")
            return t
        if t.kind == "list":
            if not isinstance(x, PList):
                raise Unsupported("loop-carried list changes type")
            return t
        if t.kind == "set":
            return t
        return t

    def closed(self, t, vals, k):
        x = t.at(k)
        d = None
        for v in vals:
            e = num(v) - x
            if d is None:
                d = e
            elif not (num(d).p == num(e).p):
                d = None
                break
        if d is not None and not mentions(d, x, k):
            return Affine(t.init, d)
        q = None
        for v in vals:
            try:
                e = N.p_ratio(num(v).p, num(x).p)
            except Exception:
                e = None
            if e is None:
                q = None
                break
            e = e if isinstance(e, dict) else N.p_const(e)
            e = SNum(e, "int" if num(v).kind == num(x).kind == "int" and N.p_is_intform(e) else "real")
            if q is None:
                q = e
            elif q.p != e.p:
                q = None
                break
        if q is not None and not mentions(q, x, k):
            return Geom(t.init, q)
        v = num(vals[0])
        if all(num(y).p == v.p for y in vals) and not any(u.kind == "rec" and mentions(v, u.at(k), num(0)) for u in self.tm.values()):
            if self.k0 is not None and num(num(t.init) - V.subst(v, self.k0, z3.IntVal(-1))).p == {}:
                return Func(t.init, self.k0, v)
        return None

    def houdini(self, t, v, pf, good):
        """drop candidate invariants that are not inductive."""
        dropped = False
        init = cands(t, num(t.init) if N.isnum(t.init) else t.init, 0)
        after = SNum.atom(pf.k, "int") + 1
        for j in list(t.invs):
            ok = init[j] is True or (not isinstance(init[j], bool) and eng.valid(init[j]))
            if ok:
                for p in good:
                    nxt = cands(t, p.value.vals[v], after)[j]
                    if isinstance(nxt, bool):
                        if not nxt:
                            ok = False
                        continue
                    g = z3.Implies(z3.And(pf.cond(p), *[a for a in p.asms]), nxt.z)
                    if not eng.valid(SBool(g), quick=t.given is None):
                        ok = False
                        break
            if not ok:
                t.invs.discard(j)
                dropped = True
        return dropped

    def new_heap(self, o, st):
        if isinstance(o, PList):
            t = ListT(o.chunks)
            return t
        if isinstance(o, PDict):
            return DictT(o.layers)
        if isinstance(o, A.Buf):
            return BufT(o.cell)
        if isinstance(o, PSet):
            s = PSet(o)
            return SetT(s)
        if isinstance(o, PObject):
            if st.get("_mods", ()) is not o.__dict__.get("_mods", ()):
                return ModsT(o.__dict__.get("_mods", ()))
            return AttrT({})
        if hasattr(o, "events"):
            return EventsT(o.events)
        raise Unsupported(f"loop modifies a {type(o).__name__}")

    # -- definitive contents of the templates ------------------------------------
    def fill(self, gp):
        k = SNum.atom(gp.k, "int")
        for v in self.carried:
            t = self.tm[v]
            if t.kind == "list":
                self.fill_list(t, gp, [p.value.vals[v].chunks for p in gp.paths], k)
            elif t.kind == "set":
                self.fill_set(t, gp, lambda p, v=v: p.value.vals[v])
        for i, (o, t) in self.heap.items():
            if t.kind == "list":
                self.fill_list(t, gp, [p.value.heap[i][1] if i in p.value.heap else t.at(k) for p in gp.paths], k)
            elif t.kind == "dict":
                self.fill_dict(t, i, gp, k)
            elif t.kind == "buf":
                self.fill_buf(t, i, o, gp, k)
            elif t.kind in ("mods", "events"):
                t.fill([p.value.heap[i][1] if i in p.value.heap else None for p in gp.paths], gp, k)
            elif t.kind == "attr":
                for a in list(t.base):
                    old = t.base[a][0]
                    if any(i not in p.value.heap or isinstance(p.value.heap[i][1].get(a), Poison) for p in gp.paths):
                        raise Unsupported("attribute assigned in some iterations only")
                    t.base[a] = (old, lambda n, a=a, i=i: gp.at(n - 1, lambda p: p.value.heap[i][1][a]))
            elif t.kind == "set":
                raise Unsupported("loop adds to a set")

    def fill_list(self, t, gp, finals, k):
        entry = t.at(k)
        app = [appended(entry, f, t.base) for f in finals]
        if any(a is None for a in app):
            raise Unsupported("loop modifies a list other than by appending")
        if t.per == "nest" or any(c[0] != "c" for a in app for c in a):
            return self.fill_nest(t, gp, app)
        app = [sum((c[1] for c in a), ()) for a in app]
        lens = {len(a) for a in app}
        pick = {id(p): a for p, a in zip(gp.paths, app)}
        if not lens:
            t.per = 0
            return
        if len(lens) == 1:
            c, = lens
            if c != t.per:
                if c == 0:
                    t.per = 0
                    return
                t.per = c
                # entry length was different: re-explore
                raise Redo()
            if c == 1:
                t.elt = lambda j: gp.at(j, lambda p: pick[id(p)][0])
            elif c > 1:
                def elt(j):
                    if isinstance(j, int) or True:
                        q, r = j // c, j % c
                        for e in range(c - 1):
                            if decide(r == e):
                                return gp.at(q, lambda p: pick[id(p)][e])
                        return gp.at(q, lambda p: pick[id(p)][c - 1])
                t.elt = elt
            return
        if lens == {0, 1}:
            if t.per != "cond":
                t.per = "cond"
                raise Redo()
            yes = [p for p in gp.paths if len(pick[id(p)]) == 1]
            PathFn(gp.k, [p for p in gp.paths if p not in yes], gp.n).lift()
            cond = lambda i: Or(*[N.mkbool(gp.cond_at(p, iz(i))) for p in yes])
            if self.n is None:
                raise Unsupported("conditional append in a while loop")
            sel = A.MaskSel(A.NDArray.make((self.n,), A.BOOL, cond))
            yp = PathFn(gp.k, yes, gp.n)
            eng.forall(0, sel.count, lambda j: yp.at(sel.pos(j), lambda p: True))
            t.elt = lambda j: yp.at(sel.pos(j), lambda p: pick[id(p)][0])
            n = self.n

            def count(kk):
                if kk is n:
                    return sel.count
                return cond_count(kk)
            t.count = count
            return
        raise Unsupported("loop appends a varying number of items")

    def fill_nest(self, t, gp, app):
        """iterations append several items each, as many as they please."""
        if t.per != "nest":
            t.per = "nest"
            raise Redo()
        if self.n is None:
            raise Unsupported("while loop appends a varying number of items")
        parts = {}
        for p, a in zip(gp.paths, app):
            parts[id(p)] = l = PList()
            l.chunks = a
        length = lambda j: gp.at(j, lambda p: num(parts[id(p)].n))
        pre = V.prefix(self.n, length)
        t.count = pre.at

        def elt(q):
            j, r = pre.locate(q)
            return gp.at(j, lambda p: parts[id(p)].get(r))
        t.elt = elt

    def fill_set(self, t, gp, pick):
        """carried set grown by union with per-iteration sets."""
        grow = {}
        for p in gp.paths:
            s = pick(p)
            g = getattr(s, "grow", None)
            if g is None:
                raise Unsupported("loop-carried set")
            grow[id(p)] = g
        seqs = self

        def member(x, k):
            w = eng.fresh("setw", z3.IntSort())
            b = N.sbool("inset")
            ws = SNum.atom(w, "int")
            inn = lambda j: gp.at(j, lambda p: Or(*[o.has(x) for o in grow[id(p)]]))
            eng.assume(Implies(b, And(0 <= ws, ws < k, inn(ws))))
            eng.forall(0, k, lambda q: Implies(inn(q), b))
            return b
        t.member = member
        gs = [grow[id(p)] for p in gp.paths]
        if gs and all(len(g) == 1 and g[0].seqs is not None for g in gs):
            t.inner = lambda j: PList.sym(gp.at(j, lambda p: grow[id(p)][0].seqs.n), lambda q: gp.at(j, lambda p: grow[id(p)][0].seqs.get(q)))
            t.lift = gp.lift

    def fill_dict(self, t, i, gp, k):
        sets = {}
        ref = None
        for p in gp.paths:
            nb = len(t.base)
            if i not in p.value.heap or t.some and len(p.value.heap[i][1]) == nb + 1:
                if t.upd is not None:
                    raise Unsupported("dictionary set in some iterations only")
                if not t.some:
                    t.some = True
                    raise Redo()
                continue
            f = p.value.heap[i][1]
            if len(f) == nb + 2 and f[nb][0] == f[nb + 1][0] == "f" and f[:nb] == t.base:      # several entries
                if not t.nest:
                    t.nest = True
                    raise Redo()
                sets[id(p)] = f[nb + 1][1]
                continue
            if t.nest:
                raise Unsupported("loop sets several dictionary entries in some iterations only")
            # appended entry?
            if len(f) == nb + 2 and f[nb][0] == "f" and f[nb + 1][0] == "i" and f[:nb] == t.base:
                sets[id(p)] = ("new", f[nb + 1][1], f[nb + 1][2])
            elif t.upd is None and len(f) in (nb, nb + 1) and any(x[0] == "f" and getattr(x[1], "upd", None) for x in f[:nb]):
                q, = [j for j, x in enumerate(f[:nb]) if x[0] == "f" and getattr(x[1], "upd", None)]
                base, j, v = f[q][1].upd
                d = num(j) - k
                if mentions(d, k, k):
                    raise Unsupported("dictionary update at a varying key")
                t.upd = (q, d)
                raise Redo()
            elif t.upd is not None and len(f) == nb and f[t.upd[0]][0] == "f" and getattr(f[t.upd[0]][1], "upd", None):
                base, j, v = f[t.upd[0]][1].upd
                d = num(j) - k
                if num(d).p != num(t.upd[1]).p:
                    raise Unsupported("dictionary update at a varying key")
                sets[id(p)] = ("upd", None, v)
            else:
                raise Unsupported("loop modifies a dictionary in an unsupported way")
        if not gp.paths:
            return
        if t.some:
            from .runtime import distinct_keys
            yes = [p for p in gp.paths if id(p) in sets]
            if t.upd is not None or self.n is None:
                raise Unsupported("dictionary set in some iterations only")
            if not yes:
                return
            PathFn(gp.k, [p for p in gp.paths if p not in yes], gp.n).lift()
            cond = lambda i: Or(*[N.mkbool(gp.cond_at(p, iz(i))) for p in yes])
            sel = A.MaskSel(A.NDArray.make((self.n,), A.BOOL, cond))
            yp = PathFn(gp.k, yes, gp.n)
            eng.forall(0, sel.count, lambda j: yp.at(sel.pos(j), lambda p: True))
            if not distinct_keys(self.n, lambda j: yp.at(j, lambda p: sets[id(p)][1])):
                raise Unsupported("loop sets possibly repeated dictionary keys")
            t.keyfn = lambda j: yp.at(sel.pos(j), lambda p: sets[id(p)][1])
            t.valfn = lambda j: yp.at(sel.pos(j), lambda p: sets[id(p)][2])
            n = self.n
            t.count = lambda kk: sel.count if kk is n else cond_count(kk)
            return
        if t.nest:
            if self.n is None:
                raise Unsupported("while loop sets several dictionary entries")
            pre = V.prefix(self.n, lambda j: gp.at(j, lambda p: num(sets[id(p)].n)))
            key = lambda j, r: gp.at(j, lambda p: sets[id(p)].keyfn(r))
            val = lambda j, r: gp.at(j, lambda p: sets[id(p)].valfn(r))
            a, b, c, d = [N.sint("dk") for _ in range(4)]
            inside = lambda x, y: And(0 <= x, x < self.n, 0 <= y, y < pre.length(x))
            same = V.key_eq(key(a, b), key(c, d))
            if not eng.valid(Implies(And(inside(a, b), inside(c, d), same), And(a == c, b == d)), quick=False):
                raise Unsupported("loop sets possibly repeated dictionary keys")
            t.nest = pre, (key, val)
            return
        if t.upd is None:
            from .runtime import distinct_keys
            t.keyfn = lambda j: gp.at(j, lambda p: sets[id(p)][1])
            t.valfn = lambda j: gp.at(j, lambda p: sets[id(p)][2])
            if not distinct_keys(self.n if self.n is not None else num(10) ** 0 * N.sint("many"), t.keyfn):
                raise Unsupported("loop sets possibly repeated dictionary keys")
        else:
            t.valfn = lambda j: gp.at(j, lambda p: sets[id(p)][2])

    def fill_buf(self, t, i, o, gp, k):
        per = {}
        offs = set()
        nd = len(o.shape)
        for p in gp.paths:
            ws = p.value.writes.get(i, [])
            per[id(p)] = ws
            for (buf, cond, val) in ws:
                b = [z3.Int(eng.name("bi")) for _ in range(nd)]
                bi = tuple(SNum.atom(x, "int") for x in b)
                c = cond(bi)
                off = None if t.scatter else affine_axis(c, b, gp.k)
                if off is None:
                    if not t.scatter:
                        t.scatter = True
                        t.hits = lambda j, bi: gp.at(j, lambda p, bi=apart(bi, gp.k): hit_value(per)[0](p, bi))
                        for q in gp.paths:
                            per[id(q)] = q.value.writes.get(i, [])
                        if t.guess:
                            raise Redo()
                    continue
                offs.add((off[0], *(tuple(sorted(num(x).p.items(), key=str)) for x in off[1:])))
                t_off = off
        if t.scatter:
            if t.guess:
                b = tuple(SNum.atom(z3.Int(eng.name("bi")), "int") for _ in range(nd))
                j = N.sint("again")
                was, now = t.hits(j, b), gp.at(j, lambda p: hit_value(per)[0](p, b))
                if not eng.valid(Implies(And(0 <= j, j < self.n), now == was), quick=False):
                    raise Unsupported("array positions written depend on its contents")
            return self.fill_scatter(t, i, gp, per)
        if not offs:
            raise Unsupported("array modified without a logged write")
        if len({a[0] for a in offs}) != 1 or len(offs) != 1:
            raise Unsupported("array written at several offsets in one iteration")
        axis, c0, size = t_off
        if t.axis is None:
            t.axis = t_off
            if t.guess:
                raise Redo()
        elif t.axis[0] != axis or any(num(x).p != num(y).p for x, y in zip(t.axis[1:], t_off[1:])):
            raise Unsupported("array positions written depend on its contents")

        hit, value = hit_value(per)

        def cond(bi, kk):
            bi = apart(bi, gp.k)
            j = (bi[axis] - c0) // size
            rng = And(0 <= j, j < kk)
            if rng is False:
                return False
            h = gp.at(j, lambda p: hit(p, bi))
            return And(rng, h)

        def val(bi):
            bi = apart(bi, gp.k)
            j = (bi[axis] - c0) // size
            return gp.at(j, lambda p: value(p, bi))
        t.cond, t.val = cond, val

    def fill_scatter(self, t, i, gp, per):
        """positions written vary freely: the last iteration to write a cell decides it."""
        if self.n is None:
            raise Unsupported("array written at varying positions in a while loop")
        hit, value = hit_value(per)
        last = eng.fresh_fn("lastw", [z3.IntSort()] * (len(self.heap[i][0].shape) + 1), z3.IntSort())

        def cond(bi, kk):
            bi = apart(bi, gp.k)
            w = SNum.atom(last(*map(iz, bi), iz(kk)), "int")
            eng.assume(And(-1 <= w, w < kk))
            h = lambda q: gp.at(q, lambda p: hit(p, bi))
            eng.assume(Implies(w >= 0, h(w)))
            eng.forall(w + 1, kk, lambda q: Not(h(q)))
            return w >= 0

        def val(bi, kk):
            bi = apart(bi, gp.k)
            w = SNum.atom(last(*map(iz, bi), iz(kk)), "int")
            return gp.at(w, lambda p: value(p, bi))
        t.cond, t.val = cond, val

    def log_writes(self, n):
        if not eng.wlogs:
            return
        for i, (o, t) in self.heap.items():
            if t.kind == "buf":
                eng.wlogs[-1].setdefault(i, []).append((o, lambda bi, t=t: t.cond(bi, n), lambda bi, t=t: t.val(bi, n) if t.scatter else t.val(bi)))


def apart(bi, k):
    """the same positions, not mentioning the generic index of the loop they are looked up in."""
    r = []
    for x in bi:
        if not isinstance(x, SNum) or not V.contains(x.z, k):
            r.append(x)
            continue
        z = eng.sub(x.z)
        if V.contains(z, k):
            c = N.sint("pos")
            eng.assume(c == x)
            r.append(c)
        else:
            r.append(SNum.atom(z, "int"))
    return tuple(r)


def hit_value(per):
    """whether and what a path writes to a cell."""
    def hit(p, bi):
        r = False
        for (buf, cond, val) in per[id(p)]:
            r = Or(r, cond(bi))
        return r

    def value(p, bi):
        v = None
        for (buf, cond, val) in per[id(p)]:
            c = cond(bi)
            if c is False:
                continue
            w = val(bi)
            v = w if v is None or c is True else A.merge(c, lambda: w, lambda: v)
        return v if v is not None else num(0)
    return hit, value


class Redo(BaseException):
    """a template changed shape: execute the body again from the new state"""


def appended(entry, final, base):
    """what was appended to entry giving final, as parts of a list, or None."""
    e = [c for c in entry if not (c[0] == "c" and not c[1])]
    f = [c for c in final if not (c[0] == "c" and not c[1])]
    out = ()
    for p, c in enumerate(e):
        if p >= len(f):
            return None
        d = f[p]
        if c is d or (c[0] == d[0] == "c" and len(c[1]) == len(d[1]) and all(a is b for a, b in zip(c[1], d[1]))):
            continue
        if p == len(e) - 1 and c[0] == d[0] == "c" and len(d[1]) > len(c[1]) and all(a is b for a, b in zip(c[1], d[1])):
            out += (("c", d[1][len(c[1]):]),)
            continue
        if c[0] == "s" and d[0] == "s" and c[2] is d[2] or (c[0] == d[0] == "s" and same_getter(c, d)):
            continue
        return None
    return out + tuple(f[len(e):])


def same_getter(c, d):
    return getattr(c[2], "__name__", "") == "f" and getattr(d[2], "__name__", "") == "f" and \
        c[2].__qualname__.startswith("bad") and d[2].__qualname__.startswith("bad")


def mentions(d, x, k):
    """does the number d depend on the variable atoms of x or on k?"""
    d = num(d)
    ids = {a for m in num(x).p for a, e in m} | {a for m in num(k).p for a, e in m}
    for m in d.p:
        for a, e in m:
            if a in ids:
                return True
            at = N._atoms[a]
            for b in ids:
                if V.contains(at, N._atoms[b]):
                    return True
    return False


def affine_axis(c, b, k):
    """(axis, offset, size) such that c implies offset + k * size <= b[axis] < offset + (k + 1) * size."""
    if isinstance(c, bool):
        return None
    lows, highs = {}, {}                 # axis -> bounds of b[axis], as polynomials: low <= b[axis] < high
    for e in flat_and(c.z):
        if z3.is_eq(e) and z3.is_int(e.arg(0)):
            d = N.p_add(N.p_from(e.arg(0)), N.p_from(e.arg(1)), -1)
            for ax, p in solved_for(d, b):
                o = linear_in(p, k, b)
                if o is not None:
                    c0, a = o
                    if a == N.p_const(1):
                        return ax, N.mk(c0, "int"), 1
                    if positive(a):
                        return ax, N.mk(c0, "int"), N.mk(a, "int")
            continue
        d = nonneg(e)
        if d is None:
            continue
        for ax, p in solved_for(d, b):
            one = d[((b[ax].get_id(), 1),)]
            if one > 0:
                lows.setdefault(ax, []).append(p)
            else:
                highs.setdefault(ax, []).append(N.p_add(p, N.p_const(1)))
    for ax in lows:
        for p in lows[ax]:
            o = linear_in(p, k, b)
            if o is None or not any(not N.p_add(N.p_add(h, p, -1), o[1], -1) for h in highs.get(ax, ())):
                continue
            if positive(o[1]):
                return ax, N.mk(o[0], "int"), N.mk(o[1], "int")
    return None


def nonneg(e):
    """e as: polynomial >= 0, over the integers."""
    if z3.is_not(e):
        f = e.arg(0)
        if not (z3.is_app(f) and f.num_args() == 2 and z3.is_int(f.arg(0))):
            return None
        flip = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_GT: z3.Z3_OP_LE}.get(f.decl().kind())
        e = f
    elif not (z3.is_app(e) and e.num_args() == 2 and z3.is_int(e.arg(0))):
        return None
    else:
        flip = e.decl().kind()
    d = N.p_add(N.p_from(e.arg(0)), N.p_from(e.arg(1)), -1)
    one = N.p_const(1)
    if flip == z3.Z3_OP_GE:
        return d
    if flip == z3.Z3_OP_GT:
        return N.p_add(d, one, -1)
    if flip == z3.Z3_OP_LE:
        return N.p_scale(d, -1)
    if flip == z3.Z3_OP_LT:
        return N.p_add(N.p_scale(d, -1), one, -1)
    return None


def solved_for(d, b):
    """the axes whose position occurs with coefficient one, and what it is where d is zero."""
    for ax, x in enumerate(b):
        xx = ((x.get_id(), 1),)
        if xx in d and abs(d[xx]) == 1:
            yield ax, N.p_scale({m: co for m, co in d.items() if m != xx}, -d[xx])


def linear_in(p, k, b):
    """(c0, a) with p == c0 + a * k, neither mentioning k or a position."""
    c0, a = {}, {}
    for m, co in p.items():
        rest = tuple(x for x in m if x[0] != k.get_id())
        if any(V.contains(N._atoms[x], k) or any(V.contains(N._atoms[x], y) for y in b) for x, _ in rest):
            return None
        if len(rest) == len(m):
            c0[m] = co
        elif (k.get_id(), 1) in m:
            a[rest] = co
        else:
            return None
    return (c0, a) if a else None


def positive(a):
    p = N.mk(a, "int") > 0
    return p is True or not isinstance(p, bool) and eng.valid(p)
