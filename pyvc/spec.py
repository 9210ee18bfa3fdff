"""The contract language: a contract sets up arbitrary inputs satisfying its
preconditions, runs the real (desugared) function and states postconditions; every
postcondition becomes one obligation per path."""
import time, traceback
from fractions import Fraction
import z3
from .core import SCALE, eng, Unsupported, PathEnd, BudgetExceeded, model_exc, sanctioned, describe_exc, QFact
from . import num as N
from .num import SNum, SBool, SStr, SComplex, num, iz, And, Or, Not, Implies, Ite
from . import values as V
from .values import PList, PDict, PSet, PObject, Tracked, decide, clen
from . import arrays as A
from .arrays import NDArray
from . import runtime as R
from .libs import times, numpy_, misc, pydantic_, fs, science, pandas_
from . import loader, loops

CONTRACTS = []


class Contract:
    def __init__(self, prop, name, fn, functions, budget, limit):
        self.prop, self.name, self.fn, self.functions, self.budget, self.limit = prop, name, fn, functions, budget, limit


def contract(prop, name, functions, budget=60, limit=400):
    """functions: the functions of /repo this contract puts under contract."""
    def deco(f):
        CONTRACTS.append(Contract(prop, name, f, functions, budget, limit))
        return f
    return deco


def mod(name):
    return loader.load("resistics." + name)


class Outcome:
    def __init__(self, kind, value):
        self.kind, self.value = kind, value

    @property
    def ok(self):
        return self.kind == "ret"

    def raises(self, *types):
        return self.kind == "exc" and isinstance(self.value, types)


def attempt(fn, *a, **k):
    try:
        return Outcome("ret", fn(*a, **k))
    except Exception as e:
        if not sanctioned(e):
            raise Unsupported("internal: " + describe_exc(e))
        return Outcome("exc", e)


def require(*cs):
    for c in cs:
        eng.assume(c if not isinstance(c, list) else And(*c))


def require_forall(n, fn, lo=0):
    eng.forall(lo, n, fn)


def hint(*ts, rounds=None):
    """terms at which the solver should instantiate quantified facts."""
    for t in ts:
        t = iz(t)
        if not any(t.eq(h) for h in eng.hint_terms):
            eng.hint_terms.append(t)
    if rounds:
        eng.rounds = rounds


def feasible():
    if eng.check() == "unsat":
        raise PathEnd()


def ensure(c, name, where=""):
    r = eng.prove(c, name, where)
    if r and c is False:
        raise PathEnd()       # this path is impossible
    return r


def lemma(c, name):
    """an intermediate fact: proved here (one obligation), then available."""
    r = eng.prove(c, "lemma: " + name)
    require(c)
    return r


def ensure_forall(n, fn, name, lo=0):
    """for an arbitrary index lo <= k < n: fn(k, say) states obligations via `say`."""
    k = z3.Int(eng.name("u"))
    ks = SNum.atom(k, "int")

    def run():
        eng.assume(And(lo <= ks, ks < n))
        if eng.check() == "unsat":
            return
        c = fn(ks)
        if c is not None:
            ensure(c, name)
    ps = eng.explore(run)
    for p in ps:
        if p.kind == "exc":
            raise Unsupported("postcondition raised " + describe_exc(p.value))


def branches(fn):
    """run fn over all its own case splits (fn states obligations)."""
    for p in eng.explore(fn):
        if p.kind == "exc":
            raise Unsupported("postcondition raised " + describe_exc(p.value))


def must_fail(o, types, name):
    ensure(o.raises(*types) if isinstance(types, tuple) else o.raises(types), name)


def cover(name):
    """vacuity guard: this point must be reachable for some input."""
    if eng.covers.get(name) != "sat":
        eng.covers[name] = eng.check()


def callee(module, name, contract):
    """callers reached from here see this contract of the function, not its body
    (the contract itself is proved where the function is put under contract)."""
    setattr(mod(module), name, contract)


# ------------------------------------------------------------------ inputs
sint, sreal, sbool, sstr = N.sint, N.sreal, N.sbool, N.sstr
const = N.const


def nat(name, lo=0):
    n = sint(name)
    require(n >= lo)
    return n


def pos_real(name):
    x = sreal(name)
    require(x > 0)
    return x


def instant(name):
    return times.attodatetime.of(sreal(name))


def strings(name, n, distinct=True):
    """a list of n distinct symbolic strings."""
    f = eng.fresh_fn(name, [z3.IntSort()], z3.IntSort())
    get = lambda i: SStr(f(iz(i)))
    if clen(n) is not None:
        l = [get(i) for i in range(clen(n))]
        if distinct:
            for i in range(len(l)):
                for j in range(i):
                    require(Not(l[i] == l[j]))
        return PList(l)
    if distinct:
        g = eng.fresh_fn(name + "inv", [z3.IntSort()], z3.IntSort())
        eng.forall(0, n, lambda i: SNum.atom(g(f(iz(i))), "int") == i)
    return PList.sym(n, get)


def real_array(name, *shape, nan=False):
    f = eng.fresh_fn(name, [z3.IntSort()] * len(shape), z3.RealSort())
    if nan:
        g = eng.fresh_fn(name + "nan", [z3.IntSort()] * len(shape), z3.BoolSort())
        return NDArray.make(shape, A.F64, lambda *ix: SNum(N.p_from(f(*map(iz, ix))), "real", SBool(g(*map(iz, ix)))))
    return NDArray.make(shape, A.F64, lambda *ix: SNum.atom(f(*map(iz, ix)), "real"))


def int_array(name, *shape):
    f = eng.fresh_fn(name, [z3.IntSort()] * len(shape), z3.IntSort())
    return NDArray.make(shape, A.I64, lambda *ix: SNum.atom(f(*map(iz, ix)), "int"))


def complex_array(name, *shape):
    return NDArray.make(shape, A.C128, numpy_.unknown_cells(name, len(shape), A.C128))


def build(cls, **fields):
    """an instance with the given fields, taken as valid."""
    o = object.__new__(cls)
    o._born()
    o.__dict__.update(fields)
    return o


def period_exact(fs):
    """the period is a whole number of nanoseconds or its sub-nanosecond rest is not
    so small that to_timedelta drops it."""
    p = num(1) / fs
    ns = (p * 10 ** 6 - N.floor(p * 10 ** 6)) * 1000
    return Or(ns == 0, ns >= const(Fraction(1, 10000)))


# ------------------------------------------------------------- heap footprints
def ident(o):
    return id(o._src) if o._src is not None else id(o)


def reach(v, out=None, probe=None):
    """mutable objects reachable from v: identity -> object.  Members of symbolic
    families are taken at the generic index `probe`."""
    out = {} if out is None else out
    if v is None or V.is_scalar(v) or isinstance(v, (int, str, bool)):
        return out
    if isinstance(v, (tuple, list)):
        for x in v:
            reach(x, out, probe)
        return out
    if isinstance(v, NDArray):
        out.setdefault(ident(v.buf), v.buf)
        return out
    if not isinstance(v, (PList, PDict, PSet, PObject)) or ident(v) in out:
        return out
    out[ident(v)] = v
    if isinstance(v, PList):
        for c in v.chunks:
            if c[0] == "c":
                for x in c[1]:
                    reach(x, out, probe)
            elif probe is not None:
                generic_member(c[1], c[2], out, probe)
    elif isinstance(v, PDict):
        for l in v.layers:
            if l[0] == "i":
                reach(l[2], out, probe)
            elif l[0] == "f" and probe is not None:
                generic_member(l[1].n, l[1].valfn, out, probe)
    elif isinstance(v, PObject):
        for x in V.public_dict(v).values():
            reach(x, out, probe)
    return out


def generic_member(n, get, out, probe):
    def run():
        eng.assume(And(0 <= probe, probe < n))
        if eng.check() != "unsat":
            reach(get(probe), out, probe)
    for p in eng.explore(run):
        if p.kind == "exc":
            raise Unsupported("member raised " + describe_exc(p.value))


def mark():
    """the heap as of now, for frame conditions."""
    return (len(eng.trail), eng.stampno)


def writes_since(m):
    """pre-existing objects written since the mark whose state is different now."""
    pos, st = m
    seen, out = set(), []
    for o, state in eng.trail[pos:]:
        if o._stamp <= st and id(o) not in seen:
            seen.add(id(o))
            out.append((o, state))
    return out


def describe(o):
    return type(o).__name__


def unchanged(m, name, objs=None):
    """frame condition: nothing that existed at the mark (or: none of the objects
    reachable from objs) has been modified."""
    ws = [(o, s) for o, s in writes_since(m) if not isinstance(o, (fs.FileSystem, Memo))]
    if objs is not None:
        r = reach(objs)
        ws = [(o, s) for o, s in ws if id(o) in r]
    bad = []
    for o, s in ws:
        if isinstance(o, PObject) and all(o.__dict__.get(k) is v for k, v in s.items()) and len(o.__dict__) == len(s):
            continue
        bad.append(o)
    ensure(not bad, name)
    if bad:
        eng.obligations[-1].detail = "modified: " + ", ".join(describe(o) for o in bad[:5])
    return not bad


class Memo(Tracked):
    pass


def separate(a, b, name):
    """no mutable object is reachable from both."""
    probe = SNum.atom(z3.Int(eng.name("pr")), "int")
    ra, rb = reach(a, probe=probe), reach(b, probe=probe)
    shared = [o for i, o in ra.items() if i in rb]
    ensure(not shared, name)
    if shared:
        eng.obligations[-1].detail = "shared: " + ", ".join(describe(o) for o in shared[:5])


# ------------------------------------------------------------------ equality
def same(a, b):
    """structural equality as one condition where possible (scalars, None, tuples)."""
    return V.scalar_eq(a, b)


def ensure_same_array(x, y, name):
    """same shape and cells."""
    if not isinstance(x, NDArray) or not isinstance(y, NDArray) or len(x.shape) != len(y.shape):
        ensure(False, name + " shape")
        return
    for p, (s, t) in enumerate(zip(x.shape, y.shape)):
        ensure(num(s) == num(t), f"{name} shape[{p}]")
    ensure_cells(x, lambda *ix: y.at(*ix), name)


def ensure_cells(x, fn, name, guard=None):
    """every cell of x equals fn(*idx)."""
    ks = [SNum.atom(z3.Int(eng.name("c")), "int") for _ in x.shape]

    def run():
        for k, s in zip(ks, x.shape):
            eng.assume(And(0 <= k, k < s))
        if guard is not None:
            eng.assume(guard(*ks))
        if eng.check() == "unsat":
            return
        a, b = x.at(*ks), fn(*ks)
        ensure(cell_eq(a, b), name)
    for p in eng.explore(run):
        if p.kind == "exc":
            raise Unsupported("postcondition raised " + describe_exc(p.value))


def cell_eq(a, b):
    na, nb = numpy_.isnan_s(a), numpy_.isnan_s(b)
    if na is not False or nb is not False:
        if isinstance(a, SNum):
            return And(N.SBool(N.bz(na)) == nb if not (isinstance(na, bool) and isinstance(nb, bool)) else na == nb,
                       Or(na, SNum(a.p, a.kind) == SNum(num(b).p, num(b).kind)))
    return V.scalar_eq(a, b)


def ensure_list(l, n, fn, name):
    """l has n elements, element i equal to fn(i)."""
    ensure(num(l.n) == num(n), name + " length")
    st = PList(l)
    ensure_forall(n, lambda i: V.scalar_eq(st.get(i), fn(i)), name)


def ensure_same(a, b, name):
    """deep structural equality of heap values."""
    if isinstance(a, NDArray) and isinstance(b, NDArray):
        return ensure_same_array(a, b, name)
    if isinstance(a, PList) and isinstance(b, PList):
        ca, cb = a.concrete(), b.concrete()
        if ca is not None and cb is not None:
            ensure(len(ca) == len(cb), name + " length")
            for j, (x, y) in enumerate(zip(ca, cb)):
                ensure_same(x, y, f"{name}[{j}]")
            return
        ensure(num(a.n) == num(b.n), name + " length")
        sa, sb = PList(a), PList(b)
        ensure_forall(a.n, lambda i: ensure_same(sa.get(i), sb.get(i), name + "[i]"), name)
        return
    if isinstance(a, PDict) and isinstance(b, PDict):
        ensure(num(a.n) == num(b.n), name + " size")
        for l in a.layers:
            if l[0] == "i":
                w = b.lookup(l[1])
                ensure(w is not V.MISSING, name + " key")
                if w is not V.MISSING:
                    ensure_same(l[2], w, name + "[key]")
            else:
                fam = l[1]

                def f(i, fam=fam):
                    w = b.lookup(fam.keyfn(i))
                    ensure(w is not V.MISSING, name + " key")
                    if w is not V.MISSING:
                        ensure_same(fam.valfn(i), w, name + "[key]")
                ensure_forall(fam.n, f, name)
        return
    if isinstance(a, PObject) and isinstance(b, PObject):
        ensure(type(a) is type(b), name + " type")
        da, db = V.public_dict(a), V.public_dict(b)
        ensure(set(da) == set(db), name + " fields")
        for k in da:
            if k in db:
                ensure_same(da[k], db[k], f"{name}.{k}")
        return
    if isinstance(a, tuple) and isinstance(b, tuple):
        ensure(len(a) == len(b), name + " length")
        for x, y in zip(a, b):
            ensure_same(x, y, name)
        return
    if type(a) is not type(b) and not (V.is_scalar(a) and V.is_scalar(b)):
        ensure(a is b, name + " kind")
        return
    if isinstance(a, times.Instant):
        ensure(a == b, name)
        return
    ensure(V.scalar_eq(a, b), name)


def snapshot(v):
    """an independent copy of the current value, for comparison afterwards."""
    return pydantic_.deepcopy(v)


# ------------------------------------------------------------------- running
def run_contract(c):
    """returns a result dictionary."""
    import os
    eng.reset()
    fs.FS.reset()
    fs.GIVEN.clear()
    N._codes.clear()
    N._texts.clear()
    N.lit_code("")
    t0 = time.time()
    eng.deadline = t0 + c.budget * SCALE
    status, why = "ok", ""
    try:
        ps = eng.explore(c.fn, limit=c.limit)
        for p in ps:
            if p.kind == "exc":
                status, why = "unsupported", "contract raised " + describe_exc(p.value)
                break
        if not ps:
            status, why = "unsupported", "no feasible path (vacuous)"
    except Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        repo = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb if "/resistics/" in f.filename]
        pv = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb if "/pyvc/" in f.filename]
        status, why = "unsupported", f"{e} at {' > '.join(repo[-3:])} [{' > '.join(pv[-3:])}]"
    except BudgetExceeded:
        status, why = "budget", f"more than {c.budget} s"
    except PathEnd:
        status, why = "unsupported", "vacuous"
    except RecursionError:
        status, why = "unsupported", "recursion"
    obs = {}
    for o in eng.obligations:
        e = obs.setdefault(o.name, dict(name=o.name, status="proved", instances=0, secs=0.0, backends={}, detail=""))
        e["instances"] += 1
        e["secs"] += o.secs
        e["backends"][o.backend] = e["backends"].get(o.backend, 0) + 1
        rank = {"proved": 0, "unknown": 1, "refuted": 2}
        if rank[o.status] > rank[e["status"]]:
            e["status"] = o.status
            e["detail"] = o.detail
    return dict(prop=c.prop, contract=c.name, functions=c.functions, status=status, why=why, obligations=list(obs.values()),
                paths=eng.n_paths, solver_time=round(eng.solver_time, 2), wall=round(time.time() - t0, 2),
                covers=dict(eng.covers), trusted=dict(eng.trusted), loops=[str(x) for x in eng.loop_log][:40])
