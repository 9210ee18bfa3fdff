"""Engine: path exploration by re-execution, path conditions, obligations.

The program under verification is executed by CPython on symbolic values; every
time a truth value is needed (SBool.__bool__) the engine decides whether the path
condition forces it, and otherwise forks by re-running the exploration with the
other decision.  Obligations are discharged by z3 (cvc5 second)."""
import sys, time, traceback, os
from fractions import Fraction
import re
import z3

PKG = os.path.dirname(os.path.abspath(__file__))


class Unsupported(BaseException):
    """The construct is outside the verified subset (BaseException so that the
    program's own `except Exception` cannot swallow it)."""


class PathEnd(BaseException):
    """Abandon the current path (infeasible or covered elsewhere)."""


class BudgetExceeded(BaseException):
    pass


def model_exc(e):
    """Mark an exception deliberately raised by a library contract."""
    e._pv_model = True
    return e


def sanctioned(e):
    if getattr(e, "_pv_model", False):
        return True
    tb = e.__traceback__
    if tb is None:
        return True
    while tb.tb_next is not None:
        tb = tb.tb_next
    fn = tb.tb_frame.f_code.co_filename
    return not (fn.startswith(PKG) or "/z3/" in fn or "/usr/lib" in fn or beyond_model(e))


def _of_model(x):
    c = x if isinstance(x, type) else type(x)
    return (getattr(c, "__module__", None) or "").startswith("pyvc.")


def _model_names():
    if not _MODEL_NAMES:
        for m, mod in list(sys.modules.items()):
            if m.startswith("pyvc.") and mod is not None:
                _MODEL_NAMES.update(k for k, v in vars(mod).items() if (getattr(v, "__module__", None) or "") == m)
    return _MODEL_NAMES


_MODEL_NAMES = set()


def beyond_model(e):
    """an error of the interpreter about an object which stands for a library's: the object lacks
    what the library's may have (a method, an argument, an operator), so nothing is known."""
    if isinstance(e, AttributeError):
        return getattr(e, "obj", None) is not None and _of_model(e.obj)
    if isinstance(e, TypeError):
        m = str(e)
        f = re.match(r"([\w.<>]+)\(\) (got|takes|missing)", m)
        if f:
            return f.group(1).split(".")[0] in _model_names()
        return any(q in _model_names() for q in re.findall(r"'(\w+)'", m))
    return False


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    return f"{type(e).__name__}: {e} @ " + " < ".join(
        f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))


_BOUND = z3.Int("bound!")


def _leaves(a):
    out, stack = [], [a]
    while stack:
        t = stack.pop()
        if z3.is_add(t):
            stack.extend(t.children())
        else:
            out.append(t)
    return out


def _has(t, kid):
    stack, vis = [t], set()
    while stack:
        t = stack.pop()
        if t.get_id() == kid:
            return True
        if t.get_id() not in vis:
            vis.add(t.get_id())
            stack.extend(t.children())
    return False


def offset(a, kid):
    """r with a = k + r and r free of k: an int or a term; None if there is none."""
    ls = _leaves(a)
    rest = [x for x in ls if x.get_id() != kid]
    if len(rest) != len(ls) - 1 or any(_has(x, kid) for x in rest):
        return None
    if len(rest) == 1 and z3.is_int_value(rest[0]):
        return rest[0].as_long()
    return rest[0] if len(rest) == 1 else z3.Sum(rest)


def minus(a, off):
    """a - off as an instantiation term; None when nothing cancels."""
    if isinstance(off, int):
        return z3.simplify(a - off) if off else a
    r = z3.simplify(a - off, som=True)
    return r if len(_leaves(r)) < len(_leaves(a)) + (0 if z3.is_add(a) else 1) else None


class QFact:
    """forall k in [lo, hi): body(k)  (body already a z3 Bool over the const k)."""
    def __init__(self, k, lo, hi, body, extra=()):
        self.k, self.lo, self.hi, self.body = k, lo, hi, body
        self.tag = self.depth = None
        self.trig = []       # (decl name, arg position, offset): instantiate k = arg - offset
        seen = set()
        kid = k.get_id()
        stack = [body]
        vis = set()
        while stack:
            t = stack.pop()
            if t.get_id() in vis:
                continue
            vis.add(t.get_id())
            if z3.is_app(t):
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
                    for p in range(t.num_args()):
                        a = t.arg(p)
                        off = None
                        if a.get_id() == kid:
                            off = 0
                        elif z3.is_add(a):
                            off = offset(a, kid)
                        if off is not None:
                            key = (t.decl().name(), p, off if isinstance(off, int) else off.get_id())
                            if key not in seen:
                                seen.add(key)
                                self.trig.append((t.decl().name(), p, off))
                stack.extend(t.children())

    more = ()                # further variables: (k, lo, hi); instantiated together by one term
    multi = ()               # (decl name, ((arg position, offset) per variable))

    @staticmethod
    def several(vs, body, heads):
        """forall of several variables (k, lo, hi); heads: applications that mention all of
        them (as arguments, plus a number)."""
        (k, lo, hi), more = vs[0], vs[1:]
        q = QFact(k, lo, hi, body)
        q.trig = []
        q.more = tuple(more)
        ms = []
        for h in heads:
            ps = []
            for kk, _, _ in vs:
                for p in range(h.num_args()):
                    a = h.arg(p)
                    off = 0 if a.eq(kk) else offset(a, kk.get_id()) if z3.is_add(a) else None
                    if off is not None:
                        ps.append((p, off))
                        break
                else:
                    raise Unsupported("trigger of a fact about several variables")
            ms.append((h.decl().name(), tuple(ps)))
        q.multi = tuple(ms)
        return q

    def terms(self, apps, first, hints):
        """where to instantiate, given the new applications by function name."""
        if self.multi:
            out = []
            for d, ps in self.multi:
                for t in apps.get(d, ()):
                    ts = tuple(minus(t.arg(p), off) for p, off in ps)
                    if all(x is not None and z3.is_int(x) for x in ts):
                        out.append(ts)
            return out
        out = []
        for (d, p, off) in self.trig:
            for t in apps.get(d, ()):
                out.append(minus(t.arg(p), off))
        if first:
            out += list(hints) + [z3.simplify(self.hi - 1), self.lo]
        return [t for t in out if t is not None and z3.is_int(t)]

    def key(self):
        if getattr(self, "_key", None) is None:
            b = z3.substitute(self.body, (self.k, _BOUND))
            self._keep = b
            self._key = (self.lo.get_id(), self.hi.get_id(), b.get_id())
        return self._key

    def inst(self, term):
        if self.multi:
            ks = [(self.k, self.lo, self.hi)] + list(self.more)
            sub = [(v[0], t) for v, t in zip(ks, term)]
            g = [z3.substitute(c, *sub) for k, lo, hi in ks for c in (lo <= k, k < hi)]
            return z3.Implies(z3.And(*g), z3.substitute(self.body, *sub))
        b = z3.substitute(self.body, (self.k, term))
        return z3.Implies(z3.And(self.lo <= term, term < self.hi), b)

    def subst(self, pairs):
        q = QFact.__new__(QFact)
        q.tag = q.depth = None
        q.k = self.k
        q.lo = z3.substitute(self.lo, *pairs)
        q.hi = z3.substitute(self.hi, *pairs)
        q.body = z3.substitute(self.body, *pairs)
        so = lambda off: off if isinstance(off, int) else z3.substitute(off, *pairs)
        q.trig = [(d, p, so(off)) for d, p, off in self.trig]
        q.more = tuple((k, z3.substitute(lo, *pairs), z3.substitute(hi, *pairs)) for k, lo, hi in self.more)
        q.multi = tuple((d, tuple((p, so(off)) for p, off in ps)) for d, ps in self.multi)
        return q

    def guarded(self, guard):
        """the fact under a condition."""
        r = QFact.__new__(QFact)
        r.tag, r.depth = None, None
        r.k, r.lo, r.hi, r.trig, r.more, r.multi = self.k, self.lo, self.hi, self.trig, self.more, self.multi
        r.body = z3.Implies(guard, self.body)
        return r

    def z3(self):
        return z3.ForAll([self.k], z3.Implies(z3.And(self.lo <= self.k, self.k < self.hi), self.body))


class Path:
    __slots__ = ("kind", "value", "decs", "asms", "qfacts")

    def __init__(self, kind, value, entries):
        self.kind, self.value = kind, value
        self.decs = [e for t, e in entries if t == "dec"]
        self.asms = [e for t, e in entries if t == "asm"]
        self.qfacts = [e for t, e in entries if t == "q"]


class Obligation:
    __slots__ = ("name", "status", "backend", "secs", "detail", "where")

    def __init__(self, name, status, backend, secs, detail="", where=""):
        self.name, self.status, self.backend, self.secs, self.detail, self.where = \
            name, status, backend, secs, detail, where


SCALE = float(os.environ.get("PV_SCALE", "1"))


class Engine:
    def __init__(self):
        self.reset()

    def reset(self):
        self.pc = []            # (kind, expr) kind in dec, asm, q
        self.pcids = []
        self.pcset = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", 700)
        self.trail = []         # (obj, undo state)
        self.stampno = 0
        self.counter = 0
        self.prefix, self.trace = [], []
        self.binders = []
        self.binder_start = {}
        self.subst_stack = []
        self.term_axioms = {}   # id -> (term, [facts])
        self.hint_terms = []
        self.rounds = 3
        self.obligations = []
        self.solver_time = 0.0
        self.feas_queries = 0
        self.patience = 4             # obligations not proved that get a second, longer attempt
        self.keep = []          # keep asts alive so ids stay unique
        self.cache = {}
        self.cache_inv = {}
        self.locators = {}            # keys whose positions come with the sequence
        self.trusted = {}
        self.functions = {}
        self.decl_sorts = {}
        self.deadline = None
        self.n_paths = 0
        self.covers = {}
        self.loop_log = []
        self.cand_invariants = []
        self.seq_infos = []
        self.forced_only = False
        self.lazy = False
        self.wlogs = []
        self.masksels = []
        self.symtab = {}
        self.folds = {}         # ghost folds over lists: name -> (unit, step(value, element))
        self.loop_states = []
        self.loop_invariants = None     # invariants supplied by a contract for every loop met
        self.fn_axioms = {}     # facts about every application of a function of the contract
        self.fn_pairs = {}      # and about every two applications

    # -- names -----------------------------------------------------------
    def name(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"

    def fresh(self, base, sort):
        n = f"{self.name(base)}_{sort.name()}"
        if self.binders:
            return z3.Function(n, *([z3.IntSort()] * len(self.binders)), sort)(*self.binders)
        return z3.Const(n, sort)

    def fresh_fn(self, base, doms, rng):
        """A fresh function; depends on the enclosing binders as well."""
        n = f"{self.name(base)}_{rng.name()}"
        bs = list(self.binders)
        f = z3.Function(n, *([z3.IntSort()] * len(bs)), *doms, rng)
        return lambda *a: f(*bs, *a)

    def starts(self, k, stamp):
        """what an iteration at the generic index k makes is younger than this."""
        self.keep.append(k)
        self.binder_start[k.get_id()] = stamp

    def stamp(self):
        self.stampno += 1
        return self.stampno

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise BudgetExceeded("verification budget exceeded")

    # -- path condition ---------------------------------------------------
    def sub(self, t):
        for k, i in reversed(self.subst_stack):
            t = z3.substitute(t, (k, i))
        return t

    def _add(self, kind, e):
        self.pc.append((kind, e))
        self.keep.append(e)
        if kind != "q":
            i = e.get_id()
            self.pcids.append(i)
            self.pcset[i] = self.pcset.get(i, 0) + 1
            self.solver.add(e)
        else:
            self.pcids.append(None)

    def _truncate(self, n):
        while len(self.pc) > n:
            self.pc.pop()
            i = self.pcids.pop()
            if i is not None:
                self.pcset[i] -= 1
                if not self.pcset[i]:
                    del self.pcset[i]

    def assume(self, e):
        from .num import SBool
        if isinstance(e, SBool):
            e = e.z
        if isinstance(e, bool):
            if not e:
                raise PathEnd()
            return
        e = z3.simplify(self.sub(e)) if False else self.sub(e)
        if z3.is_true(e):
            return
        if z3.is_and(e):
            for c in e.children():
                self.assume_raw(c)
            return
        self.assume_raw(e)

    def assume_raw(self, e):
        if e.get_id() in self.pcset:
            return
        self._add("asm", e)

    def assume_q(self, q):
        if self.subst_stack:
            for k, i in reversed(self.subst_stack):
                q = q.subst([(k, i)])
        if z3.is_true(z3.simplify(q.body)):
            return
        i = q.key()
        for k, e in self.pc:
            if k == "q" and e.key() == i:
                return
        self._add("q", q)

    def has_tag(self, tag):
        return any(k == "q" and e.tag == tag for k, e in self.pc)

    def forall(self, lo, hi, fn, tag=None, depth=None):
        """assume forall k in [lo,hi): fn(k)   fn: SNum -> SBool/bool (no branching)."""
        from .num import SNum, iz, SBool
        k = z3.Int(self.name("q"))
        n0 = len(self.pc)
        self.binders.append(k)        # what the body introduces depends on the position
        try:
            b = fn(SNum.atom(k, "int"))
        finally:
            self.binders.pop()
        if isinstance(b, (list, tuple)):
            b = z3.And(*[x.z if isinstance(x, SBool) else z3.BoolVal(bool(x)) for x in b])
        elif isinstance(b, SBool):
            b = b.z
        elif isinstance(b, bool):
            b = z3.BoolVal(b)
        if any(kind == "dec" and mentions(e, k) for kind, e in self.pc[n0:]):
            raise Unsupported("case distinction inside a quantified fact")
        facts = [e for kind, e in self.pc[n0:] if kind == "asm" and mentions(e, k)]
        if facts:                     # hold for every position, as nothing was assumed about this one
            b = z3.And(b, *facts)
        q = QFact(k, iz(lo), iz(hi), b)
        q.tag, q.depth = tag, depth
        self.assume_q(q)

    def check(self, e=None):
        """'sat' / 'unsat' / 'unknown' of the path condition (and e)."""
        self.feas_queries += 1
        self.tick()
        t0 = time.time()
        ax = self.axioms_for([e] if e is not None else [])
        key = None
        self.solver.push()
        try:
            for a in ax:
                self.solver.add(a)
            if e is not None:
                self.solver.add(e)
            r = self.solver.check()
        finally:
            self.solver.pop()
            self.solver_time += time.time() - t0
        return str(r)

    def branch(self, cond):
        cond = self.sub(cond)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        n = z3.Not(cond)
        self.keep.append(cond); self.keep.append(n)
        if cond.get_id() in self.pcset:
            return True
        if n.get_id() in self.pcset:
            return False
        if z3.is_not(cond) and cond.arg(0).get_id() in self.pcset:
            return False
        pos = len(self.trace)
        if pos < len(self.prefix):
            val, forced = self.prefix[pos]
            self.trace.append((val, forced))
        else:
            if self.check(cond) == "unsat":
                val, forced = False, True
            elif self.check(n) == "unsat":
                val, forced = True, True
            else:
                if self.forced_only:
                    from .loops import NotForced
                    raise NotForced()
                val, forced = True, False
            self.trace.append((val, forced))
        self._add("asm" if forced else "dec", cond if val else n)
        return val

    def valid(self, cond, quick=True):
        """Is cond implied by the path condition?"""
        from .num import SBool
        if isinstance(cond, SBool):
            cond = cond.z
        if isinstance(cond, bool):
            return cond
        cond = self.sub(cond)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if cond.get_id() in self.pcset:
            return True
        if self.check(z3.Not(cond)) == "unsat":
            return True
        if quick:
            return False
        return self._discharge(cond)[0] == "proved"

    # -- exploration -------------------------------------------------------
    def explore(self, fn, limit=400, on_path=None):
        results = []
        saved = (self.prefix, self.trace)
        base = self.counter
        top = base
        stamp0 = self.stampno
        work = [[]]
        n = 0
        try:
            while work:
                n += 1
                if n > limit:
                    raise Unsupported(f"more than {limit} paths")
                self.tick()
                prefix = work.pop()
                self.prefix, self.trace = prefix, []
                self.counter = base
                mark, pcmark = len(self.trail), len(self.pc)
                pstamp = self.stampno
                self.solver.push()
                out = None
                try:
                    try:
                        out = ("ret", fn())
                    except PathEnd:
                        out = None
                    except Exception as e:
                        if not sanctioned(e):
                            raise Unsupported("internal: " + describe_exc(e))
                        out = ("exc", e)
                    if out is not None:
                        results.append(Path(out[0], out[1], self.pc[pcmark:]))
                finally:
                    tr = self.trace
                    self.rollback(mark, pstamp)
                    self._truncate(pcmark)
                    self.solver.pop()
                    top = max(top, self.counter)
                for i in range(len(prefix), len(tr)):
                    if tr[i] == (True, False):
                        work.append(tr[:i] + [(False, False)])
        finally:
            self.prefix, self.trace = saved
        self.counter = top
        self.n_paths += n
        return results

    # -- heap trail --------------------------------------------------------
    def log(self, obj, state):
        self.trail.append((obj, state))

    def rollback(self, mark, pstamp):
        while len(self.trail) > mark:
            obj, state = self.trail.pop()
            if obj._stamp <= pstamp:
                obj._restore(state)

    # -- axioms attached to terms -------------------------------------------
    def term_axiom(self, term, facts):
        i = term.get_id()
        if i not in self.term_axioms:
            self.keep.append(term)
            self.term_axioms[i] = facts

    def axioms_for(self, exprs, extra=(), instances=False, pc=None):
        """Axioms of the special terms (inverses, ...) occurring in pc + exprs; pair axioms
        marked `base` only for terms of the path condition and the goal itself."""
        out = []
        vis = set()
        pairs = {}
        if any(getattr(f, "base", False) for f in PAIR_AXIOMS.values()) and not instances:
            st, seen, apps = [e for e in exprs if e is not None] + (pc if pc is not None else [e for k, e in self.pc if k != "q"]), set(), {}
            while st:
                t = st.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_app(t):
                    f = PAIR_AXIOMS.get(t.decl().name())
                    if f is not None and getattr(f, "base", False):
                        for u in apps.setdefault(t.decl().name(), []):
                            out.extend(f(t, u))
                        apps[t.decl().name()].append(t)
                    st.extend(t.children())
        stack = [e for e in exprs if e is not None]
        stack += pc if pc is not None else [e for k, e in self.pc if k != "q"]
        stack += list(extra)
        while stack:
            t = stack.pop()
            i = t.get_id()
            if i in vis:
                continue
            vis.add(i)
            if z3.is_app(t):
                nm = t.decl().name()
                f = AXIOMS.get(nm) or self.fn_axioms.get(nm)
                if f is not None:
                    fs = f(t)
                    out.extend(fs)
                    stack.extend(fs)
                f = PAIR_AXIOMS.get(nm) or self.fn_pairs.get(nm)
                if f is not None and not getattr(f, "base", False):
                    for u in pairs.setdefault(nm, []):
                        fs = f(t, u)
                        out.extend(fs)
                        stack.extend(fs)
                    pairs[nm].append(t)
                stack.extend(t.children())
        return out

    # -- obligations ---------------------------------------------------------
    def instances(self, goals):
        """Instances of the quantified facts relevant to pc + goals."""
        qs = [e for k, e in self.pc if k == "q"]
        if not qs:
            return []
        out, seen = [], set()
        scan = [e for k, e in self.pc if k != "q"] + list(goals)
        vis = set()
        for rnd in range(self.rounds):
            apps = {}
            stack = list(scan)
            while stack:
                t = stack.pop()
                i = t.get_id()
                if i in vis:
                    continue
                vis.add(i)
                if z3.is_app(t):
                    if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        apps.setdefault(t.decl().name(), []).append(t)
                    stack.extend(t.children())
            scan = []
            for qi, q in enumerate(qs):
                for tm in q.terms(apps, rnd == 0, self.hint_terms):
                    key = (qi, tuple(x.get_id() for x in tm) if isinstance(tm, tuple) else tm.get_id())
                    if key in seen:
                        continue
                    seen.add(key)
                    self.keep.append(tm)
                    e = q.inst(tm)
                    out.append(e)
                    scan.append(e)
                    if len(out) > 900:
                        return out
        return out

    def symbols(self, t):
        """names of the uninterpreted functions and constants in a term."""
        i = t.get_id()
        if i in self.symtab:
            return self.symtab[i]
        out, stack, vis = set(), [t], set()
        while stack:
            u = stack.pop()
            if u.get_id() in vis:
                continue
            vis.add(u.get_id())
            if z3.is_app(u):
                if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(u.decl().name())
                stack.extend(u.children())
            elif z3.is_quantifier(u):
                stack.append(u.body())
        self.keep.append(t)
        self.symtab[i] = out
        return out

    def relevant(self, neg):
        """hypotheses and facts about nothing but what the goal is about."""
        g = self.symbols(neg) | set(self.fn_axioms)      # functions of the contract are always of interest
        hyps = [e for k, e in self.pc if k != "q"]
        near = [self.symbols(h) for h in hyps]
        g = g.union(*[n for n in near if len(n) <= 2 and n & g])
        few = [h for h in hyps if self.symbols(h) <= g]
        qs = []
        for k, q in self.pc:
            if k == "q":
                own = {q.k.decl().name()} | {m[0].decl().name() for m in q.more}
                if self.symbols(q.body) - own <= g:
                    qs.append(q)
        return few, qs, len(few) < len(hyps)

    def lazy_unsat(self, hyps, neg, seconds, qs=None):
        """instantiate only what the current candidate model violates.  True: no model."""
        t0 = time.time()
        qs = [e for k, e in self.pc if k == "q"] if qs is None else qs
        memo, muls = {}, {}
        lin = lambda es: linearise(es, memo, muls)
        s = z3.Solver()
        s.set("timeout", int(seconds * 1000))
        base = hyps + [neg]
        ax = self.axioms_for([neg], pc=hyps)
        s.add(*lin(base + ax))
        vis, apps, cands, seen = set(), {}, [], set()
        axseen = {a.get_id() for a in ax}
        fresh = list(base) + ax

        def grow(es, first):
            new = {}
            stack = list(es)
            while stack:
                t = stack.pop()
                i = t.get_id()
                if i in vis:
                    continue
                vis.add(i)
                self.keep.append(t)
                if z3.is_app(t):
                    if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        new.setdefault(t.decl().name(), []).append(t)
                    stack.extend(t.children())
            for qi, q in enumerate(qs):
                for tm in q.terms(new, first, self.hint_terms):
                    tm = tuple(z3.simplify(x) for x in tm) if isinstance(tm, tuple) else z3.simplify(tm)
                    key = (qi, tuple(x.get_id() for x in tm) if isinstance(tm, tuple) else tm.get_id())
                    if key in seen:
                        continue
                    seen.add(key)
                    self.keep.append(tm)
                    cands.append([q, tm, None])
        grow(fresh, True)
        n_added = 0
        while time.time() - t0 < seconds:
            r = s.check()
            if r == z3.unsat:
                return True
            if r != z3.sat:
                return None
            m = s.model()
            bad, rest = [], []
            for c in cands:
                if len(bad) >= 60:
                    rest.append(c)
                    continue
                if c[2] is None:
                    e = c[0].inst(c[1])
                    self.keep.append(e)
                    c[2] = (e, lin([e])[0])
                v = m.eval(c[2][1], model_completion=True)
                if z3.is_true(v):
                    rest.append(c)
                else:
                    bad.append(c)
                if time.time() - t0 > seconds:
                    return None
            if not bad:
                return False
            cands[:] = rest
            es = [c[2][0] for c in bad]
            ax = [a for a in self.axioms_for(es, instances=True) if a.get_id() not in axseen]
            axseen.update(a.get_id() for a in ax)
            self.keep.extend(ax)
            s.add(*[c[2][1] for c in bad], *lin(ax))
            n_added += len(bad)
            if n_added > 1500:
                return None
            grow(es + ax, False)
        return None

    def _discharge(self, goal, timeout=4000):
        timeout = int(timeout * SCALE)
        t0 = time.time()
        neg = z3.Not(goal)
        hyps = [e for k, e in self.pc if k != "q"]
        key0 = (tuple(sorted({h.get_id() for h in hyps})), tuple(e.key() for k, e in self.pc if k == "q"), neg.get_id())
        if key0 in self.cache:
            return self.cache[key0]
        self.keep.append(neg)
        few, qfew, less = self.relevant(neg)
        if less and self.lazy_unsat(few, neg, 0.7 * SCALE, qfew) or self.lazy_unsat(hyps, neg, timeout / 1000):
            self.solver_time += time.time() - t0
            self.cache[key0] = ("proved", "z3", "")
            return self.cache[key0]
        for hs in ([few] if less else []) + [hyps]:
            if cvc5_check(linearise(hs + [neg] + self.axioms_for([neg], pc=hs), {}, {}), int(1500 * SCALE)) == "unsat":
                self.solver_time += time.time() - t0
                self.cache[key0] = ("proved", "cvc5", "")
                return self.cache[key0]
        inst = self.instances([neg])
        ax = self.axioms_for([neg], inst)
        allh = hyps + inst + ax + [neg]
        key = tuple(sorted({h.get_id() for h in allh}))
        if key in self.cache:
            return self.cache[key]
        self.keep.extend(allh)
        res = None
        model = None
        for attempt, (tmo, conf) in enumerate(((timeout, {}), (timeout, {"arith.solver": 2}), )):
            s = z3.Solver() if attempt == 0 else z3.SolverFor("ALL") if False else z3.Solver()
            s.set("timeout", tmo)
            for k, v in conf.items():
                s.set(k, v)
            s.add(*allh)
            r = s.check()
            if r == z3.unsat:
                res = ("proved", "z3", "")
                break
            if r == z3.sat:
                model = s.model()
                res = ("refuted", "z3", model)
                break
            res = ("unknown", "z3", s.reason_unknown())
        if res[0] == "unknown":
            r = cvc5_check(allh, int(6000 * SCALE))
            if r == "unsat":
                res = ("proved", "cvc5", "")
        self.solver_time += time.time() - t0
        self.cache[key] = res
        return res

    def split(self, goal, depth, first):
        """case analysis on the conditions of the conditional terms in the goal."""
        c = first_cond(goal)
        if c is None or not depth:
            return first
        worst = None
        for val in (c, z3.Not(c)):
            mark = len(self.pc)
            self.keep.append(val)
            self.solver.push()
            try:
                self.assume(val)
                if self.check() == "unsat":
                    continue
                g = self.resolve_ites(goal, c, val is c)
                r = self._discharge(g)
                if r[0] != "proved":
                    r = self.split(g, depth - 1, r)
                if r[0] != "proved":
                    worst = r
                    break
            finally:
                self._truncate(mark)
                self.solver.pop()
        return worst or ("proved", "z3", "")

    def resolve_ites(self, goal, c, val):
        ites = []
        stack, vis = [goal], set()
        while stack:
            t = stack.pop()
            if t.get_id() in vis:
                continue
            vis.add(t.get_id())
            if z3.is_app_of(t, z3.Z3_OP_ITE) and t.arg(0).eq(c):
                ites.append(t)
                continue
            stack.extend(t.children())
        g = z3.substitute(goal, *[(t, t.arg(1) if val else t.arg(2)) for t in ites])
        g = renorm(g)
        self.keep.append(g)
        return g

    def prove(self, goal, name, where=""):
        """Discharge one obligation under the current path condition."""
        from .num import SBool
        self.tick()
        t0 = time.time()
        if isinstance(goal, SBool):
            goal = goal.z
        if isinstance(goal, bool):
            if goal:
                ob = Obligation(name, "proved", "normaliser", 0.0, "", where)
                self.obligations.append(ob)
                return True
            goal = z3.BoolVal(False)
        goal = self.sub(goal)
        st, be, det = self._discharge(goal)
        if st != "proved":
            st, be, det = self.split(goal, 4, (st, be, det))
        if st != "proved" and self.patience > 0:       # not for lack of time
            self.patience -= 1
            if self.lazy_unsat([e for k, e in self.pc if k != "q"], z3.Not(goal), 15 * SCALE):
                st, be, det = "proved", "z3", ""
                self.patience += 1
        detail = ""
        if st != "proved":
            detail = f"goal: {str(goal)[:1500]}\n"
            if st == "refuted":
                detail += "counter-model: " + str(det)[:3000]
                self.last_model = det
            else:
                detail += "solver: " + str(det)
        self.obligations.append(Obligation(name, st, be, time.time() - t0, detail, where))
        return st == "proved"

    def trust(self, what, why=""):
        self.trusted[what] = self.trusted.get(what, 0) + 1


def mentions(t, k):
    from .values import contains
    return contains(t, k)


def first_cond(goal):
    stack, vis = [goal], set()
    while stack:
        t = stack.pop()
        if t.get_id() in vis:
            continue
        vis.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return t.arg(0)
        stack.extend(t.children())
    return None


def renorm(g):
    """arithmetic sides of the goal in polynomial normal form again."""
    from . import num as N
    if z3.is_not(g):
        return z3.Not(renorm(g.arg(0)))
    if z3.is_and(g):
        return z3.And(*[renorm(c) for c in g.children()])
    if z3.is_or(g):
        return z3.Or(*[renorm(c) for c in g.children()])
    if z3.is_app(g) and g.num_args() == 2 and z3.is_arith(g.arg(0)):
        kind = "int" if z3.is_int(g.arg(0)) else "real"
        a, b = N.SNum(N.p_from(g.arg(0)), kind).z, N.SNum(N.p_from(g.arg(1)), kind).z
        if a.sort() != b.sort():
            return g
        k = g.decl().kind()
        return {z3.Z3_OP_EQ: lambda: a == b, z3.Z3_OP_LE: lambda: a <= b, z3.Z3_OP_LT: lambda: a < b,
                z3.Z3_OP_GE: lambda: a >= b, z3.Z3_OP_GT: lambda: a > b}.get(k, lambda: g)()
    return g


def linearise(es, memo, muls):
    """products of unknowns as an uninterpreted commutative function (weaker, but in a
    decidable theory with congruence)."""

    def go(t):
        i = t.get_id()
        r = memo.get(i)
        if r is not None:
            return r[1]
        if not z3.is_app(t) or not t.num_args():
            r = t
        else:
            ch = [go(c) for c in t.children()]
            if z3.is_mul(t):
                co, fs = [], []
                for c in ch:
                    (co if is_const(c) else fs).append(c)
                if len(fs) > 1:
                    fs.sort(key=lambda x: x.get_id())
                    a = fs[0]
                    for b in fs[1:]:
                        f = muls.setdefault(("mul!", a.sort().name()), (z3.Function("mul!" + a.sort().name(), a.sort(), a.sort(), a.sort()), []))
                        m = f[0](a, b)
                        f[1].append((a, b))
                        a = m
                    r = a
                    for c in co:
                        r = c * r
                else:
                    r = t.decl()(*ch) if any(c is not o for c, o in zip(ch, t.children())) else t
            else:
                r = t if all(c.get_id() == o.get_id() for c, o in zip(ch, t.children())) else t.decl()(*ch)
        memo[i] = (t, r)
        return r
    out = [go(e) for e in es]
    for f, prs in muls.values():
        while prs:
            a, b = prs.pop()
            out[-1] = z3.And(out[-1], f(a, b) == f(b, a))
    return out


def is_const(c):
    return z3.is_rational_value(c) or z3.is_int_value(c) or (z3.is_app(c) and c.num_args() and all(is_const(x) for x in c.children()) and c.decl().kind() != z3.Z3_OP_UNINTERPRETED)


AXIOMS = {}
PAIR_AXIOMS = {}


def pair_axiom(name):
    """facts about two applications of the same special function."""
    def deco(f):
        PAIR_AXIOMS[name] = f
        return f
    return deco


def axiom(name):
    def deco(f):
        AXIOMS[name] = f
        return f
    return deco


def cvc5_check(assertions, tmo):
    """Second opinion through the SMT-LIB text."""
    try:
        import cvc5
        s = z3.Solver()
        s.add(*assertions)
        text = re.sub(r"(?<![\w!.])(sqrt|sin|cos|exp|pi|log)(?![\w!.])", r"\1!u", s.to_smt2())     # names cvc5 reserves
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(tmo))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = p.getSymbolManager()
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            r = cmd.invoke(slv, sm)
            if "unsat" in str(r):
                return "unsat"
            if str(r).strip() == "sat":
                return "sat"
        return "unknown"
    except Exception as e:
        return "unknown"


eng = Engine()
