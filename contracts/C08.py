from objs import *
import stages
from pyvc import loops, loader


def filtered(make, edges, btype, refuse):
    """zero-phase Butterworth of the requested order and band edges along every channel."""
    td = time_data()
    x = td.data.copy()
    n = x.shape[1]
    order = nat("order", 1)
    nyq = td.metadata.fs / 2
    p = make(order)
    lo = edges(p, td)
    o = attempt(p.run, td)
    if decide(refuse(p, nyq)):
        cover("refused")
        must_fail(o, mod("errors").ProcessRunError, "cut-off above Nyquist is refused")
        return
    if not o.ok:
        cover("not a filter")
        ensure(Or(*[Or(e <= 0, e >= nyq) for e in lo], lo[0] >= lo[-1] if len(lo) > 1 else False), "refused only when the edges do not describe a filter")
        return
    cover("filtered")
    want = science.sosfiltfilt(science.butter(order, PList([e / nyq for e in lo]) if len(lo) > 1 else lo[0] / nyq, btype, output="sos"), x, axis=1)
    ensure_same_array(o.value.data, want, "zero-phase Butterworth at the requested edges along each channel")


@contract("C08", "LowPass", ["resistics.time.LowPass.run", "resistics.time.TimeMetadata.nyquist"])
def low():
    filtered(lambda o: mod("time").LowPass(cutoff=pos_real("cutoff"), order=o), lambda p, td: [p.cutoff], "lowpass", lambda p, ny: p.cutoff > ny)


@contract("C08", "HighPass", ["resistics.time.HighPass.run"])
def high():
    filtered(lambda o: mod("time").HighPass(cutoff=pos_real("cutoff"), order=o), lambda p, td: [p.cutoff], "highpass", lambda p, ny: p.cutoff > ny)


@contract("C08", "BandPass", ["resistics.time.BandPass.run"])
def band():
    filtered(lambda o: mod("time").BandPass(cutoff_low=pos_real("low"), cutoff_high=pos_real("high"), order=o),
             lambda p, td: [p.cutoff_low, p.cutoff_high], "bandpass", lambda p, ny: p.cutoff_high > ny)


@contract("C08", "Notch", ["resistics.time.Notch.run"])
def notch():
    filtered(lambda o: mod("time").Notch(notch=pos_real("notch"), band=pos_real("band"), order=o),
             lambda p, td: [p.notch - p.band / 2, p.notch + p.band / 2], "bandstop", lambda p, ny: p.notch > ny)


@contract("C08", "Notch with default band", ["resistics.time.Notch.run"])
def notch_default():
    filtered(lambda o: mod("time").Notch(notch=pos_real("notch"), order=o),
             lambda p, td: [p.notch - td.metadata.fs / 20, p.notch + td.metadata.fs / 20], "bandstop", lambda p, ny: p.notch > ny)


# ------------------------------------------------------------------ the steps of a decimation
PRIME = z3.Function("prime", z3.IntSort(), z3.BoolSort())
FN = "resistics.time.Decimate."
prime = lambda x: SBool(PRIME(iz(x)))
FOLDS = {"product": (1, lambda a, e: num(a) * e), "primes": (True, lambda a, e: And(a, prime(e)))}


@contract("C08", "decimation steps from prime factors", [FN + "_get_downsample_factors"])
def grouping():
    T = mod("time").Decimate
    n, msf = nat("n", 1), nat("msf", 2)
    p = build(T, name="Decimate", factor=nat("factor", 1), max_single_factor=msf)
    P = Product(n, 2, prime)
    eng.folds.update(FOLDS)

    def invariants(s):
        out = {}
        for v, x in s.nums.items():
            out[v, "one or more"] = x >= 1
            out[v, "step"] = Or(x <= msf, prime(x))
            for l, g in s.folds.items():
                out[v, l, "product"] = g["product"] * x == P.G(s.k)
        return out
    eng.loop_invariants = invariants

    def factorised(self, k):
        ensure(num(k) == n, "the factor itself is factorised")
        return P.list
    stages.method(T, "_prime_factorisation", factorised)
    o = attempt(p._get_downsample_factors, n)
    ensure(o.ok, "steps for every factor")
    if not o.ok:
        return
    cover("steps")
    l = o.value
    ensure(loops.fold_of(l.chunks, "product") == n, "the product of the steps is the factor")
    ensure_forall(l.n, lambda i: And(l.get(i) >= 1, Or(l.get(i) <= msf, prime(l.get(i)))), "no step above the maximum single factor unless it is prime")


# -- prime factors: without(n, b) says that n has no divisor d with 2 <= d < b
WITHOUT = z3.Function("without", z3.IntSort(), z3.IntSort(), z3.BoolSort())
without = lambda n, b: SBool(WITHOUT(iz(n), iz(b)))


alike = lambda a, b: not num(num(a) - b).p
even = lambda b: all(c % 2 == 0 for c in num(b).p.values())
divides = lambda c, y: SBool(N.FDIV(iz(y), iz(c)) * iz(c) == iz(y))
args = lambda t: [N.mk(N.p_from(t.arg(i)), "int") for i in range(t.num_args())]
facts = lambda cs: [c.z for c in cs if not isinstance(c, bool)]


def one(t):
    """instances of the lemmas of `divisors` for without(x, b)."""
    x, b = args(t)
    w = SBool(t)
    return facts([Implies(b <= 2, w), Implies(And(b == 3, Not(divides(2, x))), w), Implies(And(w, x == 2), b <= 2),
                  Implies(And(w, b >= 2, x >= 2, divides(b, x)), prime(b)), Implies(And(w, x >= 2, b >= 2, b > N.sqrt(x)), prime(x))])


def two(t, u):
    """and for without(x, b), without(y, c)."""
    out = []
    for t, u in ((t, u), (u, t)):
        (x, b), (y, c), w, v = args(t), args(u), SBool(t), SBool(u)
        if alike(x, y) and (alike(c, b - 1) or alike(c, b - 2) and even(b - 1)):
            out.append(Implies(And(v, c >= 2, Not(divides(c, x))), w))
        if alike(c, b) and not alike(x, y):
            out.append(Implies(And(v, x >= 1, num(x) * b == y), w))
    return facts(out)


@contract("C08", "lemmas on divisors", [])
def divisors():
    """from the definitions: without(n, b): no d, q with 2 <= d < b and d * q = n; prime(n): n >= 2 and without(n, n).
    Each lemma's conclusion is taken at arbitrary d, q; its hypothesis at the d, q named."""
    n, b, d, q, e, m = (sint(v) for v in "nbdqem")
    wo = lambda n, b, d, q: Implies(And(2 <= d, d < b), num(d) * q != n)
    ensure(Implies(b <= 2, wo(n, b, d, q)), "nothing below two")
    ensure(Implies(And(wo(n, b, d, q), wo(n, b, 2, e * q), b >= 3, b == 2 * e), wo(n, b + 1, d, q)), "an even one does not divide an odd number")
    ensure(Implies(And(wo(n, b, d, q), wo(n, b, q, d), n >= 2, b >= 2, num(b) * b > n), wo(n, n, d, q)), "no divisor up to the root: prime")
    ensure(Implies(And(n >= 0, b >= 0, b > N.sqrt(n)), num(b) * b > n), "above the root")
    ensure(Implies(And(0 <= n, n <= b), N.sqrt(n) <= N.sqrt(b)), "order of roots")
    ensure(Implies(And(wo(n, b, d, q * m), b >= 2, n == b * m), wo(b, b, d, q)), "the least divisor is prime")
    ensure(Implies(And(wo(n, b, d, q * m), n == e * m), wo(e, b, d, q)), "divisors of a divisor")
    require(b >= 2)
    ensure(Implies(And(wo(n, b, d, q), n % b != 0), wo(n, b + 1, d, q)), "one more that does not divide")
    cover("lemmas")


@contract("C08", "prime factors", [FN + "_prime_factorisation"], budget=300)
def factorisation():
    T = mod("time").Decimate
    n = nat("n", 1)
    p = build(T, name="Decimate", factor=n, max_single_factor=nat("msf", 2))
    eng.folds.update(FOLDS)
    eng.fn_pairs["sqrt"] = lambda t, u: [z3.Implies(z3.And(x.arg(0) >= 0, x.arg(0) <= y.arg(0)), x <= y) for x, y in ((t, u), (u, t))]
    eng.fn_axioms["prime"] = lambda t: facts([Implies(args(t)[0] == 2, SBool(t)), Implies(And(without(args(t)[0], 3), args(t)[0] > 2, args(t)[0] < 9), SBool(t))])
    eng.fn_axioms["without"], eng.fn_pairs["without"] = one, two

    def invariants(s):
        out = {}
        bs = [(i, st.elem(st.k)) for i, st in enumerate([s] + s.outer) if st.elem is not None]
        for v, x in s.nums.items():
            out[v, "one or more"] = x >= 1
            out[v, "kept"] = x <= s.start[v]
            for i, b in bs + [((i, w), y) for i, st in enumerate([s] + s.outer) for w, y in st.nums.items() if w != v]:
                out[v, i, "without"] = And(b >= 2, without(x, b))
            for l, g in s.folds.items():
                out[v, l, "product"] = g["product"] * x == n
        for l, g in s.folds.items():
            out[l, "primes"] = g["primes"]
        return out

    eng.loop_invariants = invariants
    o = attempt(p._prime_factorisation, n)
    ensure(o.ok, "prime factors of every number")
    if not o.ok:
        return
    cover("factors")
    ensure(loops.fold_of(o.value.chunks, "product") == n, "their product is the number")
    ensure(loops.fold_of(o.value.chunks, "primes"), "each is prime")


def shorter(n, ln, m, q, pf, nx):
    """ln samples left of n by steps of product pf; m of these by a step q."""
    return Implies(And(q >= 1, pf >= 1, q * m >= ln, q * (m - 1) < ln, ln * pf >= n, (ln - 1) * pf < n, nx == pf * q),
                   And(m * nx >= n, (m - 1) * nx < n))


@contract("C08", "lemma on lengths", [])
def lengths():
    n, ln, m, q, pf, nx = (sint(v) for v in ("n", "ln", "m", "q", "pf", "nx"))
    require(And(q >= 1, pf >= 1))
    lemma(Implies(q * m >= ln, q * m * pf >= ln * pf), "from below")
    lemma(Implies(q * (m - 1) < ln, q * (m - 1) * pf <= (ln - 1) * pf), "from above")
    lemma(Implies(nx == pf * q, And(m * nx == m * q * pf, (m - 1) * nx == (m - 1) * q * pf)), "the next product")
    ensure(shorter(n, ln, m, q, pf, nx), "lengths")
    cover("lengths")


@contract("C08", "Decimate", ["resistics.time.Decimate.run"], budget=150)
def decimating():
    T = mod("time").Decimate
    td = time_data()
    n = td.data.shape[1]
    factor, msf = nat("factor", 1), nat("msf", 2)
    p = T(factor=factor, max_single_factor=msf)
    P = Product(factor, 1, lambda f: Or(f <= msf, prime(f)))

    def steps(self, k):
        ensure(num(k) == factor, "steps for the factor")
        ensure(self.max_single_factor == msf, "steps for the maximum")
        return P.list
    stages.method(T, "_get_downsample_factors", steps)
    applied = PList([])
    lib = loader.REG["scipy.signal"]
    real = lib.decimate

    def decimate(x, q, n_=None, ftype="iir", axis=-1, zero_phase=True):
        y = real(x, q, n_, ftype, axis, zero_phase)
        ensure(zero_phase, "without shifting the samples")
        ln, m = x.shape[1], y.shape[1]
        if eng.loop_states:
            k = eng.loop_states[-1].k
            eng.assume(shorter(n, num(ln), num(m), num(q), P.G(k), P.G(k + 1)))
        applied.append(q)
        ensure(x.shape[0] == y.shape[0], "along the samples")
        return y
    eng.folds["product"] = FOLDS["product"]

    def invariants(s):
        out = {}
        for v, L in s.nums.items():
            out[v, "length"] = And(L * P.G(s.k) >= n, (L - 1) * P.G(s.k) < n)
        for l, g in s.folds.items():
            out[l, "product"] = g["product"] == P.G(s.k)
        return out
    eng.loop_invariants = invariants
    lib.decimate = decimate
    try:
        o = attempt(p.run, td)
    finally:
        lib.decimate = real
    ensure(o.ok, "decimated")
    if not o.ok:
        return
    cover("decimated")
    ensure(loops.fold_of(applied.chunks, "product") == factor, "the product of the steps applied is the factor")
    m = o.value.data.shape[1]
    ensure(And(num(m) * factor >= n, (num(m) - 1) * factor < n), "one in every factor samples")
