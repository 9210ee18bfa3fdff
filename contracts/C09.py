from objs import *

D = lambda: mod("decimate")
FN = "resistics.decimate."


def ladder(fs_, k):
    return fs_ / 4 / N.power(num(2), num(k) / 2)


@contract("C09", "number of frequencies", [FN + "get_eval_freqs_size", FN + "get_eval_freqs"])
def size():
    fs_, n = pos_real("fs"), nat("n")
    for o in (attempt(D().get_eval_freqs_size, fs_, n), attempt(D().get_eval_freqs, fs_, n_freqs=n)):
        ensure(o.ok, "a number of frequencies is accepted")
        if o.ok:
            ensure_cells(o.value, lambda k: ladder(fs_, k), "k-th frequency is fs/4 / 2^(k/2)")
            ensure(o.value.n == n, "exactly the requested number")
    cover("done")


@contract("C09", "minimum frequency", [FN + "get_eval_freqs_min", FN + "get_eval_freqs"])
def minimum():
    fs_, f = pos_real("fs"), sreal("f_min")
    direct = decide(sbool("direct"))
    o = attempt(D().get_eval_freqs_min, fs_, f) if direct else attempt(D().get_eval_freqs, fs_, f_min=f, n_freqs=nat("n") if decide(sbool("with_n")) else None)
    if decide(Or(f <= 0, f > fs_ / 4)):
        cover("refused")
        must_fail(o, ValueError, "a minimum that is not positive or above fs/4 is refused")
        return
    ensure(o.ok, "a positive minimum up to fs/4 is accepted")
    if not o.ok:
        return
    r = o.value
    cover("accepted")
    ensure_cells(r, lambda k: ladder(fs_, k), "k-th frequency is fs/4 / 2^(k/2)")
    ensure_forall(r.n, lambda k: ladder(fs_, k) >= f, "no frequency below the minimum")
    q = nat("q")
    branches(lambda: (require(q >= r.n), ensure(ladder(fs_, q) < f, "every ladder frequency not below the minimum is there")))


@contract("C09", "nothing asked", [FN + "get_eval_freqs"])
def nothing():
    must_fail(attempt(D().get_eval_freqs, pos_real("fs")), ValueError, "neither minimum nor number is refused")
