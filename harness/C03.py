from common import *
from gen import *
from resistics import time as T, sampling as S


def check_part(td, src, a, b, what):
    m, s = td.metadata, src.metadata
    same(td.data.shape, (len(s.chans), b - a + 1), what + ": shape")
    same(np.asarray(td.data), src.data[:, a:b + 1], what + ": samples")
    per = 1 / Fraction(str(s.fs))
    same(m.n_samples, b - a + 1, what + ": number of samples")
    same(secs(m.first_time - s.first_time), a * per, what + ": first time")
    same(secs(m.last_time - s.first_time), b * per, what + ": last time")
    same([m.fs, m.chans, m.n_chans], [s.fs, s.chans, len(s.chans)], what + ": fs and channels")


def put(p, td, fmt):
    m = T.TimeMetadata(**td.metadata.dict())
    for c in m.chans:
        m.chans_metadata[c].data_files = ["data.npy" if fmt == "npy" else "data.txt"]
    if fmt == "npy":
        np.save(p / "data.npy", td.data)
    else:
        nh, delim = fmt
        with open(p / "data.txt", "w") as f:
            for i in range(nh):
                f.write(f"# header {i}\n")
            for row in td.data.T:
                f.write((delim or " ").join(repr(float(x)) for x in row) + "\n")
    (p / "metadata.json").write_text(m.json())
    return m


def ask(rng, m):
    """a from and a to, each by time or sample or not at all; the expected samples."""
    per, n = 1 / Fraction(str(m.fs)), m.n_samples
    kw, ab, bad = {}, [], False
    for side in ("from", "to"):
        how = rng.choice(["none", "sample", "time", "time"])
        if how == "none":
            ab.append(0 if side == "from" else n - 1)
        elif how == "sample":
            k = rng.choice([0, n - 1, n, -1, rng.randrange(n), rng.randrange(n)]) if rng.random() < 0.3 else rng.randrange(n)
            kw[side + "_sample"] = k
            ab.append(k)
            bad |= not 0 <= k < n
        else:
            q = (rng.randrange(-1, n + 1) if rng.random() < 0.3 else rng.randrange(n)) * per + rng.choice([0, 0, per / 2, per / 4])
            t = at(m.first_time, q)
            kw[side + "_time"] = str(t) if "." not in str(t) or len(str(t).split(".")[1]) <= 6 else S.datetime_to_string(t)
            if rng.random() < 0.5:
                kw[side + "_sample"] = rng.randrange(n)   # the time is what counts
            last = (n - 1) * per
            if side == "from":
                bad |= q > last
                ab.append(0 if q <= 0 else -((-q) // per))
            else:
                bad |= q < 0
                ab.append(n - 1 if q >= last else q // per)
    return kw, ab[0], ab[1], bad or ab[0] >= ab[1]


@scenario(weight=2)
def reading_numpy(rng):
    td = time_data(rng, n=rng.randrange(2, 60))
    with Scratch() as p:
        m = put(p, td, "npy")
        kw, a, b, bad = ask(rng, m)
        note(data=describe(td), asked=kw)
        r = T.TimeReaderNumpy(apply_scalings=rng.random() < 0.5)
        if bad:
            refused("range outside or out of order", ValueError, r.run, p, **kw)
            return
        check_part(r.run(p, **kw) if rng.random() < 0.5 else r.run(p, metadata=r.run(p, metadata_only=True), **kw), td, a, b, "read")


@scenario(weight=2)
def reading_ascii(rng):
    td = time_data(rng, n=rng.randrange(2, 40), dtype=np.float32, cs=chans(rng, 2, 5))
    fmt = (rng.randrange(0, 4), rng.choice([None, ","]))
    with Scratch() as p:
        m = put(p, td, fmt)
        kw, a, b, bad = ask(rng, m)
        note(data=describe(td), asked=kw, header_and_delimiter=fmt)
        r = T.TimeReaderAscii(n_header=fmt[0], delimiter=fmt[1])
        if bad:
            refused("range outside or out of order", ValueError, r.run, p, **kw)
            return
        check_part(r.run(p, **kw), td, a, b, "read")


@scenario(weight=3)
def subsection(rng):
    td = time_data(rng, n=rng.randrange(2, 60))
    m = td.metadata
    per, n = 1 / Fraction(str(m.fs)), m.n_samples
    qa, qb = [(rng.randrange(-1, n + 1) if rng.random() < 0.3 else rng.randrange(n)) * per + rng.choice([0, 0, per / 2, per / 4]) for _ in range(2)]
    if qa > qb and rng.random() < 0.8:
        qa, qb = qb, qa
    last = (n - 1) * per
    a, b = 0 if qa <= 0 else -((-qa) // per), n - 1 if qb >= last else qb // per
    ta, tb = [S.datetime_to_string(at(m.first_time, q)) for q in (qa, qb)]
    note(data=describe(td), from_time=ta, to_time=tb)
    f = (lambda: td.subsection(ta, tb)) if rng.random() < 0.5 else (lambda: T.Subsection(from_time=ta, to_time=tb).run(td))
    if qa > last or qb < 0 or a >= b:
        refused("range outside or out of order", ValueError, f)
        return
    check_part(f(), td, a, b, "subsection")
