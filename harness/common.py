"""Runs contracts on the real code: generators of inputs and a checker.  Every case is
identified by (scenario, seed) so that a failing one can be replayed alone."""
import sys, os, types, json, random, time, signal, traceback, hashlib
sys.dont_write_bytecode = True
REPO = os.environ.get("PV_REPO", "/repo")
sys.path.insert(0, REPO)


def _stub_sklearn():
    """sklearn is not installed here; resistics only needs the names to import and an
    estimator with fit/coef_, which scenarios provide themselves."""
    try:
        import sklearn.base  # noqa
        return
    except ImportError:
        pass
    sk = types.ModuleType("sklearn")
    sk.__path__ = []
    for n in ("base", "linear_model", "preprocessing"):
        m = types.ModuleType("sklearn." + n)
        setattr(sk, n, m)
        sys.modules["sklearn." + n] = m
    sys.modules["sklearn"] = sk

    class BaseEstimator:
        pass
    sk.base.BaseEstimator = BaseEstimator


_stub_sklearn()
from loguru import logger  # noqa
logger.remove()
import warnings  # noqa
import tqdm as _tqdm  # noqa
_tqdm.tqdm = lambda x, *a, **k: x   # no progress bars
warnings.simplefilter("ignore")
import numpy as np  # noqa

SCENARIOS = []


class Broken(Exception):
    """a postcondition does not hold."""


class Skip(Exception):
    """the case is outside the property's domain."""


class TimeUp(BaseException):
    pass


NOTES = {}


def scenario(weight=1, limit=None, once=False):
    """limit: at most so many cases; once: a single case (no randomness)."""
    def deco(f):
        SCENARIOS.append((f.__name__, f, weight, 1 if once else limit))
        return f
    return deco


def note(**kw):
    for k, v in kw.items():
        NOTES[k] = show(v)


def show(v, n=400):
    try:
        s = repr(v)
    except Exception as e:
        s = f"<{type(v).__name__}: {e}>"
    return s if len(s) <= n else s[:n] + "..."


def check(c, what, **kw):
    if not bool(c):
        note(**kw)
        raise Broken(what)


def same(a, b, what, **kw):
    if not _eq(a, b):
        raise Broken(f"{what}: got {show(a, 200)}, expected {show(b, 200)}")


def _eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fc" and b.dtype.kind in "fciu" or b.dtype.kind in "fc":
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(_eq(v, b[k]) for k, v in a.items())
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return bool(a == b)


def close(a, b, what, rtol=1e-9, atol=0.0, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Broken(f"{what}: shape {a.shape}, expected {b.shape}")
    if a.size == 0:
        return
    s = scale if scale is not None else float(np.nanmax(np.abs(b))) if b.size and not np.all(np.isnan(b)) else 0.0
    ok = np.abs(a - b) <= atol + rtol * np.abs(b) + rtol * s
    ok = ok | (np.isnan(a) & np.isnan(b)) | (a == b)
    if not bool(np.all(ok)):
        i = tuple(int(x) for x in np.argwhere(~np.atleast_1d(ok))[0])
        raise Broken(f"{what}: at {i} got {np.atleast_1d(a)[i]!r}, expected {np.atleast_1d(b)[i]!r}")


def refused(what, types, fn, *a, **k):
    try:
        r = fn(*a, **k)
    except types:
        return
    except Exception as e:
        raise Broken(f"{what}: raised {type(e).__name__} ({e}) instead of {names(types)}")
    raise Broken(f"{what}: accepted, returned {show(r, 120)}")


def names(ts):
    return "/".join(t.__name__ for t in ts) if isinstance(ts, tuple) else ts.__name__


# ------------------------------------------------------------------ frames
def freeze(v, depth=0):
    """an independent picture of a value's whole state."""
    if depth > 12:
        return "..."
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("arr", v.shape, tuple(freeze(x, depth + 1) for x in v.ravel()))
        return ("arr", v.shape, str(v.dtype), hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest())
    if isinstance(v, dict):
        return ("dict", tuple((freeze(k, depth + 1), freeze(x, depth + 1)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(x, depth + 1) for x in v))
    if isinstance(v, (str, int, float, complex, bool, bytes, type(None), type)):
        return (type(v).__name__, repr(v))
    if isinstance(v, np.generic):
        return ("np", repr(v))
    if isinstance(v, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, v))))
    try:
        import pandas as pd
        if isinstance(v, (pd.DataFrame, pd.Series, pd.Index)):
            return ("pd", v.to_json() if not isinstance(v, pd.Index) else repr(list(v)))
    except ImportError:
        pass
    import pathlib
    if isinstance(v, pathlib.PurePath):
        return ("path", str(v))
    d = getattr(v, "__dict__", None)
    if d is not None and type(v).__module__.startswith("resistics"):
        return (type(v).__name__, tuple((k, freeze(x, depth + 1)) for k, x in sorted(d.items()) if not k.startswith("__")))
    return (type(v).__name__, repr(v) if "object at 0x" not in repr(v) else "")


def mutables(v, out=None, depth=0):
    """identities of the mutable containers and arrays reachable from v."""
    out = {} if out is None else out
    if depth > 12 or id(v) in out:
        return out
    if isinstance(v, np.ndarray):
        out[id(v)] = v
        return out
    if isinstance(v, dict):
        out[id(v)] = v
        for x in v.values():
            mutables(x, out, depth + 1)
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list):
            out[id(v)] = v
        for x in v:
            mutables(x, out, depth + 1)
    elif type(v).__module__.startswith("resistics") and hasattr(v, "__dict__"):
        out[id(v)] = v
        for x in vars(v).values():
            mutables(x, out, depth + 1)
    return out


def disjoint(a, b, what):
    ma, mb = mutables(a), mutables(b)
    for i, o in ma.items():
        if i in mb:
            raise Broken(f"{what}: both reach the same {type(o).__name__}")
    xs = [o for o in ma.values() if isinstance(o, np.ndarray)]
    ys = [o for o in mb.values() if isinstance(o, np.ndarray)]
    for x in xs:
        for y in ys:
            if x.size and y.size and np.may_share_memory(x, y):
                raise Broken(f"{what}: arrays share memory")


# --------------------------------------------------------------- file space
class Scratch:
    """a directory of its own, removed afterwards."""

    def __enter__(self):
        import tempfile, pathlib
        self.path = pathlib.Path(tempfile.mkdtemp(prefix="pvh_"))
        return self.path

    def __exit__(self, *a):
        import shutil
        shutil.rmtree(self.path, ignore_errors=True)


def tree(p):
    """every file below p with its content."""
    out = {}
    for r, ds, fs in os.walk(p):
        for d in ds:
            out[os.path.relpath(os.path.join(r, d), p) + "/"] = None
        for f in fs:
            q = os.path.join(r, f)
            out[os.path.relpath(q, p)] = open(q, "rb").read()
    return out


# ------------------------------------------------------------------- running
def run_case(f, name, seed, secs=30):
    NOTES.clear()

    def alarm(*_):
        raise TimeUp()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, secs)
    rng = random.Random(f"{name}:{seed}")
    np.random.seed(rng.randrange(2 ** 32))
    try:
        f(rng)
        return None
    except Skip:
        return "skip"
    except Broken as e:
        msg = str(e)
    except TimeUp:
        msg = f"no answer within {secs} s"
        return dict(scenario=name, seed=seed, message=msg, inputs=dict(NOTES), kind="timeout")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(t.filename)}:{t.lineno}:{t.name}" for t in tb if "/resistics/" in t.filename]
        if isinstance(e, (AttributeError, ImportError)) and not where and ("module 'resistics" in str(e) or isinstance(e, ImportError)
                                                                           or "type object" in str(e)):
            return "skip"   # the harness names something this tree does not have: not a behaviour
        msg = f"unexpected {type(e).__name__}: {e} at {' > '.join(where[-3:]) or 'result'}"
        return dict(scenario=name, seed=seed, message=msg, inputs=dict(NOTES), kind="exception", trace=traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return dict(scenario=name, seed=seed, message=msg, inputs=dict(NOTES), kind="broken")


def run_all(seed, budget, only=None, start=0, maxfail=5):
    """round robin over the scenarios until the budget is used or all limits reached."""
    t0 = time.time()
    sc = [s for s in SCENARIOS if only is None or s[0] == only]
    done = {s[0]: 0 for s in sc}
    skipped = {s[0]: 0 for s in sc}
    shown, fails, distinct = {}, [], set()
    live = list(sc)
    failed = {}
    while live and time.time() - t0 < budget:
        for s in list(live):
            name, f, w, lim = s
            for _ in range(w):
                i = done[name]
                if lim is not None and i >= lim:
                    live.remove(s)
                    break
                done[name] += 1
                r = run_case(f, name, f"{seed}.{start + i}")
                if r == "skip":
                    skipped[name] += 1
                    continue
                if isinstance(r, dict) and r["kind"] == "timeout" and False:
                    continue
                distinct.add((name, json.dumps(NOTES, sort_keys=True)))
                if len(shown) < 6 and NOTES and name not in shown:
                    shown[name] = dict(NOTES)
                if r is not None:
                    fails.append(r)
                    failed[name] = failed.get(name, 0) + 1
                    if failed[name] >= 2:
                        live.remove(s)
                    break
            if len(fails) >= maxfail or time.time() - t0 > budget:
                break
        if len(fails) >= maxfail:
            break
    return dict(evaluations=sum(done.values()) - sum(skipped.values()), distinct=len(distinct), per_scenario=done, skipped=skipped,
                samples=[dict(scenario=k, inputs=v) for k, v in shown.items()], failures=fails, wall=round(time.time() - t0, 2))
