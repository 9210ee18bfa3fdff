"""prove.py PROP [--json OUT] : runs the contracts of one property."""
import sys, os, json, time, importlib.util
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def load_contracts(prop):
    from pyvc import spec
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", prop + ".py")
    sys.path.insert(0, os.path.dirname(p))
    s = importlib.util.spec_from_file_location("contract_" + prop, p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return [c for c in spec.CONTRACTS if c.prop == prop]


def work(a):
    prop, i, only = a
    from pyvc import spec
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    c = [c for c in spec.CONTRACTS if c.prop == prop][i]
    try:
        r = spec.run_contract(c)
    except BaseException as e:
        import traceback
        r = dict(prop=prop, contract=c.name, functions=c.functions, status="unsupported", why="crash: " + repr(e) + traceback.format_exc()[-600:],
                 obligations=[], paths=0, solver_time=0, wall=0, covers={}, trusted={}, loops=[])
    return r


def main():
    prop = sys.argv[1]
    out = sys.argv[sys.argv.index("--json") + 1] if "--json" in sys.argv else None
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    names = json.loads(sys.argv[sys.argv.index("--names") + 1]) if "--names" in sys.argv else None
    try:
        cs = load_contracts(prop)
        err = None
    except BaseException as e:
        import traceback
        cs, err = [], traceback.format_exc()[-1500:]
    from pyvc import loader
    import multiprocessing as mp
    idx = [i for i, c in enumerate(cs) if (only is None or only in c.name) and (names is None or c.name in names)]
    if len(idx) > 1:
        with mp.get_context("fork").Pool(min(8, len(idx)), maxtasksperchild=1) as p:
            res = p.map(work, [(prop, i, only) for i in idx], chunksize=1)
    else:
        res = [work((prop, i, only)) for i in idx]
    doc = dict(prop=prop, error=err, contracts=res, sources=loader.SOURCES)
    if out:
        json.dump(doc, open(out, "w"), indent=1, default=str)
    else:
        if err:
            print(err)
        for r in res:
            print(f"== {r['contract']}: {r['status']} {r['why']} paths={r['paths']} wall={r['wall']} solver={r['solver_time']} covers={r['covers']}")
            for o in r["obligations"]:
                mark = "ok " if o["status"] == "proved" else "!! "
                print(f"   {mark}{o['status']:8} x{o['instances']:<3} {o['secs']:.2f}s {o['name']}" + (("\n" + o["detail"]) if o["status"] != "proved" and "-v" in sys.argv else ""))
            if "-l" in sys.argv:
                for l in r["loops"]:
                    print("   loop", l)


if __name__ == "__main__":
    main()
