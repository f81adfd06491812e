import sys, time, importlib, traceback, json, os
from . import logic as L
from .symex import Exec, Unsupported


def verify(c, lib, reg=None, budget=240.0):
    """returns dict with status: proved | failed | unsupported"""
    t0 = time.time()
    q0 = dict(L.STATS)
    try:
        ex = Exec(c, reg or {}, lib, deadline=t0 + budget)
        ex.run()
    except Unsupported as e:
        return dict(name=c.name, target=c.target, status="unsupported", reason=str(e), t=time.time() - t0, obligations=[])
    except RecursionError as e:
        return dict(name=c.name, target=c.target, status="unsupported", reason="recursion", t=time.time() - t0, obligations=[])
    except Exception as e:  # an engine limitation, never a verdict on the code
        return dict(
            name=c.name, target=c.target, status="unsupported", reason="engine: " + traceback.format_exc()[-900:], t=time.time() - t0, obligations=[]
        )
    fails = []
    for o, st, goal in ex.failed:
        d = o.row()
        if o.res.model is not None:
            d["model"] = str(o.res.model)[:1500]
        d["reason"] = o.res.reason
        fails.append(d)
    return dict(
        name=c.name,
        target=c.target,
        status="failed" if fails else "proved",
        failed=fails,
        obligations=[o.row() for o in ex.obls],
        dropped=[list(map(str, d)) for d in ex.houdini_dropped],
        invariants=[list(map(str, d)) for d in ex.used_inv],
        inlined=sorted(ex.inlined),
        assumed=sorted(ex.assumed),
        exits=ex.exit_paths,
        loops=ex.loops_seen,
        t=time.time() - t0,
        stats={k: L.STATS[k] - q0[k] for k in L.STATS},
    )


def _work(a):
    modname, idx, budget, scale = a
    L.TSCALE = scale
    mod = importlib.import_module("contracts." + modname)
    c = mod.C[idx]
    if hasattr(c, "verify"):
        return c.verify(budget)
    return verify(c, getattr(c, "lib", None) or mod.SPECS, getattr(mod, "REG", {}), budget)


def _child(a, q):
    try:
        q.put(_work(a))
    except BaseException as e:  # noqa
        q.put(dict(name=str(a), target="", status="unsupported", reason="crash " + repr(e)[:300], t=0.0, obligations=[]))


def run_many(items, jobs=8, budget=240.0, scale=1.0):
    """items: [(contract module, index)]; each contract in its own process with a hard time limit"""
    import multiprocessing as mp

    ctx = mp.get_context("fork")
    todo = list(items)
    live = []
    results = {}
    order = list(items)
    nxt = 0
    while todo or live or nxt < len(order):
        while todo and len(live) < jobs:
            it = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_child, args=((it[0], it[1], budget, scale), q), daemon=True)
            p.start()
            live.append((it, p, q, time.time()))
        still = []
        for it, p, q, t0 in live:
            if not q.empty():
                results[it] = q.get()
                p.join(5)
            elif not p.is_alive():
                if not q.empty():
                    results[it] = q.get()
                else:
                    results[it] = _dead(it, "worker died", time.time() - t0)
            elif time.time() - t0 > budget + 20:
                p.kill()
                results[it] = _dead(it, "time budget exhausted (killed)", time.time() - t0)
            else:
                still.append((it, p, q, t0))
        live = still
        while nxt < len(order) and order[nxt] in results:
            yield results[order[nxt]]
            nxt += 1
        time.sleep(0.05)


def _dead(it, why, t):
    mod = importlib.import_module("contracts." + it[0])
    c = mod.C[it[1]]
    return dict(name=c.name, target=c.target, status="unsupported", reason=why, t=t, obligations=[])


if __name__ == "__main__":
    mod = importlib.import_module("contracts." + sys.argv[1])
    names = sys.argv[2:]
    items = [(sys.argv[1], i) for i, c in enumerate(mod.C) if not names or any((n == c.name) if n.endswith("=") else (n in c.name) for n in names) or any(n == c.name + "=" for n in names)]
    for r in run_many(items, budget=float(os.environ.get("BUDGET", "240"))):
        n = len(r["obligations"])
        print(f"{r['name']:40s} {r['status']:12s} obl={n} t={r['t']:.1f} {r.get('reason','')}", flush=True)
        if r["status"] != "proved" or os.environ.get("V"):
            for f in r.get("failed", []):
                print("   FAIL", f["kind"], f["line"], f["label"][:300], f["status"], f.get("reason"))
                if os.environ.get("VV"):
                    print("      ", f.get("model"))
            for d in r.get("dropped", []):
                if not d[0].startswith("auto") or os.environ.get("VV"):
                    print("   dropped", d)
        elif os.environ.get("D"):
            for d in r.get("dropped", []):
                print("   dropped", d)
