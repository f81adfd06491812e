#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current working tree.

Layer A  deductive: every contract listed for the property in plan.py is re-verified from /repo's source.
Layer B  bounded:   contracts of functions outside the verifier's reach, evaluated on the real code (stated bound).
"""
import sys, os, json, time, subprocess, tempfile, shutil, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")
PY = "/opt/venv/bin/python"
EVID = os.environ.get("PYVC_EVID", os.path.join(HERE, "evidence"))


def env_for_repo():
    e = dict(os.environ)
    e["PATH"] = "/opt/venv/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["MPLBACKEND"] = "Agg"
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONPATH"] = HERE + ":" + REPO
    e.setdefault("HOME", "/root")
    e["NUMBA_NUM_THREADS"] = "2"
    e["PYTHONWARNINGS"] = "ignore"
    return e


def ensure_version():
    p = os.path.join(REPO, "riptable", "_version.py")
    if not os.path.exists(p):
        with open(p, "w") as f:
            f.write("__version__ = '1.19.0'\n")


class Bounded:
    """runs the sections of one bounded module in parallel processes"""

    def __init__(self, mod, sections, seed, tier, budget, work, jobs):
        self.mod, self.seed, self.tier, self.budget, self.work, self.jobs = mod, seed, tier, budget, work, jobs
        self.todo = list(sections)
        self.live = []
        self.done = []

    def pump(self):
        while self.todo and len(self.live) < self.jobs:
            s = self.todo.pop(0)
            tag = f"{self.mod}_{s}_{self.seed}_{self.tier}".replace("/", "_")
            out, cur, log = (os.path.join(self.work, tag + x) for x in (".json", ".cur", ".log"))
            lf = open(log, "w")
            p = subprocess.Popen(
                [PY, "-m", "bounded.common", self.mod, s, str(self.seed), self.tier, str(self.budget), out, cur],
                cwd=self.work,
                env=env_for_repo(),
                stdout=lf,
                stderr=subprocess.STDOUT,
            )
            self.live.append((s, p, out, cur, log, time.time()))
        still = []
        for s, p, out, cur, log, t0 in self.live:
            rc = p.poll()
            if rc is None:
                if time.time() - t0 > self.budget * 2 + 180:
                    p.kill()
                    self.done.append(dict(section=s, evals=0, distinct=0, failures=[], samples=[], error=None, t=time.time() - t0, bound="", timeout=True))
                else:
                    still.append((s, p, out, cur, log, t0))
                continue
            if os.path.exists(out):
                with open(out) as f:
                    self.done.append(json.load(f))
            else:
                txt = open(log).read()[-3000:]
                at = open(cur).read() if os.path.exists(cur) else ""
                died = rc < 0
                r = dict(section=s, evals=0, distinct=0, failures=[], samples=[], error=None, t=time.time() - t0, bound="")
                if rc == -9:
                    r["timeout"] = True  # memory limit or external kill: no verdict
                elif died:
                    r["failures"] = [{"key": f"{s}/process-died", "detail": f"the process died with signal {-rc} while running {at}\n{txt}"}]
                else:
                    r["error"] = f"rc={rc} at {at}\n{txt}"
                self.done.append(r)
        self.live = still
        return bool(self.live or self.todo)


def list_sections(mod):
    r = subprocess.run([PY, "-m", "bounded.common", "--list", mod], cwd="/tmp", env=env_for_repo(), capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr[-3000:]
    return json.loads(r.stdout.strip().split("\n")[-1]), ""


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import plan

    P = plan.PLAN[pid]
    ensure_version()
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="pyvc_")
    try:
        return decide(pid, P, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [x for x in d.get("findings", []) if x["property"] == pid]


def decide(pid, P, tier, seed, work, t0):
    import importlib
    from pyvc import driver
    import plan

    quick_total = 560 if tier == "quick" else 3000
    # ---------------- layer B starts in the background
    bounded = None
    bmods = P.get("bounded")
    secs = []
    blist_err = ""
    if bmods:
        m, blist_err = list_sections(bmods)
        if m is None:
            # the package cannot even be imported from the bounded module
            secs = []
        else:
            secs = list(m)
            bounded = Bounded(bmods, secs, seed, tier, P.get("budget", 60) * (1 if tier == "quick" else 6), work, P.get("jobs", 4))
            bounded.pump()
    # ---------------- layer A
    items = []
    for modname, names in P.get("contracts", []):
        mod = importlib.import_module("contracts." + modname)
        for i, c in enumerate(mod.C):
            if names is None or c.name in names:
                items.append((modname, i))
    results = []
    nitems = 0
    if items:
        gen = driver.run_many(items, jobs=max(2, 8 - (len(bounded.live) if bounded else 0)), budget=P.get("abudget", 200) * (1 if tier == "quick" else 3))
        for r in gen:
            results.append(r)
            if bounded:
                bounded.pump()
    nitems = len(results)
    extra_tables = []
    for fn in P.get("extra", []):
        modname, fname = fn.split(":")
        mod = importlib.import_module(modname)
        try:
            results += getattr(mod, fname)(tier)
        except Exception:
            results.append(dict(name=fn, target=fn, status="unsupported", reason="engine: " + traceback.format_exc()[-800:], t=0.0, obligations=[]))
    if bounded:
        while bounded.pump():
            time.sleep(0.1)
    # a proof attempt that did not go through is repeated alone and with larger solver limits before it counts: a loaded
    # machine must not turn a slow proof into an alarm
    again = [k for k in range(nitems) if results[k]["status"] == "failed"]
    left = quick_total * 0.6 - (time.time() - t0)
    if again and left > 40 and not any(d["failures"] for d in (bounded.done if bounded else [])):
        for k, r in zip(again, driver.run_many([items[k] for k in again], jobs=8, budget=left, scale=4.0)):
            if r["status"] == "proved":
                results[k] = r
    failed = [r for r in results if r["status"] == "failed"]
    undecided = [r for r in results if r["status"] == "unsupported"]
    bdone = bounded.done if bounded else []
    bfail = [f for d in bdone for f in d["failures"]]
    berr = [d for d in bdone if d.get("error")]
    # ---------------- deeper bounded search when something is not proved
    if (failed or undecided) and not bfail and bounded and time.time() - t0 < quick_total * 0.75:
        os.environ["PYVC_FOCUS"] = " ".join(r["name"] for r in failed + undecided)
        for k in range(1, 4):
            left = quick_total - (time.time() - t0)
            if left < 60:
                break
            b2 = Bounded(bmods, secs, seed * 1000 + k, tier, min(P.get("budget", 60), left / 3), work, 8)
            while b2.pump():
                time.sleep(0.1)
            bdone += b2.done
            bfail = [f for d in b2.done for f in d["failures"]]
            if bfail:
                break
    known = known_findings(pid)
    kk = {x["key"]: x for x in known if x.get("status") != "fixed"}
    new = [f for f in bfail if f["key"] not in kk]
    seen_known = sorted({f["key"] for f in bfail if f["key"] in kk})
    for x in kk.values():
        print(f"KNOWN-FINDING: property={pid} {x['what']}" + ("" if x["key"] in seen_known else " (not reproduced in this run)"))
    obl = [o for r in results for o in r["obligations"]]
    disch = [o for o in obl if o["status"] == "proved"]
    # vacuity guards
    vac = [r["name"] for r in results if r["status"] == "proved" and (not r["obligations"] or r.get("exits", 1) == 0)]
    nviol = 0
    lines = []
    rp = os.path.join(EVID, "replay", f"{pid}.json")
    if os.path.exists(rp):
        os.unlink(rp)
    if new:
        nviol = len(new)
        with open(rp, "w") as f:
            json.dump(dict(property=pid, failing_inputs=new, failed_obligations=[dict(fn=r["name"], failed=r["failed"]) for r in failed], seed=seed, tier=tier), f, indent=1)
        lines.append(f"VIOLATION property={pid} replay={rp}")
        for x in new[:5]:
            print("failing input:", x["key"], "\n", x["detail"][:1500])
    elif failed:
        nviol = len(failed)
        with open(rp, "w") as f:
            json.dump(dict(property=pid, failed_obligations=[dict(fn=r["name"], target=r["target"], failed=r["failed"], dropped_invariants=r["dropped"]) for r in failed], seed=seed, tier=tier), f, indent=1)
        lines.append(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
    for r in failed:
        for f in r["failed"][:4]:
            print(f"failed obligation: {r['name']} [{f['kind']}] line {f['line']}: {f['label'][:200]} ({f['status']})")
    for r in undecided:
        print(f"UNDECIDED: {r['name']} not brought within the verifier's reach in this tree ({r['reason'][:300]}); bounded stand-in used")
    for d in berr:
        print(f"UNDECIDED: bounded section {d['section']} could not run: {d['error'][-600:]}")
    if blist_err:
        print("UNDECIDED: bounded module could not be loaded:", blist_err[-800:])
    for d in bdone:
        if d.get("timeout"):
            print(f"UNDECIDED: bounded section {d['section']} exceeded its time limit")
    if vac:
        print("UNDECIDED: vacuous contracts", vac)
    solver_t = sum(r.get("stats", {}).get("time", 0.0) for r in results)
    backends = {}
    for o in disch:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    assumptions = list(plan.COMMON_ASSUMPTIONS) + P.get("assumptions", []) + sorted({a for r in results for a in r.get("assumed", [])})
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level=P.get("level", "proof"),
        coverage=dict(
            obligations=len(obl),
            discharged=len(disch),
            checker_cmd=f"python3-vt /verif/check.py {pid}",
            trusted_base=list(plan.TRUSTED_BASE) + P.get("trusted", []),
            functions_under_contract=[r["target"] for r in results if r["status"] == "proved"],
            functions_failed=[r["target"] for r in failed],
            functions_undecided=[dict(fn=r["target"], reason=r["reason"][:300]) for r in undecided],
            obligations_by_kind=count(obl, "kind"),
            discharged_by_backend=backends,
            solver_seconds=round(solver_t, 2),
            per_function={r["name"]: dict(obligations=len(r["obligations"]), seconds=round(r["t"], 2), loops=r.get("loops"), inlined=r.get("inlined")) for r in results},
            bounded=dict(
                label="bounded: evaluated on generated inputs, not proved",
                evaluations=sum(d["evals"] for d in bdone),
                distinct_nontrivial=sum(d["distinct"] for d in bdone),
                rule="contract of the public function evaluated on generated inputs; distinct by (contract, expected value)",
                sections=[dict(section=d["section"], evaluations=d["evals"], distinct=d["distinct"], bound=d.get("bound"), samples=d["samples"][:2], seconds=round(d["t"], 1)) for d in bdone],
            ),
        ),
        assumptions=assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=nviol,
    )
    if P.get("level") == "exploration":
        ev["coverage"]["evaluations"] = ev["coverage"]["bounded"]["evaluations"]
        ev["coverage"]["distinct_nontrivial"] = ev["coverage"]["bounded"]["distinct_nontrivial"]
        ev["coverage"]["rule"] = ev["coverage"]["bounded"]["rule"]
        ev["coverage"]["samples"] = [s for d in bdone for s in d["samples"]][:6]
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {len(disch)}/{len(obl)} obligations discharged over {len(results)} contracts; bounded evaluations {ev['coverage']['bounded']['evaluations']}; {ev['wall_s']} s")
    for ln in lines:
        print(ln)
    return 1 if lines else 0


def count(xs, k):
    d = {}
    for x in xs:
        d[x[k]] = d.get(x[k], 0) + 1
    return d


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
