#!/usr/bin/env python3-vt
"""Check driver:  run.py <property> [quick|thorough]   |   run.py --replay FILE   |   run.py --setup

1. loads the contracts of the property and the functions of /repo they are attached to (current source);
2. generates and discharges every proof obligation (z3, then cvc5 / nlsat), one process per contract;
3. replays every refuted obligation's model on the real code (separate interpreter, real numpy);
4. runs every contract on generated inputs against the real code (cross-check; the only check of 'bounded' contracts).
"""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
PYPY = "/opt/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def prove(k, tier, q, slots):
    t0 = time.time()
    os.setpgid(0, 0)
    out = {"contract": k.name, "targets": k.targets}
    try:
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
        import warnings
        warnings.simplefilter("ignore")
        from pyvc import symctx
        scale = 3 if tier == "thorough" else 1
        sh = symctx.explore(k.fn, budget=k.budget * scale, ob_ms=k.opts.get("ob_ms", 10000) * scale,
                            max_paths=k.opts.get("max_paths", 600), concretize=k.opts.get("concretize", 40),
                            max_branches=k.opts.get("max_branches", 600), branch_ms=k.opts.get("branch_ms", 2000), slots=slots)
        out.update(error=sh.error, trace=getattr(sh, "trace", None), paths=sh.paths, done=sh.done_paths,
                   solver_s=round(sh.solver_s, 3), backends=sh.backends, exc_inputs=getattr(sh, "exc_inputs", None),
                   labels=sorted(l for l in sh.labels), obligations=len(sh.obs),
                   discharged=sum(o.status == "proved" for o in sh.obs),
                   bad=[{"label": o.label, "status": o.status, "detail": o.detail, "inputs": o.inputs}
                        for o in sh.obs if o.status != "proved"])
    except BaseException as e:
        out.update(error="engine: %s: %s" % (type(e).__name__, e), trace=traceback.format_exc(), obligations=0,
                   discharged=0, bad=[], labels=[], paths=0, done=0, solver_s=0, backends={})
    out["wall"] = round(time.time() - t0, 2)
    q.put(json.dumps(out, default=str))


def run_proofs(ks, tier, workers):
    """one process per contract (forking further ones while processors are idle), hard time limit"""
    from pyvc import symctx
    pending, running, res = list(ks), [], {}
    pending.sort(key=lambda k: -k.budget)
    slots = symctx.Slots(workers)
    while pending or running:
        while pending and len(running) < workers and slots.sem.acquire(block=not running, timeout=5):
            k = pending.pop(0)
            q = mp.SimpleQueue()
            slots.new_stop()
            p = mp.Process(target=prove, args=(k, tier, q, slots))
            p.start()
            running.append((k, p, q, time.time()))
        time.sleep(0.02)
        for r in list(running):
            k, p, q, t0 = r
            lim = k.budget * (3 if tier == "thorough" else 1) + 45
            over = time.time() - t0 > lim
            if not q.empty():
                res[k.name] = json.loads(q.get())
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                time.sleep(0.1)
                res[k.name] = json.loads(q.get()) if not q.empty() else dead(k, "engine process ended")
            elif over:
                res[k.name] = dead(k, "time budget exhausted")
            else:
                continue
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.join(5)
            running.remove(r)
            slots.sem.release()
    return res


def dead(k, why):
    return {"contract": k.name, "targets": k.targets, "error": "unsupported: " + why, "obligations": 0, "discharged": 0,
            "bad": [], "labels": [], "paths": 0, "done": 0, "solver_s": 0, "backends": {}, "wall": k.budget + 45}


def pypy(jobs, timeout):
    """run jobs on the real code; chunked over processes"""
    if not jobs:
        return []
    n = min(len(jobs), int(os.environ.get("VERIF_PYPY", "4")))
    chunks = [jobs[i::n] for i in range(n)]
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1")
    ps = []
    for ch in chunks:
        p = subprocess.Popen([PYPY, "-m", "pyvc.concrete"], cwd=HERE, env=env, stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        ps.append((p, ch))
    import threading
    outs = [None] * len(ps)

    def go(i):
        p, ch = ps[i]
        try:
            outs[i] = p.communicate(json.dumps(ch), timeout=timeout)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            outs[i] = p.communicate()[0]
    th = [threading.Thread(target=go, args=(i,)) for i in range(len(ps))]
    [t.start() for t in th]
    [t.join() for t in th]
    res = []
    for o in outs:
        for line in (o or "").splitlines():
            try:
                res.append(json.loads(line))
            except ValueError:
                pass
    return res


def load(prop=None):
    from pyvc import concrete
    return concrete.load_contracts(prop)


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == prop and f.get("status") != "fixed"]


def main(prop, tier):
    t0 = time.time()
    ks = load(prop)
    if not ks:
        print("no contracts for", prop)
        return 2
    kf = {f["contract"]: f for f in known_findings(prop)}
    proofs = [k for k in ks if k.kind == "proof"]
    import threading
    rnd = {}
    trials = {k.name: (k.opts.get("trials") or 150) * (10 if tier == "thorough" else 1) for k in ks}
    sec = 12 if tier == "quick" else 90

    def crosscheck():
        jobs = [{"contract": k.name, "trials": trials[k.name], "seed": SEED, "seconds": sec * (3 if k.kind == "bounded" else 1)}
                for k in ks]
        for r in pypy(jobs, sec * 3 * (len(jobs) / 4.0 + 2) + 60):
            rnd[r["contract"]] = r
    th = threading.Thread(target=crosscheck)
    th.start()
    res = run_proofs(proofs, tier, 7)
    th.join()
    # replay refuted obligations
    jobs = []
    for k in proofs:
        r = res[k.name]
        for i, b in enumerate(r["bad"]):
            if b.get("inputs"):
                jobs.append({"contract": k.name, "inputs": b["inputs"], "id": i})
        if r.get("exc_inputs"):
            jobs.append({"contract": k.name, "inputs": r["exc_inputs"], "id": "exc"})
    rep = {}
    for r in pypy(jobs, 300):
        rep.setdefault(r["contract"], []).append(r)
    violations, unproved, bounded = [], [], []
    extra = []
    for k in ks:
        r = res.get(k.name)
        hit = [x for x in rep.get(k.name, []) if x["status"] in ("fail", "error")]
        rr = rnd.get(k.name)
        if hit:
            lab = r["bad"][hit[0]["id"]]["label"] if isinstance(hit[0]["id"], int) else "no exception escapes"
            violations.append((k, {"obligation": lab, "inputs": hit[0]["inputs"], "observed": hit[0]["info"],
                                   "found_by": "verifier model replayed on the real code"}))
        elif rr and rr.get("first"):
            violations.append((k, {"obligation": (r or {}).get("bad") and r["bad"][0]["label"], "inputs":
                                   rr["first"]["inputs"], "observed": rr["first"]["info"],
                                   "found_by": "contract run on the real code with generated inputs"}))
        elif r and any(b["status"] == "refuted" for b in r["bad"]):
            extra.append(k)
    # refuted without a replayed input: search harder
    if extra and not violations:
        jobs = [{"contract": k.name, "trials": 3000, "seed": SEED + 7777 + s, "seconds": 40} for k in extra for s in range(2)]
        for x in pypy(jobs, 240):
            if x.get("first"):
                k = [k for k in ks if k.name == x["contract"]][0]
                violations.append((k, {"obligation": res[k.name]["bad"][0]["label"], "inputs": x["first"]["inputs"],
                                       "observed": x["first"]["info"],
                                       "found_by": "contract run on the real code with generated inputs"}))
    nofail = []
    if extra and not violations:
        for k in extra:
            nofail.append((k, {"obligation": [b["label"] for b in res[k.name]["bad"]], "solver": res[k.name]["bad"],
                               "observed": "obligation not discharged (solver refutes it); no failing input found"}))
    crashed = []
    for k in ks:
        r = res.get(k.name)
        ok_proof = r is not None and not r["error"] and r["obligations"] > 0 and r["done"] > 0 and not r["bad"]
        rr = rnd.get(k.name)
        if not ok_proof:
            bounded.append({"contract": k.name, "targets": k.targets,
                            "reason": k.note if k.kind == "bounded" else (r or {}).get("error") or
                            "%d obligations undecided" % len((r or {}).get("bad", [])),
                            "bound": "generated inputs: %s accepted of %s, %s checks" % (
                                (rr or {}).get("ok"), (rr or {}).get("trials"), (rr or {}).get("checks"))})
        if rr is None:
            crashed.append(k.name)
    known = []
    for lst in (violations, nofail):
        for v in list(lst):
            if v[0].name in kf:
                f = kf[v[0].name]
                if f.get("match") and f["match"] not in str(v[1].get("observed")):
                    continue
                known.append((v, f))
                lst.remove(v)
    ev = evidence(prop, tier, ks, res, rnd, bounded, violations + nofail, time.time() - t0, rep)
    for f in kf.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    for k in ks:
        r = res.get(k.name)
        rr = rnd.get(k.name) or {}
        print("%-44s %s" % (k.name, ("%d/%d obligations discharged, %d paths, %.1fs%s" % (
            r["discharged"], r["obligations"], r["paths"], r["wall"], (" [%s]" % r["error"]) if r["error"] else ""))
            if r else "bounded") + "; real code: %s runs, %s checks" % (rr.get("ok"), rr.get("checks")))
    if crashed:
        print("note: no real-code run for", ", ".join(crashed))
    if violations or nofail:
        k, v = (violations or nofail)[0]
        path = write_replay(prop, k, v)
        print("violated obligation: %s (%s)" % (v["obligation"], k.name))
        print(str(v["observed"])[:1500])
        tail = "" if violations else " no-failing-input-found"
        print("VIOLATION property=%s replay=%s%s" % (prop, path, tail))
        return 1
    return 0


def write_replay(prop, k, v):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, k.name))
    with open(p, "w") as f:
        json.dump(dict(v, property=prop, contract=k.name, targets=k.targets, statement=(k.fn.__doc__ or "").strip(),
                       reproduce="python3-vt run.py --replay %s" % p), f, indent=1, default=str)
    return p


TRUSTED = [
    "pyvc (verification-condition generator: path-wise symbolic execution of the repository's own Python source)",
    "z3 5.3, cvc5 1.1 (deciding every obligation)",
    "assumed contracts of numpy functions (pyvc/npshim.py, pyvc/arr.py), cross-checked against numpy on the same contracts",
    "assumed contracts of iris and cf_units (stubs/miniris.py, stubs/minicf.py)",
]
ASSUME = [
    "floating point is treated as mathematical reals with a not-a-number flag; integers are unbounded",
    "transcendental functions are uninterpreted with sign, range, monotonicity and Pythagorean axioms",
    "array dimensions are arbitrary; the number of array axes, and the lengths of Python lists, are those stated in each contract",
    "callees without their own contract are executed in place (their real source is part of the proof); "
    "Python's semantics are those of the host interpreter executing the instrumented source",
]


def evidence(prop, tier, ks, res, rnd, bounded, viol, wall, rep):
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    lvl = [c["level"] for c in man["checks"] if c["property"] == prop]
    lvl = lvl[0] if lvl else "proof"
    ob = sum(r["obligations"] for r in res.values())
    di = sum(r["discharged"] for r in res.values())
    back = {}
    for r in res.values():
        for b, n in r["backends"].items():
            back[b] = back.get(b, 0) + n
    bn = {b["contract"] for b in bounded}
    cov = {
        "obligations": ob, "discharged": di,
        "checker_cmd": "python3-vt run.py %s %s" % (prop, tier),
        "trusted_base": TRUSTED,
        "functions_under_contract": sorted({t for k in ks for t in k.targets}),
        "functions_proved": sorted({t for k in ks if k.name not in bn for t in k.targets}),
        "contracts_proved": [k.name for k in ks if k.name not in bn],
        "bounded": bounded,
        "discharged_by": back, "solver_s": round(sum(r["solver_s"] for r in res.values()), 2),
        "paths": sum(r["paths"] for r in res.values()),
        "obligation_labels": sorted({l for r in res.values() for l in r["labels"]})[:200],
        "evaluations": sum((r.get("ok") or 0) for r in rnd.values()),
        "distinct_nontrivial": sum((r.get("distinct") or 0) for r in rnd.values()),
        "rule": "each contract also run on the real code with boundary-biased generated inputs; counted when the "
                "precondition held and the input record was new",
        "samples": [{"contract": r["contract"], "targets": r["targets"], "obligations": r["obligations"],
                     "paths": r["paths"]} for r in list(res.values())[:3]],
        "explanation": "contracts on the functions of /repo; obligations generated from the current source and decided "
                       "by SMT; contracts listed under 'bounded' are only run on generated inputs",
    }
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": lvl, "coverage": cov, "assumptions": ASSUME,
          "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    return ev


def replay(path):
    v = json.load(open(path))
    r = pypy([{"contract": v["contract"], "inputs": v["inputs"], "id": 0}], 300)
    print(json.dumps(r, indent=1)[:4000])
    return 1 if r and r[0]["status"] in ("fail", "error") else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "--setup":
        ks = load()
        print(len(ks), "contracts")
        sys.exit(0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        rc = main(sys.argv[1], tier)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
