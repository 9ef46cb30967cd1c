#!/opt/venv/bin/python
"""Runs the check of one property:  run.py C01 [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: it is broken.
Exit 2: the check itself failed.
"""
import argparse
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
SOFT = {"quick": 420, "thorough": 3000}
HARD = {"quick": 780, "thorough": 5400}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--unit", help="only this unit (development)")
    ap.add_argument("--scale", type=float, default=1.0, help="factor on case counts (development)")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--worker")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--shards", type=int, default=1)
    ap.add_argument("--n", type=int, default=0)
    ap.add_argument("--deadline", type=float, default=0)
    ap.add_argument("--out")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    prop = a.property.upper()
    seed = int(os.environ.get("VERIF_SEED") or "1")
    from vlib import core
    module = importlib.import_module("checks." + prop.lower())
    units = {u.name: u for u in module.UNITS}
    if a.worker:
        core.run_worker(prop, module, units[a.worker], a.tier, seed, a.shard, a.shards, a.n, a.deadline, a.out)
        return 2
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        code = core.run_replay(prop, module, units[rep["unit"]], a.tier, rep.get("seed", seed), rep["case"],
                               rep.get("history", []), a.out, rep.get("reuse", False))
        if code:
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
        return code
    return run_all(a, prop, seed, module, [u for u in module.UNITS if not a.unit or u.name in a.unit.split(",")])


def run_all(a, prop, seed, module, units):
    t0 = time.time()
    # a worker must not depend on the caller's environment
    environ = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=ROOT, VERIF_SEED=str(seed))
    environ.pop("PYTHONSTARTUP", None)
    jobs = []
    for u in units:
        shards = u.shards[a.tier] if u.gen or u.cases else 1
        total = int(u.n[a.tier] * a.scale)
        for s in range(shards):
            jobs.append((u, s, shards, max(1, total // shards)))
    # long units first
    results, running, errors, violations = [], [], [], []
    deadline = t0 + SOFT[a.tier]
    with tempfile.TemporaryDirectory(prefix="bip38verif.") as tmp:
        queue = list(enumerate(jobs))
        while queue or running:
            while queue and len(running) < a.jobs:
                i, (u, s, shards, n) = queue.pop(0)
                out = os.path.join(tmp, "r%d.json" % i)
                cmd = [PY, os.path.join(ROOT, "run.py"), prop, "--tier", a.tier, "--worker", u.name,
                       "--shard", str(s), "--shards", str(shards), "--n", str(n),
                       "--deadline", repr(deadline), "--out", out]
                err = open(out + ".err", "wb")
                p = subprocess.Popen(cmd, cwd=ROOT, env=environ, stdin=subprocess.DEVNULL,
                                     stdout=err, stderr=err, start_new_session=True)
                err.close()
                running.append((p, u, s, out))
            time.sleep(0.02)
            still = []
            for p, u, s, out in running:
                if p.poll() is None:
                    still.append((p, u, s, out))
                    continue
                if os.path.exists(out):
                    with open(out) as f:
                        r = json.load(f)
                else:
                    with open(out + ".err", "rb") as f:
                        tail = f.read()[-3000:].decode("utf-8", "replace")
                    r = {"unit": u.name, "shard": s, "status": "error",
                         "error": "worker ended with code %s\n%s" % (p.returncode, tail)}
                results.append(r)
                if r["status"] == "error":
                    errors.append(r)
                elif r["status"] == "violation":
                    violations.append(r)
            running = still
            late = time.time() > t0 + HARD[a.tier]
            if violations or late:
                for p, u, s, out in running:
                    stop(p)
                if late and not violations:
                    errors.append({"unit": "-", "error": "out of time: " + ", ".join(u.name for _, u, _, _ in running)})
                running, queue = [], []
    replays = []
    for v in violations[:3]:
        replays.append(save_replay(prop, seed, v, environ))
    write_evidence(a, prop, seed, module, results, len(violations), time.time() - t0, replays)
    known = {}
    for r in results:
        known.update(r.get("known") or {})
    for fid in sorted(known):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, fid, known[fid]))
    for r in errors:
        sys.stderr.write("ERROR in unit %s: %s\n" % (r["unit"], r.get("error")))
    for v, path in zip(violations, replays):
        print("%s [%s]: %s" % (prop, v["unit"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    total = sum(r.get("evaluations", 0) for r in results)
    print("%s %s: %d cases, %.0f s, %s" % (prop, a.tier, total, time.time() - t0,
          "violated" if violations else "error" if errors else "held"))
    if violations:
        return 1
    return 2 if errors else 0


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def save_replay(prop, seed, v, environ):
    import hashlib
    folder = os.path.join(ROOT, "replays")
    os.makedirs(folder, exist_ok=True)
    body = {"property": prop, "unit": v["unit"], "seed": seed, "message": v["msg"], "case": v["case"]}
    if v.get("shard", 0) % 2:
        body["reuse"] = True
    name = hashlib.sha256(json.dumps(v["case"], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(folder, "%s-%s-%s.json" % (prop, v["unit"], name))

    def attempt(case, history):
        with open(path, "w") as f:
            json.dump(dict(body, case=case, history=history), f, indent=1)
        try:
            return subprocess.run([PY, os.path.join(ROOT, "run.py"), prop, "--replay", path], cwd=ROOT, env=environ,
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                  timeout=90).returncode == 1
        except subprocess.TimeoutExpired:
            return False

    # alone first; a failure that depends on what ran before needs its history
    tries = [(v["case"], []), (v["first"], [])] + [(v["first"], v["history"][-k:]) for k in (1, 4, 20, 400)]
    t0 = time.time()
    for case, history in tries:
        if time.time() - t0 > 120:
            break
        if attempt(case, history):
            return path
    with open(path, "w") as f:
        json.dump(dict(body, history=v["history"][-20:], reproduced=False), f, indent=1)
    return path


def write_evidence(a, prop, seed, module, results, violations, wall, replays):
    labels, units, samples, distinct = {}, {}, [], set()
    for r in results:
        u = units.setdefault(r["unit"], {"evaluations": 0, "distinct_nontrivial": 0})
        u["evaluations"] += r.get("evaluations", 0)
        keys = {r["unit"] + "|" + h for h in r.get("distinct", ())}
        distinct |= keys
        for k, n in (r.get("labels") or {}).items():
            name = r["unit"] + ": " + k
            labels[name] = labels.get(name, 0) + n
        for k, n in (r.get("notes") or {}).items():
            if isinstance(n, (int, float)):
                u[k] = u.get(k, 0) + n
            else:
                u[k] = n
        if "fallback" in r:
            u["fallback"] = r["fallback"]
        for s in r.get("samples") or ():
            if sum(1 for x in samples if x["unit"] == r["unit"]) < 3:
                samples.append({"unit": r["unit"], "case": s})
    for name, u in units.items():
        u["distinct_nontrivial"] = sum(1 for k in distinct if k.startswith(name + "|"))
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r.get("evaluations", 0) for r in results),
            "distinct_nontrivial": len(distinct),
            "rule": module.RULE + (" related: histories of two to five such cases that share most of their parts, the first one perhaps repeated at the end."
                                   if any(u.startswith("related") for u in units) else ""),
            "samples": samples,
            "units": units,
            "distribution": dict(sorted(labels.items())),
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    if replays:
        ev["coverage"]["replays"] = replays
    folder = os.path.join(ROOT, "evidence")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
