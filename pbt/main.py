"""
Run the check of one property.

    python -m pbt.main C01 [--replay FILE] [--tier quick|thorough]
    python -m pbt.main --worker C01 SHARD NSHARDS OUT TIER SEED BUDGET
"""

import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(pid):
    return importlib.import_module(f"pbt.checks.{pid.lower()}").CHECK


def worker(pid, shard, nshards, out, tier, seed, budget):
    from . import core

    def done(result):
        with open(out + ".tmp", "w") as f:
            json.dump(result, f)
        os.rename(out + ".tmp", out)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)

    result = None
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        from . import quiet  # noqa

        chk = load(pid)
        result = core.run_worker(
            chk, tier, int(seed), int(shard), int(nshards), float(budget), done
        )
    except BaseException as e:
        result = {"violation": None, "error": core.describe(e), "stats": None}
    done(result)


def main():
    args = sys.argv[1:]
    if args[0] == "--worker":
        worker(*args[1:])
        return
    pid = args[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--replay" in args:
        from . import core
        from . import quiet  # noqa

        sys.exit(core.replay(load(pid), args[args.index("--replay") + 1]))

    seed = int(os.environ.get("VERIF_SEED") or "1")
    nshards = int(os.environ.get("PBT_SHARDS") or "8")
    budget = float(os.environ.get("PBT_BUDGET") or (200 if tier == "quick" else 3000))
    hard = budget + 300
    started = time.monotonic()
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    tmp = tempfile.mkdtemp(prefix="pbt-run-", dir=base)
    code = 2
    try:
        code = run(pid, tier, seed, nshards, budget, hard, started, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def run(pid, tier, seed, nshards, budget, hard, started, tmp):
    env = dict(os.environ, PBT_SCRATCH=tmp, TMPDIR=tmp)
    procs = []
    for i in range(nshards):
        out = os.path.join(tmp, f"result-{i}.json")
        log = open(os.path.join(tmp, f"log-{i}"), "wb")
        p = subprocess.Popen(
            [sys.executable, "-m", "pbt.main", "--worker", pid, str(i), str(nshards),
             out, tier, str(seed), str(budget)],
            cwd=VERIF, env=env, stdout=log, stderr=subprocess.STDOUT,
            stdin=subprocess.DEVNULL,
        )
        procs.append((p, out, log.name))
        log.close()

    results = {}
    errors = []
    violation = None
    while len(results) < nshards:
        for i, (p, out, log) in enumerate(procs):
            if i in results:
                continue
            rc = p.poll()
            if os.path.exists(out):
                p.wait()
                with open(out) as f:
                    results[i] = json.load(f)
            elif rc is not None:
                with open(log, "rb") as f:
                    tail = f.read()[-4000:].decode("utf-8", "replace")
                results[i] = {
                    "violation": None,
                    "error": f"worker {i} ended with {rc} and no result\n{tail}",
                    "stats": None,
                }
            else:
                continue
            if results[i]["violation"] and violation is None:
                violation = results[i]["violation"]
            if results[i]["error"]:
                errors.append(results[i]["error"])
        if violation is not None:
            break
        if time.monotonic() - started > hard:
            errors.append("ran out of time")
            break
        time.sleep(0.1)
    for p, _, _ in procs:
        if p.poll() is None:
            p.kill()
            p.wait()

    stats = merge([r["stats"] for r in results.values() if r["stats"]])
    sys.path.insert(0, VERIF)
    rule, assumptions, level = describe_check(pid)
    wall = time.monotonic() - started
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "evaluations": stats["evaluations"],
            "distinct_nontrivial": len(stats["nontrivial"]),
            "rule": rule,
            "samples": stats["samples"][:12],
            "classes": dict(sorted(stats["events"].items())),
            "per_test": stats["per_test"],
            "skipped_out_of_budget": stats["skipped"],
            "shards": nshards,
        },
        "assumptions": assumptions,
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{pid}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.rename(path + ".tmp", path)

    for finding, text in sorted(stats["known"].items()):
        print(f"KNOWN-FINDING: property={pid} {finding}: {text}")
    print(
        f"{pid} tier={tier} seed={seed}: {stats['evaluations']} cases,"
        f" {len(stats['nontrivial'])} distinct non-trivial, {wall:.1f} s"
    )
    if os.environ.get("PBT_VERBOSE"):
        for k, v in sorted(stats["events"].items()):
            print(f"   {k}: {v}")
        print("   ", stats["per_test"], "skipped", stats["skipped"])
    if violation:
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        rpath = os.path.join(d, f"{pid}-{violation['test']}.json")
        with open(rpath, "w") as f:
            json.dump(dict(violation, property=pid, seed=seed), f, indent=1)
        print(violation["error"][-3000:])
        print("case:", json.dumps(violation["case"])[:3000])
        print(f"VIOLATION property={pid} replay={rpath}")
        return 1
    if errors:
        print("CHECK ERROR:", errors[0][-6000:])
        return 2
    if stats["evaluations"] == 0:
        print("CHECK ERROR: nothing was run")
        return 2
    return 0


def describe_check(pid):
    # The rule etc. come from the check module, imported in a subprocess-free
    # way: importing it here is safe, workers are separate processes.
    try:
        from . import quiet  # noqa

        chk = load(pid)
        return chk.rule, chk.assumptions, chk.level
    except BaseException:
        return "check module could not be imported", [], "exploration"


def merge(all_stats):
    out = {
        "evaluations": 0, "skipped": 0, "nontrivial": set(), "events": {},
        "samples": [], "known": {}, "per_test": {},
    }
    for s in all_stats:
        out["evaluations"] += s["evaluations"]
        out["skipped"] += s["skipped"]
        out["nontrivial"].update(s["nontrivial"])
        for k in ("events", "per_test"):
            for e, n in s[k].items():
                out[k][e] = out[k].get(e, 0) + n
        out["known"].update(s["known"])
    # A few samples of each test.
    by_test = {}
    for s in all_stats:
        for x in s["samples"]:
            by_test.setdefault(x["test"], []).append(x)
    for xs in by_test.values():
        xs.sort(key=lambda x: len(json.dumps(x)))
        out["samples"].extend(xs[i] for i in sorted({0, len(xs) // 3, 2 * len(xs) // 3}))
    return out


if __name__ == "__main__":
    main()
