"""Check driver: `python -m vf.run ID` (VERIF_TIER, VERIF_SEED) or `python -m vf.run --replay FILE`."""
import collections
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from vf import env

WORKERS = int(os.environ.get("VF_WORKERS", "8"))


def spawn(args, tmp, log):
    e = dict(os.environ)
    e["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(tmp, "hypothesis")
    e["PYTHONHASHSEED"] = "0"
    e.pop("CI", None)
    e.pop("GITHUB_ACTIONS", None)
    return subprocess.Popen(
        [sys.executable, "-X", "pycache_prefix=/nonexistent/pycache", "-m"] + args,
        cwd=env.VERIF, env=e, stdin=subprocess.DEVNULL, stdout=log, stderr=log, start_new_session=True,
    )


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        p.wait(10)
    except Exception:  # noqa: BLE001
        pass


def replay(path):
    env.setup()
    from vf.core import Ctx, Violation, load_case

    with open(path, encoding="utf-8") as f:
        j = json.load(f)
    mod = importlib.import_module(f"vf.props.{j['property'].lower()}")
    rel = next(r for r in mod.RELATIONS if r.name == j["relation"])
    try:
        rel.check(load_case(j["case"]), Ctx(j["property"]))
    except Violation as v:
        print(f"{j['property']} {rel.name}: {v}")
        print(f"VIOLATION property={j['property']} replay={path}")
        return 1
    except Exception as e:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        print(f"{j['property']} {rel.name}: unexpected {type(e).__name__}: {e}")
        print(f"VIOLATION property={j['property']} replay={path}")
        return 1
    print(f"{j['property']} {rel.name}: holds on this case")
    return 0


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        print(f"unknown tier {tier}")
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    limit = float(os.environ.get("VF_LIMIT", "780" if tier == "quick" else "7200"))
    tmp = tempfile.mkdtemp(prefix=f"vf-{prop}-")
    procs, results, errors = [], [], []
    try:
        outs = []
        for i in range(WORKERS):
            out = os.path.join(tmp, f"w{i}.json")
            log = open(os.path.join(tmp, f"w{i}.log"), "w")
            procs.append(spawn(["vf.worker", prop, tier, str(seed), str(i), str(WORKERS), out], tmp, log))
            outs.append(out)
        first_fail = None
        loaded = {}
        while len(loaded) < len(procs):
            for i, p in enumerate(procs):
                if i in loaded or p.poll() is None:
                    continue
                try:
                    with open(outs[i], encoding="utf-8") as f:
                        loaded[i] = json.load(f)
                except (OSError, ValueError) as e:
                    with open(os.path.join(tmp, f"w{i}.log"), errors="replace") as f:
                        loaded[i] = {"results": [], "error": f"worker {i} died: {e}\n{f.read()[-3000:]}"}
                if any(r["failure"] for r in loaded[i]["results"]):
                    first_fail = first_fail or time.time()
            if first_fail and time.time() - first_fail > 5:
                break
            if time.time() - t0 > limit:
                errors.append(f"time limit of {limit:.0f} s reached: inconclusive")
                break
            time.sleep(0.05)
        for p in procs:
            if p.poll() is None:
                kill(p)
        for i in sorted(loaded):
            results += loaded[i]["results"]
            if loaded[i]["error"]:
                errors.append(loaded[i]["error"])
        fuzz_info = []
        if tier == "thorough" and not errors and not any(r["failure"] for r in results):
            fr, fe, fuzz_info = fuzz_stage(prop, seed, tmp, max(60.0, min(1500.0, limit - (time.time() - t0))))
            results += fr
            errors += fe
        return report(prop, tier, seed, t0, results, errors, fuzz_info)
    finally:
        for p in procs:
            kill(p)
        shutil.rmtree(tmp, ignore_errors=True)


def fuzz_stage(prop, seed, tmp, budget):
    """Coverage-guided search (atheris) over the same relations, WORKERS at a time."""
    env.setup()
    mod = importlib.import_module(f"vf.props.{prop.lower()}")
    rels = [r for r in mod.RELATIONS if r.fuzz]
    if not rels:
        return [], [], []
    jobs = []
    n = max(WORKERS, len(rels))
    per = max(20.0, min(float(os.environ.get("VF_FUZZ_SECONDS", "120")), budget / (-(-n // WORKERS))) )
    for k in range(n):
        jobs.append((rels[k % len(rels)].name, k))
    results, errors, info, running = [], [], [], []
    while jobs or running:
        while jobs and len(running) < WORKERS:
            name, k = jobs.pop(0)
            out = os.path.join(tmp, f"f{k}.json")
            log = open(os.path.join(tmp, f"f{k}.log"), "w")
            p = spawn(["vf.fuzz", prop, name, str(seed * 1009 + k), str(per), out], tmp, log)
            running.append((p, name, k, out, time.time()))
        for item in list(running):
            p, name, k, out, t = item
            if p.poll() is None and time.time() - t < per * 3 + 120:
                continue
            kill(p)
            running.remove(item)
            try:
                with open(out, encoding="utf-8") as f:
                    j = json.load(f)
                if j["error"]:
                    errors.append(j["error"])
                results += j["results"]
                info.append({"relation": name, "executions": sum(r["evaluations"] for r in j["results"]), "seconds": round(time.time() - t, 1)})
            except (OSError, ValueError):
                with open(os.path.join(tmp, f"f{k}.log"), errors="replace") as f:
                    info.append({"relation": name, "note": "fuzzer ended without a result", "log": f.read()[-500:]})
        time.sleep(0.2)
    return results, errors, info


def report(prop, tier, seed, t0, results, errors, fuzz_info):
    mod_rule = {}
    env.setup()
    mod = importlib.import_module(f"vf.props.{prop.lower()}")
    per = {}
    failures = []
    excluded = collections.Counter()
    for r in results:
        a = per.setdefault(r["relation"], {"evaluations": 0, "nontrivial": 0, "distinct": set(), "labels": collections.Counter(), "samples": [], "foreign": 0})
        a["evaluations"] += r["evaluations"]
        a["nontrivial"] += r["nontrivial"]
        a["foreign"] += r["foreign"]
        a["distinct"].update(r["distinct"])
        a["labels"].update(r["labels"])
        a["samples"] += r["samples"]
        excluded.update(r["excluded"])
        if r["failure"]:
            failures.append((r["relation"], r["failure"]))
    os.makedirs(os.path.join(env.VERIF, "replays"), exist_ok=True)
    # the smallest reproduction of each relation
    best = {}
    for rel, (case, msg) in failures:
        if rel not in best or len(case) < len(best[rel][0]):
            best[rel] = (case, msg)
    for rel in sorted(best):
        case, msg = best[rel]
        path = os.path.join(env.VERIF, "replays", f"{prop}-{rel}.json")
        with open(path, "w", encoding="utf-8", errors="backslashreplace") as f:
            json.dump({"property": prop, "relation": rel, "case": case, "message": msg, "seed": seed, "tier": tier}, f, indent=1)
        print(f"{prop} {rel}: {msg}")
        print(f"  case: {case if len(case) < 2000 else case[:2000] + '...'}")
        print(f"VIOLATION property={prop} replay={path}")
    samples = []
    for rel in sorted(per):
        for s in per[rel]["samples"][:2]:
            samples.append({"relation": rel, "case": s})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(a["evaluations"] for a in per.values()),
            "distinct_nontrivial": sum(len(a["distinct"]) for a in per.values()),
            "rule": mod.RULE,
            "samples": samples,
            "relations": {
                rel: {
                    "evaluations": a["evaluations"],
                    "nontrivial": a["nontrivial"],
                    "distinct_nontrivial": len(a["distinct"]),
                    "classes": dict(sorted(a["labels"].items())),
                    **({"cases_ended_by_another_property": a["foreign"]} if a["foreign"] else {}),
                }
                for rel, a in sorted(per.items())
            },
            "regression_cases_replayed": sum(1 for r in results if r.get("replayed")),
            "excluded_known_findings": dict(excluded),
            "workers": WORKERS,
            **({"coverage_guided": fuzz_info} if fuzz_info else {}),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(best),
    }
    if getattr(mod, "EXHAUSTIVE_NOTE", None):
        ev["coverage"]["exhaustive_parts"] = mod.EXHAUSTIVE_NOTE
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    from vf.worker import known_keys

    for key, text in sorted(known_keys(prop).items()):
        print(f"KNOWN-FINDING: property={prop} {key}: {text}")
    c = ev["coverage"]
    print(f"{prop} {tier} seed={seed}: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, {len(best)} violations, {ev['wall_s']} s")
    if best:
        return 1
    if errors:
        for e in errors[:3]:
            print("HARNESS ERROR (no verdict):", e)
        return 2
    if c["distinct_nontrivial"] == 0 and not os.environ.get("VF_RELATION"):
        print("HARNESS ERROR (no verdict): no non-trivial case was generated")
        return 2
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.exit(code)
