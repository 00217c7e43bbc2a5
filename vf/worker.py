"""One worker process: runs the relations of one property on its share of the cases."""
import collections
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

from vf import env

NOT_THE_CODE = (MemoryError, OSError, ImportError)


def known_keys(prop):
    """Keys of recorded, unrepaired findings of this property: lines 'finding: property=ID key=KEY text'."""
    keys = {}
    try:
        with open(os.path.join(env.VERIF, "KNOWN_FINDINGS.txt"), encoding="utf-8") as f:
            for line in f:
                p = line.split()
                if len(p) >= 3 and p[0] == "finding:" and p[1] == f"property={prop}" and p[2].startswith("key="):
                    keys[p[2][4:]] = " ".join(p[3:])
    except OSError:
        pass
    return keys


class Recorder:
    def __init__(self, prop, rel, known):
        self.prop, self.rel, self.known = prop, rel, known
        self.evaluations = 0
        self.nontrivial = 0
        self.distinct = set()
        self.labels = collections.Counter()
        self.samples = []
        self.failure = None
        self.excluded = collections.Counter()
        self.foreign = 0

    def run(self, case):
        from vf.core import Ctx, HarnessError, Violation, clone, dump_case

        self.evaluations += 1
        text = dump_case(case)
        ctx = Ctx(self.prop)
        try:
            self.rel.check(clone(case), ctx)
        except HarnessError:
            raise
        except Violation as v:
            if v.key is not None and v.key in self.known:
                self.excluded[v.key] += 1
                return
            if v.tags is not None and self.prop not in v.tags:
                self.foreign += 1  # another property's matter; the rest of this case says nothing
                return
            self.failure = (text, str(v))
            raise
        except NOT_THE_CODE:
            raise
        except Exception as e:
            # The harness only drives the public API with inputs from the documented domain, so an exception that
            # nothing expected is the code's answer to such an input.
            self.failure = (text, f"unexpected {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-6))
            raise
        for x in ctx.labels:
            self.labels[x] += 1
        if ctx.nontrivial:
            self.nontrivial += 1
            h = hashlib.blake2b(text.encode("utf-8", "backslashreplace"), digest_size=8).digest()
            if h not in self.distinct:
                self.distinct.add(h)
                n = len(self.distinct)
                if n in (1, 7, 40, 200) and len(self.samples) < 4:
                    self.samples.append(text if len(text) <= 1500 else text[:1500] + f"...({len(text)} chars)")

    def result(self):
        return {
            "relation": self.rel.name,
            "evaluations": self.evaluations,
            "nontrivial": self.nontrivial,
            "distinct": [h.hex() for h in self.distinct],
            "labels": dict(self.labels),
            "samples": self.samples,
            "failure": self.failure,
            "excluded": dict(self.excluded),
            "foreign": self.foreign,
        }


def hypothesis_test(rec, rel, seed, n):
    import hypothesis
    import hypothesis.internal.conjecture.engine as engine
    from hypothesis import HealthCheck, Phase

    engine.MAX_SHRINKING_SECONDS = 60
    settings = hypothesis.settings(
        max_examples=max(1, n),
        deadline=None,
        database=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        phases=[Phase.generate] if os.environ.get("VF_NOSHRINK") else [Phase.generate, Phase.shrink],
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
    )

    @hypothesis.seed(seed)
    @settings
    @hypothesis.given(rel.strategy())
    def test(case):
        rec.run(case)

    return test


def run_relation(prop, rel, seed, n, known, tier, index, nworkers):
    rec = Recorder(prop, rel, known)
    if rel.cases is not None:
        for k, case in enumerate(rel.cases(tier)):
            if k % nworkers == index:
                try:
                    rec.run(case)
                except Exception:
                    if rec.failure is None:
                        raise
                    break
        return rec
    test = hypothesis_test(rec, rel, seed, n)
    try:
        test()
    except Exception:
        if rec.failure is None:
            raise
    return rec


def main():
    prop, tier, seed, index, nworkers, out = sys.argv[1:7]
    seed, index, nworkers = int(seed), int(index), int(nworkers)
    env.setup()
    import random

    random.seed(seed * 1000 + index)
    mod = importlib.import_module(f"vf.props.{prop.lower()}")
    known = known_keys(prop)
    results, error = [], None
    t0 = time.time()
    only = os.environ.get("VF_RELATION")
    scale = float(os.environ.get("VF_SCALE", "1"))
    try:
        if index == 0:
            from vf.core import load_case

            d = os.path.join(env.VERIF, "regressions", prop)
            for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
                with open(os.path.join(d, f), encoding="utf-8") as fh:
                    j = json.load(fh)
                rel = next((r for r in mod.RELATIONS if r.name == j["relation"]), None)
                if rel is None:
                    raise RuntimeError(f"regression {f}: no relation {j['relation']}")
                rec = Recorder(prop, rel, known)
                try:
                    rec.run(load_case(j["case"]))
                except Exception:
                    if rec.failure is None:
                        raise
                r = rec.result()
                r["replayed"] = f
                results.append(r)
        failed = any(r["failure"] for r in results)
        for k, rel in enumerate(mod.RELATIONS):
            if failed or (only and rel.name != only) or (rel.once and index != k % nworkers):
                continue
            total = rel.quick if tier == "quick" else rel.thorough
            n = total if rel.once else -(-int(total * scale) // nworkers)
            rec = run_relation(prop, rel, seed * 100003 + index * 101 + k, n, known, tier, index, nworkers)
            results.append(rec.result())
            failed = rec.failure is not None
    except BaseException:
        error = traceback.format_exc()
    with open(out + ".tmp", "w", encoding="utf-8", errors="backslashreplace") as f:
        json.dump({"results": results, "error": error, "wall": time.time() - t0}, f)
    os.replace(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
