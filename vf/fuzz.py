"""Coverage-guided driver: atheris mutates the bytes from which Hypothesis builds the case, guided by branch coverage of
the code under test. A failure is then shrunk by Hypothesis."""
import importlib
import json
import os
import sys
import time
import traceback


def main():
    prop, relname, seed, seconds, out = sys.argv[1:6]
    seed, seconds = int(seed), float(seconds)
    from vf import env

    if env.TOOLS not in sys.path:
        sys.path.append(env.TOOLS)
    import atheris

    sys.path.insert(0, env.REPO)
    with atheris.instrument_imports(include=["wampproto"], enable_loader_override=False):
        import pkgutil

        import wampproto

        for m in pkgutil.walk_packages(wampproto.__path__, "wampproto."):
            importlib.import_module(m.name)
    env.setup()
    import random

    random.seed(seed)
    from vf.worker import Recorder, hypothesis_test, known_keys

    mod = importlib.import_module(f"vf.props.{prop.lower()}")
    rel = next(r for r in mod.RELATIONS if r.name == relname)
    rec = Recorder(prop, rel, known_keys(prop))
    test = hypothesis_test(rec, rel, seed, 100)
    fuzz_one = test.hypothesis.fuzz_one_input
    t0 = time.time()

    def finish(error=None):
        r = rec.result()
        r["relation"] = relname
        with open(out + ".tmp", "w", encoding="utf-8", errors="backslashreplace") as f:
            json.dump({"results": [r], "error": error}, f)
        os.replace(out + ".tmp", out)
        os._exit(0)

    def one(data):
        if time.time() - t0 > seconds:
            finish()
        try:
            fuzz_one(data)
        except Exception:
            if rec.failure is None:
                finish(traceback.format_exc())
            shrink(data)
            finish()

    def shrink(data):
        """Re-find and shrink the failure by mutating around the failing buffer within a budget."""
        best, buf = rec.failure, data
        end = time.time() + 30
        progress = True
        while progress and time.time() < end:
            progress = False
            size = max(1, len(buf) // 2)
            while size >= 1 and time.time() < end:
                i = 0
                while i < len(buf) and time.time() < end:
                    for cand in (buf[:i] + buf[i + size:], buf[:i] + b"\0" * min(size, len(buf) - i) + buf[i + size:]):
                        if cand == buf:
                            continue
                        rec.failure = None
                        try:
                            fuzz_one(cand)
                        except Exception:
                            if rec.failure is not None and len(rec.failure[0]) < len(best[0]):
                                best, buf, progress = rec.failure, cand, True
                    i += size
                size //= 2
        rec.failure = best

    corpus = os.path.join(os.path.dirname(out), f"corpus-{os.getpid()}")
    os.makedirs(corpus, exist_ok=True)
    atheris.Setup([sys.argv[0], f"-seed={seed or 1}", "-max_len=8192", "-len_control=20", f"-artifact_prefix={corpus}/", "-verbosity=0", "-print_final_stats=0", "-timeout=300", "-rss_limit_mb=3000", corpus], one)
    atheris.Fuzz()
    finish()


if __name__ == "__main__":
    main()
