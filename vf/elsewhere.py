"""Plays cases in an interpreter with other settings: `python FLAGS -m vf.elsewhere MODE`, requests and answers pickled over pipes."""
import gc
import importlib
import os
import pickle
import struct
import subprocess
import sys

from vf import env

CONFIGS = {  # flags, environment, mode
    "-O": (["-O"], {}, ""),
    "-OO": (["-OO"], {}, ""),
    "-O, other hashes": (["-O"], {"PYTHONHASHSEED": "7"}, ""),
    "hash seed 1": ([], {"PYTHONHASHSEED": "1"}, ""),
    "hash seed 4294967295": ([], {"PYTHONHASHSEED": "4294967295"}, ""),
    "C locale, no UTF-8 mode": (["-X", "utf8=0"], {"LC_ALL": "C", "LANG": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "ascii"}, ""),
    "time zone": ([], {"TZ": "Asia/Kolkata"}, ""),
    "development mode": (["-X", "dev", "-W", "ignore"], {}, ""),
    "warnings are errors": (["-W", "error", "-W", "ignore::DeprecationWarning"], {}, ""),
    "isolated": (["-I"], {}, ""),
    "garbage collected all the time": ([], {}, "gc"),
    "no garbage collection": ([], {}, "nogc"),
    "not the main thread": ([], {}, "thread"),
    "no standard streams": ([], {}, "streams"),
    "embedded": ([], {}, "argv"),
}
BOOT = "import sys; sys.path.insert(0, {verif!r}); from vf import elsewhere; elsewhere.serve({mode!r})"
children = {}


def child(config, fresh=False):
    if fresh:
        return start(config)
    if config not in children:
        children[config] = start(config)
    return children[config]


def start(config):
    flags, more, mode = CONFIGS[config]
    e = {**os.environ, **more, "PYTHONDONTWRITEBYTECODE": "1"}
    return subprocess.Popen(
        [sys.executable, "-B", *flags, "-c", BOOT.format(verif=env.VERIF, mode=mode)],
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd=env.VERIF,
    )


def put(f, v):
    data = pickle.dumps(v)
    f.write(struct.pack("!Q", len(data)) + data)
    f.flush()


def get(f):
    head = f.read(8)
    if len(head) < 8:
        return None
    return pickle.loads(f.read(struct.unpack("!Q", head)[0]))


def ask(p, who, inner):
    """None: as it should be; a text: what was wrong. EOFError: the interpreter died."""
    put(p.stdin, (who, inner))
    answer = get(p.stdout)
    if answer is None:
        raise EOFError(f"exit code {p.wait(10)}")
    return answer[0]


def stop(p):
    p.kill()
    p.stdin.close()
    p.stdout.close()
    p.wait(10)


def serve(mode):
    incoming, outgoing = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    null = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(null, fd)
    if mode == "streams":
        sys.stdin = sys.stdout = sys.stderr = sys.__stdin__ = sys.__stdout__ = sys.__stderr__ = None
    if mode == "argv":
        del sys.argv
    env.setup()
    judges = importlib.import_module("vf.props.c37").JUDGES
    from vf.core import Ctx, attempt

    if mode == "gc":
        gc.set_threshold(1, 1, 1)
    if mode == "nogc":
        gc.disable()

    def play(who, inner):
        s, v = attempt(judges[who][1], inner, Ctx("C37"))
        return None if s == "ok" else f"{type(v).__name__}: {v}"[:2000]

    def answer(who, inner):
        if mode != "thread":
            return play(who, inner)
        import threading

        out = []
        t = threading.Thread(target=lambda: out.append(play(who, inner)))
        t.start()
        t.join()
        return out[0]

    while (request := get(incoming)) is not None:
        put(outgoing, (answer(*request),))
    outgoing.flush()
    os._exit(0)
