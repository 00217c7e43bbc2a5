"""Sans-IO: nothing but answers comes out, and nothing but calls goes in."""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from vf import env, router_machine as rm, session_machine as sm
from vf.core import Ctx, Relation, Violation, attempt, require
from vf.props import c01, c04, c05, c07, c08, c09, c10, c11, c12, c13, c26, c28, c33

RULE = (
    "world: a case of another property - a history, handshake, simulation, message or frame - passes its oracle, then is run again while every look "
    "at a clock makes it jump and every file, socket, process, thread, terminal or environment access by the library is recorded; import: each "
    "module alone in a fresh interpreter; non-trivial when the case passed at first"
)


def of(mod, name):
    r = next(r for r in mod.RELATIONS if r.name == name)
    return r.strategy, r.check


JUDGES = {
    "session": (lambda: sm.history(sm.WEIGHTED), sm.run), "broker": (rm.broker_history, rm.run_broker), "dealer": (rm.dealer_history, rm.run_dealer), "streams": (rm.dealer_streams, rm.run_dealer),
    "handshake": of(c08, "handshake"), "forged": of(c09, "forge"), "replayed": of(c09, "replay"), "sequence": of(c09, "sequence"), "router side": of(c10, "history"), "client side": of(c11, "history"),
    "refusal": of(c12, "refusal"), "cryptosign": of(c13, "cryptosign-verify"), "wampcra": of(c13, "wampcra-verify"), "simulation": of(c26, "simulation"), "uses": of(c28, "uses"), "asked": of(c33, "asked"),
    "message": of(c01, "single"), "bytes": of(c04, "raw"), "payload": of(c05, "roundtrip"), "garbage": of(c05, "garbage"), "frames": of(c07, "stream"),
}
WEIGHTS = [*JUDGES, *["session", "broker", "dealer"] * 4, *["handshake", "router side", "client side", "sequence", "uses", "simulation"] * 2, "streams", "streams"]
JUMPS = st.one_of(
    st.sampled_from(([0], [1e-6], [0.001, 1], [31, 61], [3601], [86401], [400 * 86400.0], [-61], [-86401, 86400], [0, 0, 0, 1e8])),
    st.lists(st.one_of(st.sampled_from((0, 0.5, -1, 5, 11, 31, 61, 301, 3601, 86401, -3601, 4e7)), st.floats(-1e6, 1e6, allow_nan=False)), min_size=1, max_size=6),
)
EPOCHS = st.one_of(st.sampled_from((0, 1, 1e9, 1.5e9, 2**31 - 2, 2**31, 4102444800, 951782400, 1583020799)), st.integers(0, 4 * 10**9))


def worlds():
    return st.sampled_from(WEIGHTS).flatmap(lambda w: st.tuples(st.just(w), EPOCHS, JUMPS, JUDGES[w][0]()))


def check_world(case, ctx):
    from vf.world import World

    who, epoch, jumps, inner = case
    judge = JUDGES[who][1]
    if attempt(judge, inner, Ctx("C35"))[0] == "err":
        return ctx.label("fails anyway")  # which other properties report
    world = World(epoch, jumps)
    with world:
        s, v = attempt(judge, inner, Ctx("C35"))
    require(not world.events, lambda: f"{who}: the library did {world.events[:4]}")
    require(not world.changed, lambda: f"{who}: the library changed the process's {world.changed}")
    if s == "err":
        for _ in range(3):  # what depends on chance is not about clocks
            if attempt(judge, inner, Ctx("C35"))[0] == "err":
                return ctx.label("fails anyway")
        again = World(epoch, jumps)
        with again:
            s, v = attempt(judge, inner, Ctx("C35"))
        if s == "err":
            raise Violation(f"{who} is right as long as the clocks stand still or run on; when they jump by {jumps} seconds at each look: {type(v).__name__}: {v}")
    ctx.hit(who)
    if world.reads:
        ctx.label("looked at a clock")


# -------------------------------------------------------------------------------------------------------------- import

SCRIPT = '''
import sys, json, random, threading, signal, logging, warnings, os, locale
seen = []
def hook(event, args):
    if event.startswith(("socket.", "subprocess.", "os.system", "os.exec", "os.fork", "os.posix_spawn", "os.putenv", "os.unsetenv", "os.mkdir", "os.remove", "os.rename", "os.chdir", "_thread.start", "time.sleep", "builtins.input", "signal.")) or (event == "open" and isinstance(args[1], str) and set(args[1]) & set("wax+")):
        f = sys._getframe(1)
        while f is not None and "importlib" not in f.f_code.co_filename:
            if f.f_code.co_filename.startswith(LIB):
                seen.append(f"{event} {str(args)[:60]}")
                break
            f = f.f_back
def state():
    return [sys.getrecursionlimit(), random.getstate() == drawn, threading.active_count(), logging.root.level, len(logging.root.handlers), os.getcwd(), dict(os.environ), locale.setlocale(locale.LC_ALL), str(sys.excepthook), [str(signal.getsignal(s)) for s in (2, 15, 13)]]
drawn = random.getstate()
sys.addaudithook(hook)
before = state()
name = sys.argv[1]
error = None
try:
    __import__(name)
except BaseException as e:
    error = f"{type(e).__name__}: {e}"
after = state()
sys.__stdout__.write("RESULT" + json.dumps({"error": error, "seen": seen, "changed": [i for i, (a, b) in enumerate(zip(before, after)) if a != b]}))
'''


def modules(tier):
    out = []
    for root, _, files in os.walk(os.path.join(env.REPO, "wampproto")):
        for f in files:
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(root, f), env.REPO)[:-3].replace(os.sep, ".")
                out.append((rel.removesuffix(".__init__"),))
    return sorted(out)


def check_import(case, ctx):
    (name,) = case
    code = f"LIB = {os.path.join(env.REPO, 'wampproto') + os.sep!r}\n" + SCRIPT
    clean = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    p = subprocess.run([sys.executable, "-B", "-c", code, name], cwd=env.REPO, env={**clean, "PYTHONPATH": env.REPO}, capture_output=True, text=True, timeout=120)
    out, _, result = p.stdout.partition("RESULT")
    require(p.returncode == 0 and result, lambda: f"importing {name} first: the interpreter ended with {p.returncode}: {p.stderr[-300:]}")
    r = json.loads(result)
    require(r["error"] is None, lambda: f"importing {name} first: {r['error']}")
    require(not r["seen"], lambda: f"importing {name} does {r['seen'][:3]}")
    require(not r["changed"], lambda: f"importing {name} changes the process's {[('recursion limit', 'random state', 'threads', 'log level', 'log handlers', 'directory', 'environment', 'locale', 'excepthook', 'signal handlers')[i] for i in r['changed']]}")
    require(not out and not p.stderr, lambda: f"importing {name} prints {(out + p.stderr)[:200]!r}")
    ctx.hit("imported")


RELATIONS = [Relation("world", worlds, check_world, 5000), Relation("import", None, check_import, cases=modules)]
ASSUMPTIONS = [
    "clocks are those of the time and datetime modules; code that bound a clock to a default argument or closure keeps the real one",
    "importing a module while at work, and warnings of the interpreter's, are not the library's doing",
]
