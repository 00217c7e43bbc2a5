"""Import paths: the code under test from /repo (VF_REPO overrides it for work on scratch copies), the project's own
interpreter and dependencies, and hypothesis/atheris from the verification tools' environment."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath((os.environ.get("VF_REPO") or "/repo"))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True


def setup():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)  # last: the project's own dependencies win
    import wampproto

    got = os.path.realpath(os.path.dirname(wampproto.__file__))
    if got != os.path.join(REPO, "wampproto"):
        raise RuntimeError(f"wrong wampproto under test: {got}")
