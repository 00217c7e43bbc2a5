"""A fuzzing dictionary: the constants that occur in the code under test, so that generators can reach behaviour that
hangs on a particular value or size. It only widens generation; no oracle looks at it."""
import ast
import functools
import os

from vf.env import REPO


def _fold(n):
    if isinstance(n, ast.Constant) and type(n.value) is int:
        return n.value
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = _fold(n.operand)
        return None if v is None else -v
    if isinstance(n, ast.BinOp):
        a, b = _fold(n.left), _fold(n.right)
        if a is None or b is None:
            return None
        try:
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Pow) and 0 <= b < 128 and abs(a) < 1 << 16:
                return a**b
            if isinstance(n.op, ast.LShift) and 0 <= b < 128:
                return a << b
        except Exception:  # noqa: BLE001
            return None
    return None


@functools.lru_cache(None)
def constants():
    ints, strs = set(), set()
    for root, dirs, files in os.walk(os.path.join(REPO, "wampproto")):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            try:
                with open(os.path.join(root, f), encoding="utf-8") as fh:
                    tree = ast.parse(fh.read())
            except (OSError, SyntaxError, ValueError):
                continue
            for n in ast.walk(tree):
                v = _fold(n)
                if v is not None and abs(v) <= 1 << 70:
                    ints.update((v - 1, v, v + 1))
                if isinstance(n, ast.Constant):
                    if isinstance(n.value, str) and len(n.value) <= 60:
                        strs.add(n.value)
                    elif isinstance(n.value, bytes) and len(n.value) <= 60:
                        strs.add(n.value.decode("latin-1"))
    return tuple(sorted(ints)), tuple(sorted(strs))


def ints(lo=None, hi=None):
    return [i for i in constants()[0] if (lo is None or i >= lo) and (hi is None or i <= hi)]


def strings():
    return list(constants()[1])
