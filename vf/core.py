"""Relations, violations, and case (de)serialisation."""
import math


class Violation(Exception):
    """The property is broken. `tags` names the properties implicated (None: the one being checked); `key` identifies
    a specific defect, for the known-findings file."""

    def __init__(self, msg, tags=None, key=None):
        super().__init__(msg)
        self.tags = tags
        self.key = key


class HarnessError(Exception):
    pass


class Ctx:
    """Collects what one case exercised."""

    __slots__ = ("labels", "nontrivial", "prop")

    def __init__(self, prop):
        self.prop = prop
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        self.labels.update(names)

    def hit(self, *names):
        """The case is non-trivial, because of `names`."""
        self.nontrivial = True
        self.labels.update(names)


class Relation:
    """name; strategy() -> Hypothesis strategy of plain-data cases; check(case, ctx) raises Violation; quick/thorough are
    numbers of cases over all workers; fuzz: also drive it coverage-guided in the thorough tier; cases(tier) instead of
    strategy: enumerate exactly these cases, shared out over the workers."""

    def __init__(self, name, strategy, check, quick=0, thorough=None, fuzz=True, once=False, cases=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.fuzz = fuzz and cases is None
        self.once = once  # run in a single worker only
        self.cases = cases


def require(cond, msg, tags=None, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, tags, key)


def attempt(fn, *args, **kw):
    """('ok', value) or ('err', exception) for any Exception."""
    try:
        return "ok", fn(*args, **kw)
    except Exception as e:  # noqa: BLE001
        return "err", e


def refused(fn, *args, what="operation", kinds=(ValueError,), tags=None, **kw):
    """The call must raise one of `kinds`."""
    st, v = attempt(fn, *args, **kw)
    if st == "ok":
        raise Violation(f"{what} was accepted (returned {show(v)})", tags)
    if not isinstance(v, kinds):
        raise Violation(f"{what} raised {type(v).__name__}: {v}", tags)
    return v


def show(v, n=300):
    try:
        if hasattr(v, "marshal"):
            v = v.marshal()
        s = repr(v)
    except Exception as e:  # noqa: BLE001
        s = f"<unprintable {type(v).__name__}: {type(e).__name__}>"
    return s if len(s) <= n else s[:n] + f"...({len(s)} chars)"


def same(a, b):
    """Equality that tells 1, 1.0 and True apart, and treats NaN as equal to itself."""
    ta, tb = type(a), type(b)
    if ta is not tb:
        return False
    if ta is float:
        return (a == b and math.copysign(1, a) == math.copysign(1, b)) or (a != a and b != b)
    if ta is list or ta is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if ta is dict:
        if len(a) != len(b):
            return False
        for k, v in a.items():
            if k not in b:
                return False
            if not same(v, b[k]):
                return False
        # keys such as 1 / True / 1.0 are equal to dict lookup
        return sorted((type(k).__name__, repr(k)) for k in a) == sorted((type(k).__name__, repr(k)) for k in b)
    return a == b


PLAIN = (type(None), bool, int, float, str, bytes)


def is_plain(v, depth=0):
    t = type(v)
    if t in PLAIN:
        return True
    if depth > 200:
        return False
    if t is list:
        return all(is_plain(x, depth + 1) for x in v)
    if t is dict:
        return all(type(k) in PLAIN and is_plain(x, depth + 1) for k, x in v.items())
    return False


def clone(v):
    t = type(v)
    if t is list:
        return [clone(x) for x in v]
    if t is dict:
        return {k: clone(x) for k, x in v.items()}
    if t is tuple:
        return tuple(clone(x) for x in v)
    return v


def dump_case(case):
    return repr(case)


def load_case(text):
    return eval(text, {"__builtins__": {}, "nan": math.nan, "inf": math.inf, "Ellipsis": ...})  # our own repr() output
