import enum
from collections import OrderedDict, defaultdict

from hypothesis import strategies as st

from vf import gen
from vf.core import Relation, attempt, clone, require, same, show

RULE = (
    "a case is one value given to one stand-alone validator; it is non-trivial when the value is of the named type, near "
    "the accepted range, or a type that Python treats as compatible (bool, float, bytes)"
)
VALUES = [
    None, True, False, 0, 1, -1, 2, 2**53 - 1, 2**53, 2**53 + 1, 2**64, -(2**53), 1.0, 0.0, 1.5, float("nan"), float("inf"), "", " ", "x", "com.x",
    "1", b"", b"x", [], [1], {}, {"a": 1}, {"": None}, {1: 2}, {"a": 1, 2: 3}, {None: 1}, {b"k": 1}, {True: 1}, {"a": {1: 2}}, {1.5: 1}, ["a"], "a" * 1000,
]


class Text(str):
    """A string all the same, like the members of an enum.StrEnum."""


class Number(enum.IntEnum):
    ONE = 1
    ZERO = 0
    MOST = 2**53
    MORE = 2**53 + 1


VALUES += [Text("x"), Text(""), OrderedDict(a=1), OrderedDict({"a": 1, 2: 3}), defaultdict(list, a=[1]), {Text("a"): 1}, {Number.ONE: 1}, *Number]
NAMES = ("realm", "uri", "procedure", "details", "session_id")


def check(case, ctx):
    which, v, context, field = case
    from wampproto.messages import exceptions, util

    fn, err = {
        "realm": (util.validate_realm_or_raise, exceptions.InvalidRealmError),
        "uri": (util.validate_uri_or_raise, exceptions.InvalidUriError),
        "procedure": (util.validate_procedure_or_raise, exceptions.InvalidUriError),
        "details": (util.validate_details_or_raise, exceptions.InvalidDetailsError),
        "session_id": (util.validate_session_id_or_raise, exceptions.ProtocolError),
    }[which]
    if which in ("realm", "uri", "procedure"):
        good = isinstance(v, str)
    elif which == "details":
        good = isinstance(v, dict) and all(isinstance(k, str) for k in v)
    else:
        good = isinstance(v, int) and not isinstance(v, bool) and 1 <= v <= 2**53
    args = (v, context)
    if field is not None and which in ("details", "session_id"):
        args += (field,)
    before = clone(v)
    s, got = attempt(fn, *args)
    ctx.label(which, "good" if good else "bad")
    if good:
        require(s == "ok", lambda: f"{which}: {show(v)} was refused: {type(got).__name__}: {got}")
        require(got is v or same(got, v), lambda: f"{which}: {show(v)} was returned as {show(got)}")
        require(same(v, before), lambda: f"{which}: the value was changed to {show(v)}")
        ctx.hit("accepted")
    else:
        require(s == "err", lambda: f"{which}: {show(v)} was accepted")
        require(isinstance(got, err), lambda: f"{which}: {show(v)} was refused with {type(got).__name__}, expected {err.__name__}")
        require(context in str(got), lambda: f"{which}: the error {str(got)!r} does not name the context {context!r}")
        if isinstance(v, (int, float, str, bytes, dict)):
            ctx.hit("near miss")


def table(tier):
    vals = VALUES + [(1 << k) + d for k in range(1, 66) for d in (-1, 0, 1)]
    out = [(n, clone(v), c, f) for n in NAMES for v in vals for c, f in (("HELLO", None), ("ctx-7", "Field X"))]
    for n in (2, 3, 4, 5, 8, 9, 10, 16, 17, 20, 32, 33, 50, 64, 65, 100, 101, 128, 129, 255, 256, 257, 500, 1000, 1001, 4096, 5000):
        for odd in (None, 1, b"k", True):
            for at in (0, 1, n // 2, n - 1, n):
                out.append(("details", with_odd_key((n, odd, at)), "HELLO", None))
    return out


def many_keys():
    """A dictionary of many string keys, with at most one other key somewhere among them."""
    odd = st.one_of(st.none(), st.sampled_from((1, b"k", True, 1.5, -1, 0)))
    return st.tuples(gen.sizes(300), odd, st.integers(0, 300)).map(with_odd_key)


def with_odd_key(t):
    n, odd, at = t
    keys = [f"k{i}" for i in range(n)]
    if odd is not None:
        keys.insert(at % (n + 1), odd)
    return {k: i for i, k in enumerate(keys)}


def cases():
    v = st.one_of(
        st.sampled_from(VALUES), gen.value("cbor"), gen.ids(), gen.ints("cbor"), gen.text(),
        st.dictionaries(st.one_of(gen.short_text(), gen.short_text(), gen.scalar("cbor").filter(lambda x: x == x)), gen.scalar("cbor"), max_size=4), gen.strdict("cbor"),
        st.integers(-5, 5).map(lambda d: 2**53 + d), many_keys(),
    )
    return st.tuples(st.sampled_from(NAMES), v, gen.short_text().filter(lambda s: "{" not in s), st.one_of(st.none(), gen.short_text()))


RELATIONS = [Relation("table", None, check, cases=table), Relation("random", cases, check, 12000)]
EXHAUSTIVE_NOTE = "every validator x a table of values of every type and the neighbourhood of every power of two"
