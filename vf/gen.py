"""Strategies shared by the checks. Every generated value is plain data."""
import functools

from hypothesis import strategies as st

from vf import dictionary, spec

SERIALIZERS = ("json", "msgpack", "cbor")
SPECIAL_KEYS = (
    "progress", "receive_progress", "acknowledge", "exclude_me", "x_payload_serializer", "roles", "authid", "authrole",
    "authmethod", "authmethods", "authextra", "challenge", "salt", "iterations", "keylen", "pubkey", "timeout", "match",
    "invoke", "disclose_me", "eligible", "exclude", "message", "features", "args", "kwargs", "self", "mode", "reason",
)
WEIRD = ("", " ", ".", "..", "a", "A", "com.example.x", "com..x", "wamp.error.x", "é", "ß", "日本", "😀", "\x00", "\n",
         "a\tb", '"', "\\", "null", "0", "1", "true", "-", "a" * 255, "b" * 256, "\ufeff", "\u2028", "e\u0301", "#", "*")


def serializer(name):
    from wampproto import serializers

    return {"json": serializers.JSONSerializer, "msgpack": serializers.MsgPackSerializer, "cbor": serializers.CBORSerializer}[name]()


def ref_dumps(name, v):
    import json

    import cbor2
    import msgpack

    return {"json": json.dumps, "msgpack": msgpack.dumps, "cbor": cbor2.dumps}[name](v)


def ref_loads(name, data):
    import json

    import cbor2
    import msgpack

    return {"json": json.loads, "msgpack": msgpack.loads, "cbor": cbor2.loads}[name](data)


def pick(*xs):
    return st.sampled_from(xs)


@functools.lru_cache(None)
def dict_strings():
    return tuple(dict.fromkeys([*SPECIAL_KEYS, *dictionary.strings()]))


BYTE_EDGES = (b"", b"", b"\x00", b"\x00\x00", b"\n", b"\r\n", b" ", b"\t", b"\xff", b"\xef\xbb\xbf", b"\xc2", b"=", b"\x80", b"0x", b'"', b"[]")
TEXT_EDGES = ("", "", " ", "\x00", "\n", "\r\n", "\t", ".", "/", "#", "\ufeff", "\u00a0", "\u200b", "=", '"', "'", "\\", "A", "\u0301", "%20", "\x7f", "\x80")


@functools.lru_cache(None)
def blob():
    """Bytes, also with something peculiar at either end."""
    b = st.binary(max_size=12)
    return st.one_of(b, st.tuples(st.sampled_from(BYTE_EDGES), b, st.sampled_from(BYTE_EDGES)).map(b"".join))


@functools.lru_cache(None)
def text():
    return st.one_of(
        edged_text(),
        st.text(st.characters(exclude_categories=("Cs",)), max_size=12),
        st.sampled_from(WEIRD),
        st.sampled_from(dict_strings()),
        st.tuples(pick("a", "é", "xyz", "\x00", "😀"), sizes()).map(lambda t: t[0] * t[1]),
    )


@functools.lru_cache(None)
def edged_text():
    mid = st.one_of(st.just("a"), st.sampled_from(SPECIAL_KEYS), st.text(st.characters(exclude_categories=("Cs",)), max_size=4))
    return st.tuples(st.sampled_from(TEXT_EDGES), mid, st.sampled_from(TEXT_EDGES)).map("".join)


@functools.lru_cache(None)
def short_text():
    return st.one_of(edged_text(), st.text(st.characters(exclude_categories=("Cs",)), max_size=6), st.sampled_from(WEIRD[:24]), st.sampled_from(dict_strings()))


BOUNDS = sorted({0, 1, 2, 3, 7, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025})


@functools.lru_cache(None)
def sizes(hi=1100):
    pool = sorted({b for b in BOUNDS if b <= hi} | set(dictionary.ints(0, hi)))
    return st.one_of(st.integers(0, 3), st.integers(0, min(20, hi)), st.sampled_from(pool))


@functools.lru_cache(None)
def ids():
    pool = {1, 2, 3, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**53 - 2, 2**53 - 1, 2**53, 255, 256, 65535, 65536}
    pool |= set(dictionary.ints(1, 2**53))
    return st.one_of(st.integers(1, 12), st.sampled_from(sorted(pool)), st.integers(1, 2**53), st.integers(0, 53).map(lambda k: 1 << k))


@functools.lru_cache(None)
def ints(ser):
    lo, hi = {"json": (-(2**70), 2**70), "msgpack": (-(2**63), 2**64 - 1), "cbor": (-(2**70), 2**70)}[ser]
    edges = [s * (1 << k) + d for k in (5, 7, 8, 15, 16, 31, 32, 53, 63, 64) for s in (1, -1) for d in (-1, 0, 1)]
    edges = sorted(e for e in {*edges, *dictionary.ints(lo, hi)} if lo <= e <= hi)
    return st.one_of(st.integers(-3, 3), st.sampled_from(edges), st.integers(lo, hi))


def floats(ser):
    if ser == "json":
        return st.floats(allow_nan=False, allow_infinity=False)
    return st.floats()


@functools.lru_cache(None)
def scalar(ser):
    parts = [pick(None, True, False), ints(ser), floats(ser), short_text(), pick(0, 0.0, -0.0, 1.0, "", False, None)]
    if ser != "json":
        parts += [blob(), pick(b"", b"\x00", b"\xff\xfe", b"abc")]
    return st.one_of(parts)


@functools.lru_cache(None)
def nested_keys(ser):
    if ser == "json":
        return short_text()
    if ser == "msgpack":
        return st.one_of(short_text(), short_text(), st.binary(max_size=4))
    return st.one_of(short_text(), short_text(), st.integers(-300, 70000).filter(lambda i: i not in (0, 1)), st.binary(max_size=4))


def _deep(t):
    v, n, how = t
    for i in range(n):
        v = [v] if (how == 0 or (how == 2 and i % 2)) else {"k": v}
    return v


@functools.lru_cache(None)
def value(ser):
    s = scalar(ser)
    return st.one_of(
        s,
        s,
        st.recursive(
            s, lambda c: st.one_of(st.lists(c, max_size=4), st.dictionaries(nested_keys(ser), c, max_size=4)), max_leaves=8
        ),
        st.tuples(s, st.integers(1, 40), st.integers(0, 2)).map(_deep),
        st.tuples(s, sizes()).map(lambda t: [t[0]] * t[1]),
        text(),
    )


@functools.lru_cache(None)
def args(ser):
    """A list, or None."""
    return st.one_of(
        pick(None, [], [None], [0], [False], [[]], [{}], [""]).map(lambda v: None if v is None else list(v)),
        st.lists(value(ser), max_size=5),
        st.tuples(scalar(ser), sizes()).map(lambda t: [t[0]] * t[1]),
        sizes().map(lambda n: list(range(n))),
    )


@functools.lru_cache(None)
def strdict(ser):
    return st.one_of(
        st.just({}).map(dict),
        st.dictionaries(st.one_of(st.sampled_from(SPECIAL_KEYS), short_text()), value(ser), max_size=4),
        st.dictionaries(st.sampled_from(dict_strings()), scalar(ser), max_size=4),
        sizes(300).map(lambda n: {f"k{i}": i for i in range(n)}),
    )


@functools.lru_cache(None)
def kwargs(ser):
    return st.one_of(st.none(), strdict(ser))


@functools.lru_cache(None)
def options(ser):
    return st.one_of(st.none(), strdict(ser))


@functools.lru_cache(None)
def roles(ser):
    val = st.one_of(st.just({"features": {}}), st.just({}), st.dictionaries(short_text(), scalar(ser), max_size=3), scalar(ser))
    return st.dictionaries(st.sampled_from(spec.ROLES), val, min_size=1, max_size=6)


@functools.lru_cache(None)
def message_fields(kind, ser, payload=False):
    f = {}
    for n, t in spec.TABLE[kind][1]:
        if t == "id":
            f[n] = ids()
        elif t == "int":
            f[n] = st.one_of(st.sampled_from(sorted(spec.BY_CODE)), ints(ser))
        elif t == "str":
            f[n] = text()
        elif t == "dict":
            f[n] = options(ser) if kind in spec.OPTIONAL_DICT else strdict(ser)
            if kind in spec.TABLE and (kind in spec.PAYLOAD_KINDS or kind in ("Publish", "Event", "Error")):
                f[n] = st.one_of(f[n], f[n], meant_options())
        else:
            f["roles"] = roles(ser)
            f["authid"] = st.one_of(st.none(), text())
            f["authextra"] = options(ser)
            if t == "hello":
                f["authmethods"] = st.one_of(st.none(), st.lists(st.one_of(text(), pick("anonymous", "ticket", "wampcra", "cryptosign")), max_size=4), args(ser))
            else:
                f["authrole"] = st.one_of(st.none(), text())
                f["authmethod"] = st.one_of(st.none(), text())
    if spec.TABLE[kind][2]:
        f["args"] = args(ser)
        f["kwargs"] = kwargs(ser)
    if payload and kind in spec.PAYLOAD_KINDS:
        f["serializer"] = st.one_of(st.none(), st.integers(0, 3), ints(ser))
        f["payload"] = st.one_of(st.none(), blob())
        f["binary"] = st.booleans()
    return st.fixed_dictionaries(f)


@functools.lru_cache(None)
def message(ser, kinds=spec.KINDS, payload=False):
    """(kind, fields)"""
    return st.sampled_from(kinds).flatmap(lambda k: message_fields(k, ser, payload).map(lambda f: (k, f)))


@functools.lru_cache(None)
def ser_message(kinds=spec.KINDS, payload=False):
    """(serializer, kind, fields)"""
    return st.sampled_from(SERIALIZERS).flatmap(lambda s: message(s, kinds, payload).map(lambda m: (s, *m)))


@functools.lru_cache(None)
def big_sizes(hi=1 << 20):
    pool = {(1 << k) + d for k in range(10, 21) for d in (-1, 0, 1)} | {10**k + d for k in (3, 4, 5) for d in (-1, 0, 1)}
    return st.one_of(st.sampled_from(sorted(b for b in {*pool, *dictionary.ints(1100, hi)} if b <= hi)), st.integers(1100, min(hi, 70000)))


@functools.lru_cache(None)
def wamp_options(ser="cbor"):
    """Options and details that WAMP gives a meaning to, with values of the meant type."""
    some = st.lists(st.integers(1, 9), max_size=3)
    return st.fixed_dictionaries({}, optional={
        "exclude_me": st.booleans(), "exclude": some, "eligible": some, "exclude_authid": st.lists(pick("joe", "id1", ""), max_size=2),
        "eligible_authrole": st.lists(pick("role", "admin"), max_size=2), "disclose_me": st.booleans(), "match": pick("exact", "prefix", "wildcard"),
        "invoke": pick("single", "first", "last", "random", "roundrobin"), "timeout": pick(0, 1, 1000), "progress": st.booleans(),
        "receive_progress": st.booleans(), "acknowledge": st.booleans(), "retain": st.booleans(), "get_retained": st.booleans(),
        "force_reregister": st.booleans(), "caller": st.integers(1, 9), "publisher": st.integers(1, 9), "topic": pick("com.a", "com.x1"),
        "procedure": pick("com.a", "com.x1"), "mode": pick("skip", "kill", "killnowait"), "concurrency": st.integers(0, 3), "rkey": pick("a", ""),
        "runmode": pick("partition",), "trustlevel": st.integers(0, 3), "reason": pick("wamp.close.normal",), "message": pick("m", ""),
        "ppt_scheme": pick("wamp", "x_a"), "ppt_serializer": pick("cbor", "native"),
    }).map(lambda d: dict(list(d.items())[:6]))


@functools.lru_cache(None)
def meant_options():
    flag = st.sampled_from((True, True, False))
    ser = st.integers(0, 4)
    return st.one_of(wamp_options(), st.fixed_dictionaries({}, optional={"progress": flag, "receive_progress": flag, "x_payload_serializer": ser, "acknowledge": flag, "exclude_me": flag}))


def few(base, lo=1):
    """A small pool drawn from a large one."""
    return st.lists(st.sampled_from(base), min_size=lo, max_size=4, unique=True).map(tuple)


@functools.lru_cache(None)
def id_pool(base):
    """IDs for one case: the usual mixture, or a few, also such that agree in their low bits."""
    near = st.tuples(st.integers(1, 6), st.sampled_from((8, 16, 31, 32, 48, 52)), st.integers(2, 4)).map(lambda t: tuple(t[0] + (k << t[1]) for k in range(t[2]) if t[0] + (k << t[1]) <= 2**53))
    runs = st.tuples(ids(), st.integers(2, 5)).map(lambda t: tuple(i for i in range(t[0], t[0] + t[1]) if i <= 2**53))
    return st.one_of(st.just(base), st.just(base), near, few(base), runs)


def ops_list(op, size):
    """Histories: mostly short, some long."""
    return st.one_of(st.lists(op, min_size=1, max_size=size), st.lists(op, min_size=1, max_size=size), st.lists(op, min_size=size // 3, max_size=size), st.lists(op, min_size=size // 2, max_size=2 * size))


def repeats(ops, hi=130):
    """Sometimes one operation of the list is carried out many times in a row."""
    many = st.tuples(ops, st.integers(0, 40), sizes(hi)).map(lambda t: [*t[0][:t[1] % len(t[0])], *[t[0][t[1] % len(t[0])]] * t[2], *t[0][t[1] % len(t[0]):]] if t[0] else t[0])
    return st.one_of(*[ops] * 9, many)


def swarm(weights):
    """All operations, or a random few of them."""
    w = tuple(weights)
    return st.one_of(st.just(w), st.just(w), st.lists(st.sampled_from(w), min_size=3, max_size=9).map(tuple))


BIG_SHAPES = ("str", "wide", "emoji", "escape", "ints", "strs", "lists", "dict", "key", "deep-list", "deep-dict", "bytes", "bigs", "floats")


@functools.lru_cache(None)
def big(ser):
    """(shape, n): one large value, made by `big_value`."""
    shapes = [x for x in BIG_SHAPES if ser != "json" or x != "bytes"]
    return st.tuples(st.sampled_from(shapes), big_sizes())


def big_value(shape, n):
    if shape == "bytes":
        return bytes(i * 7 & 255 for i in range(min(n, 256))) * (n // 256) + b"x" * (n % 256)
    if shape in ("str", "wide", "emoji", "escape"):
        return {"str": "a", "wide": "é", "emoji": "😀", "escape": "\\"}[shape] * n
    if shape in ("deep-list", "deep-dict"):
        return _deep((1, n % 251, 0 if shape == "deep-list" else 1))
    if shape == "key":
        return {"k" * n: 1}
    n = min(n, (1 << 16) + 1)
    if shape == "dict":
        return {f"k{i}": i for i in range(n)}
    return [{"ints": i, "strs": f"s{i}", "lists": [i], "bigs": 2**53 + i, "floats": i / 8}[shape] for i in range(n)]


# values the wire formats may or may not have a representation for


OPAQUE = ("object", "complex", "type", "range", "function", "set", "frozenset", "bytes", "bytearray", "decimal", "fraction", "uuid", "path", "exception", "naive", "aware", "date", "time", "big", "nan", "inf", "-inf", "timestamp", "ext", "aware-us", "aware-tz", "aware-old", "decimal-exp", "ip", "net", "negbig", "tag", "undefined")


class Opaque:
    def __eq__(self, other):
        return type(other) is Opaque

    __hash__ = None


def opaque(name):
    import datetime as dt
    import decimal
    import fractions
    import ipaddress
    import pathlib
    import uuid

    import cbor2
    import msgpack

    utc = dt.timezone.utc
    return {
        "object": Opaque(), "complex": 1 + 2j, "type": int, "range": range(3), "function": len, "set": {1, 2}, "frozenset": frozenset("ab"),
        "bytes": b"ab", "bytearray": bytearray(b"ab"), "decimal": decimal.Decimal("1.25"), "fraction": fractions.Fraction(1, 3), "uuid": uuid.UUID(int=7),
        "path": pathlib.PurePosixPath("/a"), "exception": ValueError("x"), "naive": dt.datetime(2020, 1, 2, 3, 4, 5), "big": 2**70,
        "aware": dt.datetime(2020, 1, 2, 3, 4, 5, tzinfo=dt.timezone.utc), "date": dt.date(2020, 1, 2), "time": dt.time(1, 2),
        "nan": float("nan"), "inf": float("inf"), "-inf": float("-inf"),
        "timestamp": msgpack.Timestamp(1, 5), "ext": msgpack.ExtType(5, b"abc"), "aware-us": dt.datetime(9999, 12, 31, 23, 59, 59, 999999, tzinfo=utc),
        "aware-tz": dt.datetime(2020, 1, 2, 3, 4, 5, 7, tzinfo=dt.timezone(dt.timedelta(hours=5, minutes=30))), "aware-old": dt.datetime(1, 1, 2, 3, 4, 5, 7, tzinfo=utc),
        "decimal-exp": decimal.Decimal("-1.50E+400"), "ip": ipaddress.ip_address("10.0.0.1"), "net": ipaddress.ip_network("10.0.0.0/8"),
        "negbig": -2**90, "tag": cbor2.CBORTag(6000, [1]), "undefined": cbor2.undefined,
    }[name]


def opaques(ser):
    """Tuples are lists to JSON and CBOR."""
    return st.sampled_from([x for x in OPAQUE if x != "ext" or ser == "msgpack"])


def represents(ser, v):
    """Does the format's codec, as it comes, carry this value? (JSON has no numbers but finite ones, whatever Python's codec does.)"""
    from vf.core import same

    if ser == "json":
        return False
    try:
        return same(ref_loads(ser, ref_dumps(ser, v)), v)
    except Exception:
        return False
