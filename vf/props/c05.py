from hypothesis import strategies as st

from vf import gen, wire
from vf.core import Relation, attempt, clone, refused, require, same, show

RULE = (
    "a case is one (format, args, kwargs) that was encoded and decoded, or one byte string decoded and judged by the "
    "reference decoder; it is non-trivial when args or kwargs are present, or when the bytes decode to data so that the "
    "shape rule decides"
)
IDS = {"json": 1, "msgpack": 2, "cbor": 3}


def mod():
    from wampproto.serializers import payload

    return payload


def check_roundtrip(case, ctx):
    name, a, k, bits = case
    p = mod()
    data = p.serialize_payload(IDS[name], clone(a), clone(k))
    want_args = [] if a is None and k is not None else a
    ctx.label(name)
    if data is None:
        require(a is None and k is None, lambda: f"{name}: encoding args={show(a)} kwargs={show(k)} gave None")
        data = b""
    require(isinstance(data, bytes), lambda: f"{name}: encoded payload is {type(data).__name__}")
    got = p.deserialize_payload(IDS[name], data)
    require(
        isinstance(got, tuple) and len(got) == 2 and same(got[0], want_args) and same(got[1], k),
        lambda: f"{name}: args={show(a)} kwargs={show(k)} came back as {show(got)}",
    )
    if a is not None or k is not None:
        ctx.hit("payload present")
        arr = [want_args] + ([] if k is None else [k])
        require(same(gen.ref_loads(name, data), arr), lambda: f"{name}: encoded as {show(gen.ref_loads(name, data))}, expected {show(arr)}")
        foreign = wire.encode(name, arr, bits)
        foreign = foreign.encode() if isinstance(foreign, str) else foreign
        got = p.deserialize_payload(IDS[name], foreign)
        require(same(got[0], want_args) and same(got[1], k), lambda: f"{name}: {show(arr)} from another encoder was decoded as {show(got)}")
    if a is None or k is None:
        ctx.label("absent part")
    if a == [] or k == {}:
        ctx.hit("empty part")


def roundtrip():
    return st.sampled_from(gen.SERIALIZERS).flatmap(
        lambda s: st.tuples(st.just(s), gen.args(s), gen.kwargs(s), st.lists(st.integers(0, 11), max_size=6))
    )


def check_empty(case, ctx):
    p = mod()
    for i in (1, 2, 3):
        got = p.deserialize_payload(i, b"")
        require(tuple(got) == (None, None), lambda: f"format {i}: empty bytes gave {show(got)}")
    ctx.hit("empty bytes")


def judge(name, data, ctx):
    p = mod()
    rs, obj = attempt(gen.ref_loads, name, data)
    s, v = attempt(p.deserialize_payload, IDS[name], data)
    if not data:
        return
    if rs == "err":
        require(s == "err", lambda: f"{name}: undecodable payload {show(data)} gave {show(v)}")
        require(isinstance(v, (ValueError, TypeError, type(obj))), lambda: f"{name}: payload was refused with {type(v).__name__}: {v}")
        ctx.label("undecodable")
        return
    ctx.hit(name + " decodable")
    if isinstance(obj, list) and not obj:
        require(s == "ok" and tuple(v) == (None, None), lambda: f"{name}: the empty array gave {show(v)}")
        return
    good = isinstance(obj, list) and len(obj) <= 2 and isinstance(obj[0], list) and (len(obj) < 2 or isinstance(obj[1], dict))
    if good:
        ctx.label("right shape")
        require(s == "ok", lambda: f"{name}: refused {show(obj)}: {type(v).__name__}: {v}")
        from vf.core import is_plain

        if is_plain(obj):
            require(same(v[0], obj[0]) and same(v[1], obj[1] if len(obj) == 2 else None), lambda: f"{name}: {show(obj)} was decoded as {show(v)}")
    else:
        ctx.label("wrong shape")
        require(s == "err", lambda: f"{name}: accepted the payload {show(obj)} as {show(v)}")
        require(isinstance(v, (ValueError, TypeError)), lambda: f"{name}: {show(obj)} was refused with {type(v).__name__}: {v}")


def check_shape(case, ctx):
    name, obj, bits = case
    data = wire.encode(name, obj, bits)
    judge(name, data.encode() if isinstance(data, str) else data, ctx)


def shapes():
    def per(s):
        val = gen.value(s)
        arg = st.one_of(gen.args(s), val)
        kw = st.one_of(gen.strdict(s), val)
        obj = st.one_of(
            st.tuples(arg).map(list), st.tuples(arg, kw).map(list), st.tuples(arg, kw, val).map(list), val, kw,
            st.tuples(st.dictionaries(st.integers(0, 2) if s == "cbor" else gen.short_text(), val, max_size=3)).map(lambda t: t[0]),
            st.lists(val, max_size=4), gen.text(),
            st.tuples(gen.args(s).map(lambda a: a if a is not None else []), st.lists(st.tuples(gen.short_text(), val), max_size=2).map(lambda l: [list(t) for t in l])).map(list),
        )
        return st.tuples(st.just(s), obj, st.lists(st.integers(0, 11), max_size=4))

    return st.sampled_from(gen.SERIALIZERS).flatmap(per)


def shape_table(tier):
    """Every combination of small elements, right and wrong ones."""
    some = [None, False, True, 0, 1, 1.5, "", "a", [], [None], [1, "x"], {}, {"a": 1}, {"": None}]
    out = []
    for name in gen.SERIALIZERS:
        mine = some if name == "json" else [*some, b"", b"a"]
        arrays = [[x] for x in mine] + [[x, y] for x in mine for y in mine]
        arrays += [[x, y, z] for x in ([], [1], None) for y in ({}, None, {"a": 1}, []) for z in (None, {}, [], 0)]
        out += [(name, o, []) for o in [[], *mine, *arrays]]
    return out


def check_opaque(case, ctx):
    """A value the format may have no representation for: refused, or it arrives as what it was."""
    name, what, where, plain = case
    p = mod()
    v = gen.opaque(what)
    args, kwargs = {
        "arg": ([v], None), "later": ([plain, v], {}), "nested": ([[plain, {"a": [v]}]], None), "kwarg": (None, {"a": plain, "b": v}), "deep": ([plain], {"a": {"b": [v]}}),
        "key": ([plain], {"a": {v: plain}} if what not in ("object", "set", "bytearray", "big", "nan", "inf", "-inf", "negbig", "tag", "ext") else {"a": v}),
    }[where]
    s, data = attempt(p.serialize_payload, IDS[name], args, kwargs)
    s, got = attempt(p.deserialize_payload, IDS[name], data) if s == "ok" else (s, data)
    if s == "err":
        require(not gen.represents(name, [args, kwargs]), lambda: f"{name}: args={args!r} kwargs={kwargs!r}, which the format can carry: raised {type(got).__name__}: {got}")
        ctx.hit("refused")
        return
    want = ([] if args is None else args, kwargs)
    require(got == want or same(got, want), lambda: f"{name}: args={args!r} kwargs={kwargs!r} were encoded as {show(data)} and came back as {got!r}")
    ctx.hit("carried")


def opaques():
    return st.sampled_from(gen.SERIALIZERS).flatmap(lambda s: st.tuples(st.just(s), gen.opaques(s), st.sampled_from(("arg", "later", "nested", "kwarg", "deep", "key")), st.sampled_from((None, 0, "x", [], {}))))


def check_garbage(case, ctx):
    name, data = case
    judge(name, data, ctx)


def garbage():
    tok = st.lists(st.sampled_from(["[", "]", "{", "}", ",", ":", '"a"', "1", "[]", "{}", "null", '"', " ", "[[]]", '[[],{}]']), max_size=10).map(lambda l: "".join(l).encode())
    return st.tuples(st.sampled_from(gen.SERIALIZERS), st.one_of(st.binary(max_size=24), tok))


def check_raw(case, ctx):
    p = mod()
    b, kind, extra = case
    if kind == "ok":
        for data in (b, bytearray(b)):
            for k in (None, {}):
                out = p.serialize_payload(0, [data], k)
                require(bytes(out) == b and isinstance(out, (bytes, bytearray)), lambda: f"raw payload {show(b)} was encoded as {show(out)}")
                got = p.deserialize_payload(0, out)
                require(len(got) == 2 and isinstance(got[0], list) and len(got[0]) == 1 and bytes(got[0][0]) == b and not got[1], lambda: f"raw payload {show(b)} came back as {show(got)}")
        ctx.hit("raw passed through")
    elif kind == "bad-args":
        refused(p.serialize_payload, 0, extra, None, what=f"raw payload with args {show(extra)}", kinds=(ValueError, TypeError))
        ctx.hit("raw refused")
    elif kind == "bad-kwargs":
        refused(p.serialize_payload, 0, [b], extra, what=f"raw payload with kwargs {show(extra)}", kinds=(ValueError, TypeError))
        refused(p.serialize_payload, 0, None, extra, what=f"raw payload with only kwargs {show(extra)}", kinds=(ValueError, TypeError))
        ctx.hit("raw refused")
    else:
        refused(p.serialize_payload, extra, [b], None, what=f"format {extra!r} (encode)", kinds=(ValueError, TypeError))
        refused(p.serialize_payload, extra, [1], {"a": 1}, what=f"format {extra!r} (encode)", kinds=(ValueError, TypeError))
        refused(p.deserialize_payload, extra, b, what=f"format {extra!r} (decode)", kinds=(ValueError, TypeError))
        refused(p.deserialize_payload, extra, b"", what=f"format {extra!r} (decode)", kinds=(ValueError, TypeError))
        ctx.hit("unknown format")


def raws():
    b = st.one_of(st.binary(max_size=20), gen.blob(), gen.sizes().map(lambda n: b"\xa5" * n), st.just(b""))
    bad = st.one_of(
        st.just([]).map(list), st.lists(st.binary(max_size=3), min_size=2, max_size=4),
        gen.value("cbor").filter(lambda v: not isinstance(v, bytes)).map(lambda v: [v]),
    )
    badkw = st.dictionaries(gen.short_text(), gen.scalar("cbor"), min_size=1, max_size=3)
    unknown = st.one_of(st.integers(4, 300), st.integers(-300, -1), st.sampled_from([None, "1", "json", 16, 255, 256, 257, 2**32 + 1, b"\x01", ""]))
    return st.one_of(
        st.tuples(b, st.just("ok"), st.none()), st.tuples(b, st.just("bad-args"), bad), st.tuples(b, st.just("bad-kwargs"), badkw), st.tuples(b, st.just("unknown"), unknown)
    )


RELATIONS = [
    Relation("roundtrip", roundtrip, check_roundtrip, 6000),
    Relation("shape", shapes, check_shape, 5000),
    Relation("table", None, check_shape, cases=shape_table),
    Relation("opaque", opaques, check_opaque, 1500),
    Relation("garbage", garbage, check_garbage, 4000),
    Relation("raw", raws, check_raw, 2500),
    Relation("empty", None, check_empty, cases=lambda tier: [()]),
]
ASSUMPTIONS = ["json, msgpack and cbor2 as installed are the reference codecs"]
