from hypothesis import strategies as st

from vf import gen, spec
from vf.core import Relation, attempt, clone, require, same, show

RULE = (
    "a case is one message (or a batch of messages sharing serializer objects) that was serialized and deserialized; it "
    "is non-trivial when at least one field is optional, nested, falsy-but-present, at a size or range boundary, or when "
    "several messages share the serializer; large: one value of up to 1 MiB, 65537 elements or 250 levels somewhere in a message; opaque: one value that plain data does not include (a set, a decimal, a date, NaN, ...)"
)


def trip(ser, name, kind, f, ctx):
    msg = spec.build(kind, clone(f))
    data = ser.serialize(msg)
    back = ser.deserialize(data)
    require(spec.kind_of(back) == kind, lambda: f"{name}: {kind} came back as {type(back).__name__}")
    want = spec.roundtripped(kind, f)
    got = spec.read(back)
    for n in want:
        require(same(got[n], want[n]), lambda: f"{name}: {kind}.{n} was {show(want[n])}, came back as {show(got[n])}")
    require(
        same(spec.read(msg), {**spec.roundtripped(kind, f), **({"args": f.get("args")} if "args" in want else {})}),
        lambda: f"{name}: {kind} object does not hold the values it was built from: {show(spec.read(msg))}",
    )
    # a second trip is stable
    again = ser.deserialize(ser.serialize(back))
    require(same(spec.read(again), want), lambda: f"{name}: {kind} changed on the second round trip: {show(spec.read(again))}")
    ctx.label(name, kind)
    if any(v in ("", [], {}, 0) and v is not None for v in f.values() if not isinstance(v, bool)):
        ctx.hit("falsy but present")
    if any(v is None for v in f.values()):
        ctx.hit("absent optional field")
    if f.get("args"):
        ctx.hit("args")
    if f.get("kwargs"):
        ctx.hit("kwargs")
    if f.get("kwargs") is not None and f.get("args") is None:
        ctx.hit("kwargs without args")
    if any(isinstance(v, int) and v >= 2**31 for v in f.values()):
        ctx.hit("large id")
    if any(isinstance(v, (str, list, dict)) and len(v) > 100 for v in f.values()):
        ctx.hit("long field")
    if any(isinstance(v, dict) and v for v in f.values()):
        ctx.hit("non-empty dictionary")


def check_single(case, ctx):
    name, kind, f = case
    trip(gen.serializer(name), name, kind, f, ctx)


def check_batch(case, ctx):
    """One serializer object, many messages: serialize all, then deserialize in another order."""
    name, items, perm = case
    ser = gen.serializer(name)
    data = [ser.serialize(spec.build(k, clone(f))) for k, f in items]
    order = sorted(range(len(items)), key=lambda i: (perm[i % len(perm)], i)) if perm else range(len(items))
    for i in order:
        kind, f = items[i]
        back = ser.deserialize(data[i])
        require(spec.kind_of(back) == kind, lambda: f"{name}: {kind} came back as {type(back).__name__}")
        want = spec.roundtripped(kind, f)
        require(same(spec.read(back), want), lambda: f"{name}: {kind} {show(want)} came back as {show(spec.read(back))}")
    ctx.label(name)
    if len(items) > 1:
        ctx.hit("several messages, one serializer")


def batch():
    return st.sampled_from(gen.SERIALIZERS).flatmap(
        lambda s: st.tuples(st.just(s), st.lists(gen.message(s), min_size=1, max_size=6), st.lists(st.integers(0, 5), max_size=6))
    )


def check_opaque(case, ctx):
    """A value outside plain data: the serializer refuses it, or it arrives as what it was."""
    name, what, kind, where, f = case
    v = gen.opaque(what)
    f = clone(f)
    names = spec.fields_of(kind)
    if where == "args" and "args" in names:
        f["args"] = [v]
    elif where == "kwargs" and "kwargs" in names:
        f["kwargs"] = {"k": v}
    else:
        d = next((k for k, t in spec.TABLE[kind][1] if t == "dict"), None)
        if d is None:
            return
        f[d] = {"k": {"n": [v]}}
    ser = gen.serializer(name)
    s, data = attempt(ser.serialize, spec.build(kind, f))
    s, back = attempt(ser.deserialize, data) if s == "ok" else (s, data)
    if s == "err":
        require(not gen.represents(name, v), lambda: f"{name}: {kind} with {v!r} in its {where}, which the format can carry: raised {type(back).__name__}: {back}")
        ctx.hit("refused")
        return
    want = spec.roundtripped(kind, f)
    got = spec.read(back)
    for n in want:
        require(got[n] == want[n] or same(got[n], want[n]), lambda: f"{name}: {kind}.{n} was {want[n]!r}, came back as {got[n]!r}")
    ctx.hit("carried")


def opaque_cases():
    def per(t):
        s, kind = t
        return st.tuples(st.just(s), gen.opaques(s), st.just(kind), st.sampled_from(("args", "kwargs", "dict")), gen.message_fields(kind, s))

    kinds = [k for k in spec.KINDS if any(t == "dict" for _, t in spec.TABLE[k][1])]
    return st.tuples(st.sampled_from(gen.SERIALIZERS), st.sampled_from(kinds)).flatmap(per)


def check_large(case, ctx):
    """One message with one large value somewhere in it."""
    name, kind, f, (shape, n), where = case
    v = gen.big_value(shape, n)
    try:
        if not same(gen.ref_loads(name, gen.ref_dumps(name, v)), v):
            return
    except (ValueError, TypeError, RecursionError, OverflowError):
        return  # not a value this serializer can represent
    f = dict(f)
    names = [k for k in spec.fields_of(kind)]
    str_fields = [k for k, t in spec.TABLE[kind][1] if t == "str"] + (["authid"] if "authid" in names else [])
    dict_fields = [k for k, t in spec.TABLE[kind][1] if t == "dict"] + (["authextra"] if "authextra" in names else [])
    places = (["args", "args", "kwargs"] if "args" in names else []) + dict_fields + (str_fields if isinstance(v, str) else [])
    if not places:
        return
    place = places[where % len(places)]
    if place == "args":
        f["args"] = v if isinstance(v, list) and shape != "deep-list" and where % 2 else [v]
    elif place in str_fields:
        f[place] = v
    else:
        f[place] = v if isinstance(v, dict) else {"v": v}
    trip(gen.serializer(name), name, kind, f, ctx)
    ctx.hit("large " + shape)


def large_cases():
    def per(t):
        s, kind = t
        return st.tuples(st.just(s), st.just(kind), gen.message_fields(kind, s), gen.big(s), st.integers(0, 11))

    kinds = [k for k in spec.KINDS if any(t in ("str", "dict", "hello", "welcome") for _, t in spec.TABLE[k][1])]
    kinds += [k for k in kinds if spec.TABLE[k][2]]
    return st.tuples(st.sampled_from(gen.SERIALIZERS), st.sampled_from(kinds)).flatmap(per)


RELATIONS = [
    Relation("single", lambda: gen.ser_message(payload=True), check_single, 9000),
    Relation("batch", batch, check_batch, 1200),
    Relation("opaque", opaque_cases, check_opaque, 1500),
    Relation("large", large_cases, check_large, 900, fuzz=False),
]
ASSUMPTIONS = [
    "values are those the serializer can represent: JSON without bytes, NaN or non-string keys; MessagePack with 64-bit "
    "integers and string or bytes keys; text without lone surrogates",
    "any other value may be refused, but when it is accepted it must come back equal",
]
