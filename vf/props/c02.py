from hypothesis import strategies as st

from vf import gen, spec, wire
from vf.core import Relation, attempt, clone, require, same, show

RULE = (
    "a case is one message compared with the array the independent encoder prescribes (outbound), or one conforming array, "
    "written in an encoding of another implementation's choosing and with unknown extra details, compared with the fields "
    "decoded (inbound); it is non-trivial when the message has optional fields, payload, a payload serializer, or a "
    "non-default encoding"
)


def check_out(case, ctx):
    name, kind, f = case
    ser = gen.serializer(name)
    data = ser.serialize(spec.build(kind, clone(f)))
    want_type = str if name == "json" else bytes
    require(type(data) is want_type, lambda: f"{name}: serialized form is {type(data).__name__}")
    want = spec.ref_encode(kind, f)
    got = gen.ref_loads(name, data)
    require(same(got, want), lambda: f"{name}: {kind} was written as {show(got)}, expected {show(want)}")
    s, plain = attempt(wire.decode, name, data)
    require(s == "ok", lambda: f"{name}: {kind} {show(f)} is not written in plain {name}, other implementations cannot read it: {plain}")
    require(same(plain, want), lambda: f"{name}: {kind} was written as {show(plain)} (by an independent decoder), expected {show(want)}")
    marshalled = spec.build(kind, clone(f)).marshal()
    require(same(marshalled, want), lambda: f"{kind}.marshal() gave {show(marshalled)}, expected {show(want)}")
    ctx.label(name, kind)
    if f.get("serializer") is not None:
        ctx.hit("payload serializer")
    if f.get("args") is not None or f.get("kwargs") is not None:
        ctx.hit("args or kwargs")
    if any(v is None for v in f.values()):
        ctx.hit("absent optional")
    if any(isinstance(v, dict) and v for v in f.values()):
        ctx.hit("dictionary")


def inbound():
    def extras(t):
        name, kind, f, bits, extra, nulls = t
        return (name, kind, f, bits, extra, nulls)

    return st.sampled_from(gen.SERIALIZERS).flatmap(
        lambda s: st.tuples(gen.message(s), st.lists(st.integers(0, 11), max_size=12), gen.strdict(s), st.booleans()).map(
            lambda t: extras((s, t[0][0], t[0][1], t[1], t[2], t[3]))
        )
    )


def check_in(case, ctx):
    name, kind, f, bits, extra, nulls = case
    ser = gen.serializer(name)
    arr = spec.ref_encode(kind, f)
    if kind in ("Hello", "Welcome"):
        d = arr[2]
        known = ("roles", "authid", "authrole", "authmethod", "authmethods", "authextra")
        for k, v in extra.items():
            if k not in known:
                d.setdefault(k, v)
        if nulls:
            for k in ("authid", "authrole", "authmethod", "authmethods", "authextra"):
                d.setdefault(k, None)
    data = wire.encode(name, arr, bits)
    if not same(gen.ref_loads(name, data), arr):
        from vf.core import HarnessError

        raise HarnessError(f"the harness' {name} encoder disagrees with the reference decoder on {arr!r}")
    back = ser.deserialize(data)
    require(spec.kind_of(back) == kind, lambda: f"{name}: {kind} was decoded as {type(back).__name__}")
    want = spec.roundtripped(kind, f)
    got = spec.read(back)
    require(same(got, want), lambda: f"{name}: array {show(arr)} was decoded as {show(got)}, expected {show(want)}")
    ctx.label(name, kind)
    if any(bits):
        ctx.hit("foreign encoding")
    if kind in ("Hello", "Welcome") and (extra or nulls):
        ctx.hit("unknown or null details")


def check_static(case, ctx):
    """Codes and names of the kinds."""
    from wampproto import messages

    for kind in spec.KINDS:
        cls = getattr(messages, kind)
        require(cls.TYPE == spec.TABLE[kind][0] and type(cls.TYPE) is int, lambda: f"{kind}.TYPE is {cls.TYPE!r}")
        require(cls.TEXT == kind.upper(), lambda: f"{kind}.TEXT is {cls.TEXT!r}")
    ctx.hit("codes")


RELATIONS = [
    Relation("outbound", lambda: st.one_of(gen.ser_message(payload=True), gen.ser_message(payload=True), gen.ser_message(tuple(spec.PAYLOAD_KINDS), payload=True)), check_out, 9000),
    Relation("inbound", inbound, check_in, 6000),
    Relation("codes", None, check_static, cases=lambda tier: [()]),
]
ASSUMPTIONS = ["json, msgpack and cbor2 decode the wire format correctly (they are the reference decoders here)"]
