from hypothesis import strategies as st

from vf import gen, spec, wire
from vf.core import Relation, attempt, clone, is_plain, require, same, show

RULE = (
    "a case is one byte string or text given to a serializer's deserialize and judged by reference decoder plus reference "
    "validator; it is non-trivial when the reference decoder got past the syntax (so the message rules decided) or the "
    "input is a damaged encoding of a valid message"
)


def well_formed(msg):
    """The fields of an accepted message satisfy the type rules, whatever objects the decoder produced."""
    kind = spec.kind_of(msg)
    if kind is None:
        return f"not one of the 24 kinds: {type(msg).__name__}"
    f = spec.read(msg)
    for n, t in spec.TABLE[kind][1]:
        if t == "id" and not (type(f[n]) is int and 1 <= f[n] <= 2**53):
            return f"{kind}.{n} is {show(f[n])}"
        if t == "int" and not (isinstance(f[n], int) and not isinstance(f[n], bool)):
            return f"{kind}.{n} is {show(f[n])}"
        if t == "str" and not isinstance(f[n], str):
            return f"{kind}.{n} is {show(f[n])}"
        if t == "dict" and not isinstance(f[n], dict):
            return f"{kind}.{n} is {show(f[n])}"
        if t in ("hello", "welcome"):
            if not isinstance(f["roles"], dict) or not f["roles"] or any(not isinstance(r, str) or r not in spec.ROLES for r in f["roles"]):
                return f"{kind}.roles is {show(f['roles'])}"
            for k in spec.HELLO_KEYS if t == "hello" else spec.WELCOME_KEYS:
                if f[k] is not None and not isinstance(f[k], spec.DETAIL_TYPES[k]):
                    return f"{kind}.{k} is {show(f[k])}"
    if spec.TABLE[kind][2]:
        if f["args"] is not None and not isinstance(f["args"], list):
            return f"{kind}.args is {show(f['args'])}"
        if f["kwargs"] is not None and not isinstance(f["kwargs"], dict):
            return f"{kind}.kwargs is {show(f['kwargs'])}"
    return None


def judge(name, data, ctx):
    ser = gen.serializer(name)
    rs, obj = attempt(gen.ref_loads, name, data)
    s, v = attempt(ser.deserialize, data)
    ctx.label(name, "decoder refused" if rs == "err" else "decoded")
    if s == "ok":
        bad = well_formed(v)
        require(bad is None, lambda: f"{name}: accepted an ill-formed message: {bad}")
        ctx.label("accepted")
    else:
        allowed = (ValueError, TypeError) + ((type(obj),) if rs == "err" else ())
        require(isinstance(v, allowed), lambda: f"{name}: input was answered with {type(v).__name__}: {v}")
    if rs == "err":
        require(s == "err", lambda: f"{name}: accepted as {show(v)} what cannot be decoded ({type(obj).__name__})")
        return
    if not is_plain(obj):
        ctx.label("exotic data")
        return
    ctx.hit("past the syntax")
    want = spec.ref_validate(obj)
    if want is None:
        require(s == "err", lambda: f"{name}: accepted the ill-formed {show(obj)}")
        return
    require(s == "ok", lambda: f"{name}: refused the well-formed {show(obj)}: {type(v).__name__}: {v}")
    require(same(spec.read(v), want[1]), lambda: f"{name}: read {show(spec.read(v))} from {show(obj)}")
    s2, again = attempt(ser.serialize, v)
    if s2 == "err":
        s3, _ = attempt(gen.ref_dumps, name, spec.ref_encode(*want))
        require(s3 == "err", lambda: f"{name}: accepted message cannot be serialized again: {again}")
        return
    back = ser.deserialize(again)
    w2 = dict(want[1])
    if "args" in w2 and w2["kwargs"] is not None and w2["args"] is None:
        w2["args"] = []
    require(type(back) is type(v) and same(spec.read(back), w2), lambda: f"{name}: {show(v)} became {show(back)} when sent on")


def check_bytes(case, ctx):
    name, data = case
    judge(name, data, ctx)


def check_damaged(case, ctx):
    name, kind, f, bits, muts = case
    data = wire.encode(name, spec.ref_encode(kind, f), bits)
    text = isinstance(data, str)
    if text:
        data = data.encode("utf-8", "surrogatepass")
    data = bytearray(data)
    for op, pos, val in muts:
        if not data:
            break
        p = pos % len(data)
        if op == 0:
            data[p] = val
        elif op == 1:
            data[p] ^= 1 << (val % 8)
        elif op == 2:
            del data[p : p + 1 + val % 4]
        elif op == 3:
            data.insert(p, val)
        elif op == 4:
            del data[p:]
        elif op == 5:
            q = min(len(data), p + 1 + val % 9)
            data[p:p] = data[p:q]
        elif op == 6:
            data.append(val)
        elif op == 7:
            data[p] = (data[p] + val) & 0xFF
    ctx.hit("damaged encoding")
    if text:
        s = bytes(data).decode("utf-8", "replace")
        judge(name, s, ctx)
        judge(name, bytes(data), ctx)
    else:
        judge(name, bytes(data), ctx)


JSON_BITS = ["[", "]", "{", "}", ",", ":", '"', "1", "48", "16", "68", "null", "true", "false", '"x"', '{}', "[]", "1.0", "-1", "NaN", "Infinity",
             '"roles"', '{"roles":{"caller":{}}}', "9007199254740992", "9007199254740993", "1e3", "\\u0000", " ", "\n", '"com.x"', "2", "8", "70", "'", "\ud800"]


def raw():
    cbor_head = st.sampled_from([bytes([b]) for b in range(256)])
    tokens = st.lists(st.one_of(cbor_head, st.sampled_from([b"\x18\x30", b"\x19\x01\x00", b"\x1b" + b"\xff" * 8, b"\xa1\x65roles\xa1\x66caller\xa0", b"\x81", b"\x83", b"\x84", b"\x85", b"\xd8\x1c", b"\xd8\x1d\x00", b"\xc1", b"\xf7", b"\xfb\x7f\xf0" + b"\0" * 6])), max_size=20).map(b"".join)
    mp = st.lists(st.one_of(cbor_head, st.sampled_from([b"\x94", b"\x93", b"\x95", b"\x30", b"\xa1x", b"\x80", b"\x90", b"\x81\xa5roles\x81\xa6caller\x80", b"\xcf" + b"\xff" * 8, b"\xcf\x00\x20" + b"\0" * 6, b"\xd6\xff\0\0\0\1"])), max_size=16).map(b"".join)
    return st.one_of(
        st.tuples(st.just("json"), st.one_of(st.text(max_size=40), st.lists(st.sampled_from(JSON_BITS), max_size=24).map("".join), st.binary(max_size=40))),
        st.tuples(st.just("json"), st.integers(0, 40).map(lambda n: "[" * n + "1" + "]" * n)),
        st.tuples(st.just("msgpack"), st.one_of(st.binary(max_size=40), mp)),
        st.tuples(st.just("cbor"), st.one_of(st.binary(max_size=40), tokens)),
        st.tuples(st.just("cbor"), st.sampled_from([(3, b"\x83"), (4, b"\x84"), (5, b"\x85"), (2, b"\x82"), (6, b"\x86")]).flatmap(lambda t: st.tuples(st.just(t[1]), st.sampled_from([bytes([0x18, c]) if c > 23 else bytes([c]) for c in sorted(spec.BY_CODE)]), tokens).map(b"".join))),
        st.tuples(st.just("msgpack"), st.tuples(st.sampled_from([b"\x92", b"\x93", b"\x94", b"\x95", b"\x96"]), st.sampled_from([bytes([c]) for c in sorted(spec.BY_CODE)]), mp).map(b"".join)),
    )


def damaged():
    return st.sampled_from(gen.SERIALIZERS).flatmap(
        lambda s: st.tuples(
            gen.message(s),
            st.lists(st.integers(0, 11), max_size=6),
            st.lists(st.tuples(st.integers(0, 7), st.integers(0, 400), st.integers(0, 255)), min_size=0, max_size=4),
        ).map(lambda t: (s, t[0][0], t[0][1], t[1], t[2]))
    )


def check_ends(case, ctx):
    """Every truncation and every single-byte change of one encoding."""
    name, kind, f, bits, delta = case
    data = wire.encode(name, spec.ref_encode(kind, f), bits)
    if isinstance(data, str):
        data = data.encode()
    data = data[:160]
    for i in range(len(data) + 1):
        judge(name, data[:i], ctx)
    for i in range(len(data)):
        judge(name, data[:i] + bytes([data[i] ^ delta]) + data[i + 1 :], ctx)


def small():
    return st.sampled_from(gen.SERIALIZERS).flatmap(
        lambda s: st.tuples(gen.message(s), st.lists(st.integers(0, 11), max_size=4), st.integers(1, 255)).map(lambda t: (s, t[0][0], t[0][1], t[1], t[2]))
    )


RELATIONS = [
    Relation("raw", raw, check_bytes, 12000),
    Relation("damaged", damaged, check_damaged, 8000),
    Relation("every-position", small, check_ends, 500),
]
ASSUMPTIONS = ["json, msgpack and cbor2 as installed are the reference decoders; their own errors count as reporting bad input"]
