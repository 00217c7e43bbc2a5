from hypothesis import strategies as st

from vf import dictionary
from vf.core import Relation, attempt, refused, require, show

RULE = (
    "a case is one handshake written and read back, or one block of byte strings read; every case decides at least one "
    "verdict, and it is non-trivial when it is at a power of two or its neighbours, or varies the reserved or magic bytes"
)


def rs():
    from wampproto.transports import rawsocket

    return rawsocket


def write_all(h):
    r = rs()
    a, b = h.to_bytes(), r.send_handshake(h)
    require(a == b and isinstance(a, (bytes, bytearray)), lambda: f"to_bytes and send_handshake disagree: {show(a)} {show(b)}")
    return bytes(a)


def check_write(case, ctx):
    proto, size = case
    r = rs()
    exp = size.bit_length() - 1  # next lower power of two
    data = write_all(r.Handshake(proto, size))
    want = bytes([0x7F, (exp - 9) << 4 | proto, 0, 0])
    require(data == want, lambda: f"handshake(protocol={proto}, size={size}) was written as {data.hex()}, expected {want.hex()}")
    for back in (r.Handshake.from_bytes(data), r.receive_handshake(data)):
        require(back.protocol == proto and back.max_msg_size == 1 << exp, lambda: f"handshake({proto}, {size}) read back as ({back.protocol}, {back.max_msg_size})")
        require(type(back.protocol) is int and type(back.max_msg_size) is int, "fields are not integers")
    ctx.label("power of two" if size & (size - 1) == 0 else "between powers")
    ctx.hit("written")


def enum_write(tier):
    out = []
    for p in range(16):
        for e in range(9, 25):
            out.append((p, 1 << e))
    for e in range(9, 24):
        for d in (1, 2, 3, 7, 100, 255):
            for s in ((1 << e) + d, (1 << (e + 1)) - d):
                if 512 <= s <= 1 << 24:
                    out.append(((e + d) % 16, s))
    return out


def writes():
    return st.tuples(st.integers(0, 15), st.one_of(st.integers(512, 2**24), st.sampled_from(dictionary.ints(512, 2**24) or [512])))


def check_small(case, ctx):
    proto, size = case
    r = rs()
    h = r.Handshake(proto, size)
    refused(h.to_bytes, what=f"handshake with size {size}")
    refused(r.send_handshake, h, what=f"handshake with size {size}")
    ctx.hit("too small")


def enum_small(tier):
    return [(p, s) for p in (0, 1, 2, 3, 15) for s in [*range(0, 512, 1 if p == 1 else 37), 511, 0]]


def check_reserved(case, ctx):
    """All 65536 values of the reserved bytes for one second byte."""
    (second,) = case
    r = rs()
    read = r.receive_handshake
    for x in range(256):
        for y in range(256):
            data = bytes((0x7F, second, x, y))
            if x == 0 and y == 0:
                for h in (read(data), r.Handshake.from_bytes(data)):
                    require(h.protocol == second & 15 and h.max_msg_size == 1 << ((second >> 4) + 9), lambda: f"{data.hex()} read as ({h.protocol}, {h.max_msg_size})")
                require(write_all(read(data)) == data, lambda: f"{data.hex()} is not written back the same")
                continue
            try:
                read(data)
            except ValueError:
                continue
            require(False, f"handshake {data.hex()} with non-zero reserved bytes was accepted")
    ctx.hit("reserved bytes exhaustively")


def check_magic(case, ctx):
    (second,) = case
    r = rs()
    for m in range(256):
        if m != 0x7F:
            refused(r.receive_handshake, bytes((m, second, 0, 0)), what=f"handshake with first byte {m:#x}")
            refused(r.Handshake.from_bytes, bytes((m, second, 0, 0)), what=f"handshake with first byte {m:#x}")
    ctx.hit("magic exhaustively")


def check_length(case, ctx):
    (data,) = case
    r = rs()
    good = len(data) == 4 and data[0] == 0x7F and data[2] == 0 and data[3] == 0
    for fn in (r.receive_handshake, r.Handshake.from_bytes):
        for d in (data, bytearray(data)):
            s, v = attempt(fn, d)
            if good:
                require(s == "ok" and v.protocol == data[1] & 15 and v.max_msg_size == 512 << (data[1] >> 4), lambda: f"{data.hex()} gave {show(v)}")
            else:
                require(s == "err", lambda: f"the handshake {data.hex()} was accepted")
                require(isinstance(v, ValueError), lambda: f"{data.hex()} was refused with {type(v).__name__}: {v}")
    ctx.hit("accepted" if good else "refused")
    if len(data) != 4:
        ctx.label("wrong length")


def lengths():
    valid = st.integers(0, 255).map(lambda b: bytes((0x7F, b, 0, 0)))
    return st.tuples(
        st.one_of(
            st.binary(max_size=8), valid, valid.flatmap(lambda v: st.integers(0, 4).map(lambda n: v[:n])), st.tuples(valid, st.binary(min_size=1, max_size=5)).map(b"".join),
            st.tuples(valid, st.binary(min_size=1, max_size=5)).map(lambda t: t[1] + t[0]), st.integers(0, 300).map(lambda n: b"\x7f" * n), st.tuples(valid, st.integers(2, 64)).map(lambda t: t[0] * t[1]),
            st.tuples(st.integers(0, 255), st.sampled_from([(0, 1), (1, 0), (255, 0), (0, 255), (128, 0), (0, 128)])).map(lambda t: bytes((0x7F, t[0], *t[1]))),
        )
    )


def check_named(case, ctx):
    """The serializers the library has names for go by the protocol's numbers."""
    name, number, size = case
    r = rs()
    data = write_all(r.Handshake(getattr(r, "SERIALIZER_TYPE_" + name), size))
    require(data == bytes([0x7F, (size.bit_length() - 10) << 4 | number, 0, 0]), lambda: f"handshake for {name} with {size}: {show(data)}")
    ctx.hit("named serializer")


RELATIONS = [
    Relation("named", None, check_named, cases=lambda tier: [(n, i, 1 << k) for n, i in (("JSON", 1), ("MSGPACK", 2), ("CBOR", 3)) for k in range(9, 25)]),
    Relation("write-table", None, check_write, cases=enum_write),
    Relation("write", writes, check_write, 4000),
    Relation("too-small", None, check_small, cases=enum_small),
    Relation("reserved", None, check_reserved, cases=lambda tier: [(b,) for b in range(256)]),
    Relation("magic", None, check_magic, cases=lambda tier: [(b,) for b in (range(256) if tier == "thorough" else (0, 1, 0x0F, 0xF1, 0x7F, 0xFF))]),
    Relation("lengths", lengths, check_length, 4000),
]
EXHAUSTIVE_NOTE = "all 2^24 four-byte inputs with the magic first byte; all 16 serializer numbers x all 16 power-of-two sizes; all sizes 0..511"
