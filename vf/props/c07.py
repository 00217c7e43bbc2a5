from hypothesis import strategies as st

from vf import dictionary
from vf.core import Relation, refused, require

RULE = (
    "a case is one header (or a block of 8192 consecutive lengths, or a stream of frames) written and read back; it is "
    "non-trivial when the length needs more than one byte, is out of range, or several frames follow each other"
)
MAX = 1 << 24


def rs():
    from wampproto.transports import rawsocket

    return rawsocket


def one(r, kind, length):
    data = r.MessageHeader(kind, length).to_bytes()
    require(isinstance(data, bytes) and data == bytes((kind,)) + length.to_bytes(3, "big"), lambda: f"header({kind}, {length}) was written as {data!r}")
    back = r.MessageHeader.from_bytes(data)
    require(back.kind == kind and back.length == length and type(back.length) is int, lambda: f"header({kind}, {length}) read back as ({back.kind}, {back.length})")


def check_block(case, ctx):
    kind, base, step = case
    r = rs()
    for n in range(base, min(base + 8192 * step, MAX), step):
        one(r, (kind + n) & 0xFF, n)
    ctx.hit("block of lengths")


def blocks(tier):
    if tier == "thorough":
        return [(7 * (b // 8192), b, 1) for b in range(0, MAX, 8192)]
    out = [(0, 0, 1), (3, MAX - 8192, 1), (1, 65536 - 4096, 1), (2, 1 << 23, 1)]
    return out + [(k, k * 31 % 251, 251 * 2) for k in range(0, 32)] + [(k, b, 61) for k, b in enumerate(range(0, MAX, 8192 * 61))]


def check_kinds(case, ctx):
    (length,) = case
    r = rs()
    for kind in range(256):
        one(r, kind, length)
    ctx.hit("all kinds")


def check_one(case, ctx):
    kind, length = case
    r = rs()
    if 0 <= length < MAX:
        one(r, kind, length)
        ctx.label("fits")
        if length > 255:
            ctx.hit("multi-byte length")
    else:
        refused(r.MessageHeader(kind, length).to_bytes, what=f"header with length {length}") if _constructs(r, kind, length) else None
        ctx.hit("does not fit")


def _constructs(r, kind, length):
    """Refusing in the constructor with ValueError is as good."""
    try:
        r.MessageHeader(kind, length)
    except ValueError:
        return False
    return True


def headers():
    edge = st.sampled_from(sorted({(1 << k) + d for k in range(0, 40) for d in (-1, 0, 1)} | {-(1 << k) for k in range(0, 40, 3)} | set(dictionary.ints(-(2**40), 2**40))))
    return st.tuples(st.integers(0, 255), st.one_of(st.integers(0, MAX - 1), edge, st.integers(MAX, 2**34), st.integers(-(2**34), -1), st.integers(2**24, 2**70)))


def check_stream(case, ctx):
    """Frames written back to back are split into the same frames by reading headers."""
    r = rs()
    frames = [(k, bytes((k * 31 + n) % 256 for _ in range(1)) * n) for k, n in case]
    stream = b"".join(r.MessageHeader(k, len(p)).to_bytes() + p for k, p in frames)
    pos, got = 0, []
    while pos < len(stream):
        require(len(stream) - pos >= 4, "stream ends inside a header")
        h = r.MessageHeader.from_bytes(stream[pos : pos + 4])
        pos += 4
        require(pos + h.length <= len(stream), lambda: f"header announces {h.length} bytes, more than follow")
        got.append((h.kind, stream[pos : pos + h.length]))
        pos += h.length
    require(got == frames, lambda: f"{[(k, len(p)) for k, p in frames]} was split into {[(k, len(p)) for k, p in got]}")
    if len(frames) > 1:
        ctx.hit("several frames")


def streams():
    size = st.one_of(st.integers(0, 5), st.sampled_from([0, 127, 128, 255, 256, 257, 65535, 65536, 65537, 70000]), st.integers(0, 3000))
    return st.lists(st.tuples(st.sampled_from([0, 1, 2, 3, 127, 128, 255]), size), max_size=8)


def check_helpers(case, ctx):
    (n,) = case
    r = rs()
    require(r.int_to_bytes(n) == n.to_bytes(3, "big"), lambda: f"int_to_bytes({n}) = {r.int_to_bytes(n)!r}")
    require(r.bytes_to_int(n.to_bytes(3, "big")) == n, lambda: f"bytes_to_int of {n} = {r.bytes_to_int(n.to_bytes(3, 'big'))}")
    if n > 255:
        ctx.hit("helper")


def check_named(case, ctx):
    """The kinds of frame the library has names for go by the protocol's numbers."""
    name, number, length = case
    r = rs()
    data = r.MessageHeader(getattr(r, "MSG_TYPE_" + name), length).to_bytes()
    require(data == bytes([number]) + length.to_bytes(3, "big"), lambda: f"header of {name} with {length}: {data!r}")
    ctx.hit("named kind")


RELATIONS = [
    Relation("named", None, check_named, cases=lambda tier: [(n, i, k) for n, i in (("WAMP", 0), ("PING", 1), ("PONG", 2)) for k in (0, 1, 255, 256, 65536, MAX - 1)]),
    Relation("lengths", None, check_block, cases=blocks),
    Relation("kinds", None, check_kinds, cases=lambda tier: [(n,) for n in (0, 1, 255, 256, 65535, 65536, MAX - 1)]),
    Relation("header", headers, check_one, 6000),
    Relation("stream", streams, check_stream, 1500),
    Relation("helpers", lambda: st.tuples(st.one_of(st.integers(0, MAX - 1), st.integers(0, 23).map(lambda k: 1 << k))), check_helpers, 1500),
]
EXHAUSTIVE_NOTE = "thorough tier: all 2^24 lengths; quick tier: 0..8191, the last 8192, around 2^16 and 2^23, and strided over the whole range"
