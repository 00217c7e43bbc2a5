"""Encoders of plain data written from the JSON, MessagePack and CBOR specifications that vary the encoding the way other
implementations may (non-minimal lengths, indefinite lengths, whitespace, escapes)."""
import json
import struct


class Choices:
    def __init__(self, bits):
        self.bits = bits
        self.i = 0

    def __call__(self, n):
        if not self.bits:
            return 0
        v = self.bits[self.i % len(self.bits)]
        self.i += 1
        return v % n


def enc_json(v, c):
    ws = lambda: ("", " ", "\n", "\t ", "\r\n")[c(5)]  # noqa: E731
    if v is None or v is True or v is False or isinstance(v, (int, float)):
        return json.dumps(v)
    if isinstance(v, str):
        how = c(3)
        if how == 0:
            return json.dumps(v)
        if how == 1:
            return json.dumps(v, ensure_ascii=False)
        out = []
        for ch in v:
            o = ord(ch)
            if o > 0xFFFF:
                o -= 0x10000
                out.append("\\u%04x\\u%04X" % (0xD800 + (o >> 10), 0xDC00 + (o & 0x3FF)))
            else:
                out.append("\\u%04x" % o)
        return '"' + "".join(out) + '"'
    if isinstance(v, list):
        return "[" + ws() + ("," + ws()).join(enc_json(x, c) + ws() for x in v) + "]"
    return "{" + ws() + ("," + ws()).join(enc_json(k, c) + ws() + ":" + ws() + enc_json(x, c) for k, x in v.items()) + "}"


def enc_msgpack(v, c):
    if v is None:
        return b"\xc0"
    if v is True:
        return b"\xc3"
    if v is False:
        return b"\xc2"
    if isinstance(v, int):
        forms = []
        if 0 <= v < 128:
            forms.append(struct.pack("B", v))
        if -32 <= v < 0:
            forms.append(struct.pack("b", v))
        for code, f, lo, hi in (
            (0xCC, ">B", 0, 2**8), (0xCD, ">H", 0, 2**16), (0xCE, ">I", 0, 2**32), (0xCF, ">Q", 0, 2**64),
            (0xD0, ">b", -(2**7), 2**7), (0xD1, ">h", -(2**15), 2**15), (0xD2, ">i", -(2**31), 2**31), (0xD3, ">q", -(2**63), 2**63),
        ):
            if lo <= v < hi:
                forms.append(bytes([code]) + struct.pack(f, v))
        return forms[c(len(forms))]
    if isinstance(v, float):
        return b"\xcb" + struct.pack(">d", v)
    if isinstance(v, str):
        b = v.encode()
        forms = []
        if len(b) < 32:
            forms.append(bytes([0xA0 | len(b)]))
        if len(b) < 256:
            forms.append(struct.pack(">BB", 0xD9, len(b)))
        if len(b) < 65536:
            forms.append(struct.pack(">BH", 0xDA, len(b)))
        forms.append(struct.pack(">BI", 0xDB, len(b)))
        return forms[c(len(forms))] + b
    if isinstance(v, bytes):
        forms = []
        if len(v) < 256:
            forms.append(struct.pack(">BB", 0xC4, len(v)))
        if len(v) < 65536:
            forms.append(struct.pack(">BH", 0xC5, len(v)))
        forms.append(struct.pack(">BI", 0xC6, len(v)))
        return forms[c(len(forms))] + v
    n = len(v)
    small, c16, c32 = (0x90, 0xDC, 0xDD) if isinstance(v, list) else (0x80, 0xDE, 0xDF)
    forms = []
    if n < 16:
        forms.append(bytes([small | n]))
    if n < 65536:
        forms.append(struct.pack(">BH", c16, n))
    forms.append(struct.pack(">BI", c32, n))
    head = forms[c(len(forms))]
    if isinstance(v, list):
        return head + b"".join(enc_msgpack(x, c) for x in v)
    return head + b"".join(enc_msgpack(k, c) + enc_msgpack(x, c) for k, x in v.items())


def _cbor_head(major, n, c):
    forms = []
    if n < 24:
        forms.append(bytes([major << 5 | n]))
    for code, f, hi in ((24, ">B", 2**8), (25, ">H", 2**16), (26, ">I", 2**32), (27, ">Q", 2**64)):
        if n < hi:
            forms.append(bytes([major << 5 | code]) + struct.pack(f, n))
    return forms[c(len(forms))]


def enc_cbor(v, c):
    if v is None:
        return b"\xf6"
    if v is True:
        return b"\xf5"
    if v is False:
        return b"\xf4"
    if isinstance(v, int):
        if -(2**64) <= v < 2**64:
            return _cbor_head(0, v, c) if v >= 0 else _cbor_head(1, -1 - v, c)
        tag, m = (2, v) if v >= 0 else (3, -1 - v)
        b = m.to_bytes((m.bit_length() + 7) // 8, "big")
        return bytes([0xC0 | tag]) + _cbor_head(2, len(b), c) + b
    if isinstance(v, float):
        if v == v and c(2):
            for code, f in ((0xF9, ">e"), (0xFA, ">f")):
                try:
                    b = struct.pack(f, v)
                except OverflowError:
                    continue
                if struct.unpack(f, b)[0] == v:
                    return bytes([code]) + b
        return b"\xfb" + struct.pack(">d", v)
    if isinstance(v, (str, bytes)):
        major = 3 if isinstance(v, str) else 2
        if c(4) == 3 and len(v) > 1:
            k = len(v) // 2
            return bytes([major << 5 | 31]) + enc_cbor_chunk(v[:k], c) + enc_cbor_chunk(v[k:], c) + b"\xff"
        return enc_cbor_chunk(v, c)
    major = 4 if isinstance(v, list) else 5
    body = b"".join(enc_cbor(x, c) for x in v) if major == 4 else b"".join(enc_cbor(k, c) + enc_cbor(x, c) for k, x in v.items())
    if c(3) == 2:
        return bytes([major << 5 | 31]) + body + b"\xff"
    return _cbor_head(major, len(v), c) + body


def enc_cbor_chunk(v, c):
    b = v.encode() if isinstance(v, str) else v
    return _cbor_head(3 if isinstance(v, str) else 2, len(b), c) + b


def encode(name, v, bits):
    return {"json": enc_json, "msgpack": enc_msgpack, "cbor": enc_cbor}[name](v, Choices(bits))


# ------------------------------------------------------------------------------------------------------------ decoders


class Bad(Exception):
    """Not the plain encoding of plain data."""


def _need(ok, what):
    if not ok:
        raise Bad(what)


class Reader:
    def __init__(self, data):
        self.data, self.at = bytes(data), 0

    def take(self, n):
        _need(self.at + n <= len(self.data), "truncated")
        self.at += n
        return self.data[self.at - n:self.at]

    def unpack(self, f):
        return struct.unpack(f, self.take(struct.calcsize(f)))[0]


def _text(b):
    try:
        return b.decode("utf-8")
    except UnicodeDecodeError as e:
        raise Bad(f"text is not UTF-8: {b!r}") from e


def _map(pairs):
    out = {}
    for k, v in pairs:
        _need(k not in out, f"key {k!r} twice")
        out[k] = v
    return out


def dec_msgpack(r):
    b = r.take(1)[0]
    if b < 0x80:
        return b
    if b >= 0xE0:
        return b - 256
    if b < 0x90:
        return _map((dec_msgpack(r), dec_msgpack(r)) for _ in range(b & 15))
    if b < 0xA0:
        return [dec_msgpack(r) for _ in range(b & 15)]
    if b < 0xC0:
        return _text(r.take(b & 31))
    if b in (0xC0, 0xC2, 0xC3):
        return {0xC0: None, 0xC2: False, 0xC3: True}[b]
    if b in (0xCA, 0xCB):
        return r.unpack(">f" if b == 0xCA else ">d")
    if 0xCC <= b <= 0xD3:
        return r.unpack(">" + "BHIQbhiq"[b - 0xCC])
    size = {0xC4: ">B", 0xC5: ">H", 0xC6: ">I", 0xD9: ">B", 0xDA: ">H", 0xDB: ">I", 0xDC: ">H", 0xDD: ">I", 0xDE: ">H", 0xDF: ">I"}.get(b)
    _need(size is not None, f"MessagePack code {b:#x}")
    n = r.unpack(size)
    if b <= 0xC6:
        return r.take(n)
    if b <= 0xDB:
        return _text(r.take(n))
    if b <= 0xDD:
        return [dec_msgpack(r) for _ in range(n)]
    return _map((dec_msgpack(r), dec_msgpack(r)) for _ in range(n))


def dec_cbor(r, chunk=None):
    b = r.take(1)[0]
    major, n = b >> 5, b & 31
    if major == 7:
        _need(chunk is None, "bad chunk")
        if n in (20, 21, 22):
            return {20: False, 21: True, 22: None}[n]
        _need(n in (25, 26, 27), f"CBOR simple value {n}")
        return r.unpack({25: ">e", 26: ">f", 27: ">d"}[n])
    _need(n <= 27 or n == 31, "CBOR length")
    _need(chunk is None or (major == chunk and n != 31), "bad chunk")
    if n == 31:
        _need(major in (2, 3, 4, 5), "indefinite length")
        parts = []
        while r.data[r.at:r.at + 1] != b"\xff":
            parts.append(dec_cbor(r, major if major < 4 else None))
        r.take(1)
        if major == 5:
            _need(len(parts) % 2 == 0, "odd map")
            return _map(zip(parts[::2], parts[1::2]))
        return parts if major == 4 else (b"" if major == 2 else "").join(parts)
    if n >= 24:
        n = r.unpack({24: ">B", 25: ">H", 26: ">I", 27: ">Q"}[n])
    if major == 0:
        return n
    if major == 1:
        return -1 - n
    if major in (2, 3):
        return r.take(n) if major == 2 else _text(r.take(n))
    if major == 4:
        return [dec_cbor(r) for _ in range(n)]
    if major == 5:
        return _map((dec_cbor(r), dec_cbor(r)) for _ in range(n))
    _need(n in (2, 3), f"CBOR tag {n}")
    m = int.from_bytes(dec_cbor(r, 2), "big")
    return m if n == 2 else -1 - m


def decode(name, data):
    """Plain data from its plain encoding: no tags, extensions, references or anything that follows."""
    if name == "json":
        def constant(c):
            raise Bad(f"JSON has no {c}")

        try:
            return json.loads(data, parse_constant=constant, object_pairs_hook=_map)
        except ValueError as e:
            raise Bad(str(e)) from e
    r = Reader(data)
    out = (dec_msgpack if name == "msgpack" else dec_cbor)(r)
    _need(r.at == len(r.data), "something follows")
    return out
