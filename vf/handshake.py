"""Reference cryptography, a programmable router-side authenticator, and strategies for handshakes."""
import base64
import binascii
import hashlib

from hypothesis import strategies as st

from vf import gen

METHODS = ("anonymous", "ticket", "wampcra", "wampcra-salted", "cryptosign")


# ------------------------------------------------------------------------- HMAC, PBKDF2 and Ed25519 from their definitions


def ref_hmac(key, msg):
    if len(key) > 64:
        key = hashlib.sha256(key).digest()
    key = key.ljust(64, b"\0")
    inner = hashlib.sha256(bytes(b ^ 0x36 for b in key) + msg).digest()
    return hashlib.sha256(bytes(b ^ 0x5C for b in key) + inner).digest()


def ref_pbkdf2(secret, salt, iterations, keylen):
    out = b""
    i = 1
    while len(out) < keylen:
        u = ref_hmac(secret, salt + i.to_bytes(4, "big"))
        t = int.from_bytes(u, "big")
        for _ in range(iterations - 1):
            u = ref_hmac(secret, u)
            t ^= int.from_bytes(u, "big")
        out += t.to_bytes(32, "big")
        i += 1
    return out[:keylen]


def cra_key(secret, salt=None, iterations=0, keylen=0):
    """The HMAC key of a WAMP-CRA client."""
    if salt is None:
        return secret.encode()
    return base64.b64encode(ref_pbkdf2(secret.encode(), salt.encode(), iterations, keylen))


def cra_sign(key, challenge):
    return base64.b64encode(ref_hmac(key, challenge.encode())).decode()


P = 2**255 - 19
L = 2**252 + 27742317777372353535851937790883648493
D = -121665 * pow(121666, P - 2, P) % P
I = pow(2, (P - 1) // 4, P)  # noqa: E741


def _add(p, q):
    a = (p[1] - p[0]) * (q[1] - q[0]) % P
    b = (p[1] + p[0]) * (q[1] + q[0]) % P
    c = 2 * p[3] * q[3] * D % P
    d = 2 * p[2] * q[2] % P
    e, f, g, h = b - a, d - c, d + c, b + a
    return e * f % P, g * h % P, f * g % P, e * h % P


def _mul(s, p):
    q = (0, 1, 1, 0)
    while s:
        if s & 1:
            q = _add(q, p)
        p = _add(p, p)
        s >>= 1
    return q


def _x(y, sign):
    x2 = (y * y - 1) * pow(D * y * y + 1, P - 2, P)
    x = pow(x2, (P + 3) // 8, P)
    if (x * x - x2) % P:
        x = x * I % P
    return P - x if x & 1 != sign else x


_gy = 4 * pow(5, P - 2, P) % P
_gx = _x(_gy, 0)
G = (_gx, _gy, 1, _gx * _gy % P)


def _compress(p):
    z = pow(p[2], P - 2, P)
    x, y = p[0] * z % P, p[1] * z % P
    return (y | ((x & 1) << 255)).to_bytes(32, "little")


def _expand(seed):
    h = hashlib.sha512(seed).digest()
    a = int.from_bytes(h[:32], "little")
    return (a & ((1 << 254) - 8)) | (1 << 254), h[32:]


def ed_public(seed):
    return _compress(_mul(_expand(seed)[0], G))


def ed_sign(seed, msg):
    a, prefix = _expand(seed)
    pub = _compress(_mul(a, G))
    r = int.from_bytes(hashlib.sha512(prefix + msg).digest(), "little") % L
    rr = _compress(_mul(r, G))
    h = int.from_bytes(hashlib.sha512(rr + pub + msg).digest(), "little") % L
    return rr + ((r + h * a) % L).to_bytes(32, "little")


def nacl_public(seed):
    from nacl.bindings import crypto_sign_seed_keypair

    return crypto_sign_seed_keypair(seed)[0]


def nacl_sign(seed, msg):
    """The 64 byte signature, straight from libsodium."""
    from nacl.bindings import crypto_sign, crypto_sign_seed_keypair

    return crypto_sign(msg, crypto_sign_seed_keypair(seed)[1])[:64]


def nacl_verify(pub, sig, msg):
    from nacl.bindings import crypto_sign_open
    from nacl.exceptions import CryptoError

    try:
        return crypto_sign_open(sig + msg, pub) == msg
    except (CryptoError, ValueError):
        return False


def cs_proof(seed, challenge):
    """The cryptosign AUTHENTICATE signature for a challenge."""
    return nacl_sign(seed, bytes.fromhex(challenge)).hex() + challenge


def strict_unhex(s):
    if not isinstance(s, str) or not s.isascii():
        return None
    try:
        return binascii.unhexlify(s)
    except ValueError:
        return None


def strict_unb64(s):
    import re

    if not isinstance(s, str) or not re.fullmatch(r"(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?", s):
        return None
    return base64.b64decode(s)


def cs_valid(signature, pub, challenge=None):
    """Is it a signature by `pub` (of `challenge`, if given)?"""
    raw = strict_unhex(signature)
    if raw is None or len(raw) < 64 or len(pub) != 32 or (challenge is not None and raw[64:] != bytes.fromhex(challenge)):
        return False
    return nacl_verify(pub, raw[:64], raw[64:])


def cra_valid(signature, key, challenge):
    return strict_unb64(signature) == ref_hmac(key, challenge.encode())


# ------------------------------------------------------------------------------------------------------ authenticators


class Refusal(Exception):
    pass


def server_authenticator(decide):
    """decide(request) -> Response, or raises. Records what it was asked and what it granted."""
    from wampproto import auth

    class Authenticator(auth.IServerAuthenticator):
        def __init__(self):
            self.requests = []
            self.granted = []

        def __len__(self):  # an authenticator all the same
            return 0

        def methods(self):
            return ["anonymous", "ticket", "wampcra", "cryptosign"]

        def authenticate(self, request):
            self.requests.append(request)
            r = decide(request)
            self.granted.append((request, r))
            return r

    return Authenticator()


def describe(request):
    """A request as plain data."""
    d = {"type": type(request).__name__, "method": request.method, "realm": request.realm, "authid": request.authid, "auth_extra": request.auth_extra}
    if hasattr(request, "ticket"):
        d["ticket"] = request.ticket
    if hasattr(request, "public_key"):
        d["public_key"] = request.public_key
    return d


def client_authenticator(cred):
    """The library's client-side authenticator for credentials (plain data)."""
    from wampproto import auth

    m, authid, extra = cred["method"], cred["authid"], cred.get("extra")
    extra = dict(extra) if extra is not None else None
    if m == "default":
        return None
    if m == "anonymous":
        return auth.AnonymousAuthenticator(authid, extra)
    if m == "ticket":
        return auth.TicketAuthenticator(authid, cred["ticket"], extra)
    if m in ("wampcra", "wampcra-salted"):
        return auth.WAMPCRAAuthenticator(authid, cred["secret"], extra)
    return auth.CryptoSignAuthenticator(authid, cred["seed"].hex(), extra)


# ---------------------------------------------------------------------------------------------------------- strategies


def seeds():
    return st.one_of(st.binary(min_size=32, max_size=32), st.sampled_from([bytes(32), b"\xff" * 32, bytes(range(32))]))


def secrets():
    return st.one_of(gen.short_text(), gen.text(), st.sampled_from(["secret", "", "a" * 64, "a" * 65, "é" * 33, "p\x00q"]))


def salting():
    """(salt, iterations, keylen)"""
    return st.tuples(gen.short_text(), st.one_of(st.integers(1, 40), st.sampled_from([1, 2, 100, 1000])), st.one_of(st.sampled_from([1, 16, 31, 32, 33, 64]), st.integers(1, 100)))


def names():
    return st.one_of(gen.short_text(), st.sampled_from(["joe", "anonymous", "admin", "1", ""]))


def auth_keys(ser):
    """authextra and the like: keys that could be taken for something else."""
    keys = ("realm", "authid", "authrole", "ticket", "secret", "pubkey", "channel_binding", "challenge", "nonce", "salt", "iterations", "keylen", "method", "authmethod", "roles", "signature", "session", "provider")
    val = st.one_of(short_names(), st.sampled_from((None, True, 0, 1, 1000)), st.just("00" * 32), st.just({}).map(dict), gen.scalar(ser))
    return st.lists(st.sampled_from(keys), min_size=1, max_size=4, unique=True).flatmap(lambda ks: st.fixed_dictionaries({k: val for k in ks}))


def short_names():
    return st.sampled_from(("joe", "admin", "anonymous", "ticket", "wampcra", "realm1", "x", "", "tkt"))


def authextras(ser):
    return st.one_of(st.none(), st.just({}).map(dict), gen.strdict(ser), auth_keys(ser), auth_keys(ser))


def extras(ser):
    return authextras(ser).map(lambda d: None if d is None else {k: v for k, v in d.items() if k != "pubkey"})
