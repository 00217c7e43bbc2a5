import base64

from hypothesis import strategies as st

from vf import gen, handshake as hs
from vf.core import Relation, attempt, require, show

RULE = (
    "sign/derive: generated keys, secrets, challenges, salts, compared with reference implementations written from the RFCs; "
    "verify: right signatures and damaged ones, the verdict compared with independent verification; non-trivial always, distinct by case"
)


def hexes():
    return st.one_of(st.binary(min_size=32, max_size=32), st.binary(max_size=80), st.sampled_from([b"", b"\x00" * 32])).map(bytes.hex)


def sign_cases():
    return st.tuples(hs.seeds(), hexes(), st.booleans())


def check_cs_sign(case, ctx):
    import nacl.signing

    from wampproto import auth, messages

    seed, challenge, upper = case
    if upper:
        challenge = challenge.upper()
    want = hs.nacl_sign(seed, bytes.fromhex(challenge)).hex() + challenge
    got = auth.sign_cryptosign_challenge(challenge, nacl.signing.SigningKey(seed))
    require(got == want, lambda: f"signature of {challenge!r} with {seed.hex()}: {got!r}, expected {want!r}")
    a = auth.CryptoSignAuthenticator("x", seed.hex())
    m = a.authenticate(messages.Challenge(messages.ChallengeFields("cryptosign", {"challenge": challenge})))
    require(m.signature == want, lambda: f"authenticator's signature of {challenge!r}: {m.signature!r}, expected {want!r}")
    require(a.auth_extra.get("pubkey") == hs.nacl_public(seed).hex(), lambda: f"public key of {seed.hex()}: {a.auth_extra}")
    require(auth.verify_cryptosign_signature(got, hs.nacl_public(seed)) is True, lambda: f"signature {got!r} does not verify")
    ctx.hit("challenge of 32 bytes" if len(challenge) == 64 else "challenge of another size")


def check_cs_pure(case, ctx):
    """Against Ed25519 in plain Python, from RFC 8032."""
    import nacl.signing

    from wampproto import auth

    seed, challenge, _ = case
    pub = hs.ed_public(seed)
    sig = hs.ed_sign(seed, bytes.fromhex(challenge))
    got = auth.sign_cryptosign_challenge(challenge, nacl.signing.SigningKey(seed))
    require(got == sig.hex() + challenge, lambda: f"signature of {challenge!r} with {seed.hex()}: {got!r}, expected {sig.hex() + challenge!r}")
    require(auth.verify_cryptosign_signature(sig.hex() + challenge, pub) is True, lambda: f"{sig.hex() + challenge!r} does not verify with {pub.hex()}")
    ctx.hit("pure")


DAMAGE = ("none", "flip-bit", "flip-bit", "replace", "trunc", "extend", "prefix", "insert", "text", "empty", "other-key", "other-message", "swap-halves", "bad-key", "upper", "more", "more")
JUNK = ("é", "z", "!", " ", "\n", "-", "_", "=", "\x00", "😀", "٣", "ａ", "0", "A")


def verify_cases():
    return st.fixed_dictionaries({
        "seed": hs.seeds(), "seed2": hs.seeds(), "challenge": hexes(), "secret": st.one_of(hs.secrets().map(str.encode), st.binary(max_size=100)), "secret2": st.binary(max_size=70),
        "text": st.one_of(gen.text(), st.text("0123456789abcdefABCDEF+/=", max_size=200)), "challenge_text": gen.text(), "text2": gen.text(),
        "damage": st.sampled_from(DAMAGE), "i": st.integers(0, 2000), "j": st.integers(0, 13), "n": st.integers(0, 70),
    })


def damaged(c, good, other, message):
    d, i = c["damage"], c["i"]
    n = len(good)
    if d == "replace" and n:
        return good[: i % n] + JUNK[c["j"]] + good[i % n + 1:]
    if d == "trunc" and n:
        return good[: i % n]
    if d == "extend":
        return good + (JUNK[c["j"]] if i % 2 else c["text"])
    if d == "prefix":
        return (JUNK[c["j"]] if i % 2 else c["text"]) + good
    if d == "insert":
        return good[: i % (n + 1)] + JUNK[c["j"]] + good[i % (n + 1):]
    if d == "text":
        return c["text"]
    if d == "empty":
        return ""
    if d == "other-key":
        return other
    if d == "other-message":
        return message
    if d == "swap-halves":
        return good[n // 2:] + good[: n // 2]
    if d == "more":
        raw = base64.b64decode(good) if good.endswith("=") else None
        x = bytes([i % 256]) * (c["j"] % 4 + 1)
        if raw is None:
            return x.hex() + good if i % 2 else good + x.hex()
        return base64.b64encode((raw + x, x + raw, raw + raw, raw + c["challenge"].encode())[i % 4]).decode()
    if d == "upper":
        return good.upper() if i % 2 else good.swapcase()
    return None


def check_cs_verify(c, ctx):
    from wampproto import auth

    raw = bytes.fromhex(c["challenge"])
    pub = hs.nacl_public(c["seed"])
    sig = hs.nacl_sign(c["seed"], raw)
    good = sig.hex() + c["challenge"]
    got = damaged(c, good, hs.nacl_sign(c["seed2"], raw).hex() + c["challenge"], hs.nacl_sign(c["seed"], raw + b"x").hex() + c["challenge"])
    if c["damage"] == "flip-bit":
        b = bytearray(sig + raw)
        k = c["i"] % (len(b) * 8)
        b[k // 8] ^= 1 << (k % 8)
        got = bytes(b).hex()
    elif c["damage"] == "bad-key":
        pub = (b"", pub[:-1], pub + b"\x00", bytes(32), b"\xff" * 32, b"x" * c["n"])[c["i"] % 6]
        got = good
    elif got is None:
        got = good
    want = hs.cs_valid(got, pub)
    if want and got != got.lower():
        return  # hex digits in upper case
    s, v = attempt(auth.verify_cryptosign_signature, got, pub)
    require(s == "ok" and v is want, lambda: f"verifying {c['damage']} {got!r} (key {pub.hex()}): {'raised ' + type(v).__name__ + ' ' if s == 'err' else ''}{show(v)}, expected {want}")
    ctx.hit(f"{c['damage']} {want}")


def cra_cases():
    return st.fixed_dictionaries({"secret": hs.secrets(), "challenge": gen.text(), "salt": st.one_of(st.none(), hs.salting()), "raw": st.binary(max_size=100)})


def check_cra(c, ctx):
    from wampproto import auth, messages
    from wampproto.auth.wampcra import derive_cra_key

    extra = {"challenge": c["challenge"]}
    if c["salt"] is not None:
        salt, it, kl = c["salt"]
        want = hs.cra_key(c["secret"], salt, it, kl)
        got = derive_cra_key(salt, c["secret"], it, kl)
        require(got == want, lambda: f"key from secret {c['secret']!r}, salt {salt!r}, {it} iterations, {kl} bytes: {got!r}, expected {want!r}")
        extra.update(salt=salt, iterations=it, keylen=kl)
    key = hs.cra_key(c["secret"], *(c["salt"] or ()))
    for k in (key, c["raw"]):
        want = hs.cra_sign(k, c["challenge"])
        got = auth.sign_wampcra_challenge(c["challenge"], k)
        require(got == want, lambda: f"signature of {c['challenge']!r} with {k!r}: {got!r}, expected {want!r}")
        require(auth.verify_wampcra_signature(want, c["challenge"], k) is True, lambda: f"signature {want!r} of {c['challenge']!r} with {k!r} does not verify")
    m = auth.WAMPCRAAuthenticator("x", c["secret"]).authenticate(messages.Challenge(messages.ChallengeFields("wampcra", extra)))
    want = hs.cra_sign(key, c["challenge"])
    require(m.signature == want, lambda: f"authenticator's signature for {show(extra)} with secret {c['secret']!r}: {m.signature!r}, expected {want!r}")
    ctx.hit("salted" if c["salt"] else "plain")


def check_cra_verify(c, ctx):
    from wampproto import auth

    key, ch = c["secret"], c["challenge_text"]
    raw = hs.ref_hmac(key, ch.encode())
    good = base64.b64encode(raw).decode()
    got = damaged(c, good, hs.cra_sign(c["secret2"], ch), hs.cra_sign(key, c["text2"]))
    against = ch
    if c["damage"] == "flip-bit":
        b = bytearray(raw)
        k = c["i"] % 256
        b[k // 8] ^= 1 << (k % 8)
        got = base64.b64encode(bytes(b)).decode()
    elif c["damage"] == "bad-key":
        key = key + b"x"
        got = good
    elif got is None:
        got = good
    elif c["damage"] == "other-message" and c["i"] % 2:
        got, against = good, c["text2"]
    want = hs.cra_valid(got, key, against)
    if want and got != hs.cra_sign(key, against):
        return  # only the unused bits of the last character differ
    s, v = attempt(auth.verify_wampcra_signature, got, against, key)
    require(s == "ok" and v is want, lambda: f"verifying {c['damage']} {got!r} of {against!r} with {key!r}: {'raised ' + type(v).__name__ + ' ' if s == 'err' else ''}{show(v)}, expected {want}")
    ctx.hit(f"{c['damage']} {want}")


def check_pairs(case, ctx):
    import nacl.signing

    from wampproto import auth
    from wampproto.auth import cryptosign

    n, raw = case
    seen = set()
    for _ in range(n):
        public, private = cryptosign.generate_cryptosign_keypair()
        require(type(public) is str and type(private) is str, lambda: f"key pair {public!r}, {private!r}")
        for k in (public, private):
            require(len(k) == 64 and set(k) <= set("0123456789abcdef"), lambda: f"key pair {public!r}, {private!r}")
            require(k not in seen, lambda: f"key {k!r} was generated twice among {n} pairs")
            seen.add(k)
        require(hs.nacl_public(bytes.fromhex(private)).hex() == public, lambda: f"public key {public!r} does not belong to private key {private!r}")
    got = auth.sign_cryptosign_challenge(raw.hex(), nacl.signing.SigningKey(bytes.fromhex(private)))
    require(hs.cs_valid(got, bytes.fromhex(public)), lambda: f"signature {got!r} with {private!r} does not verify with {public!r}")
    require(auth.CryptoSignAuthenticator("x", private).auth_extra.get("pubkey") == public, lambda: f"authenticator with {private!r} does not announce {public!r}")
    ctx.hit("pairs")


RELATIONS = [
    Relation("keypair", lambda: st.tuples(st.integers(1, 40), st.binary(max_size=64)), check_pairs, 150, fuzz=False),
    Relation("cryptosign-sign", sign_cases, check_cs_sign, 3000),
    Relation("cryptosign-reference", sign_cases, check_cs_pure, 240, 2400, fuzz=False),
    Relation("cryptosign-verify", verify_cases, check_cs_verify, 4500),
    Relation("wampcra-sign", cra_cases, check_cra, 3000),
    Relation("wampcra-verify", verify_cases, check_cra_verify, 4500),
]
ASSUMPTIONS = ["other spellings of a right signature are not judged: upper-case hex, unused bits of the last base64 character"]
