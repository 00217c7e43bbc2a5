"""Whatever is presented as a proof, WELCOME only for one that verifies independently, for this handshake's challenge."""
import base64
import json

from hypothesis import strategies as st

from vf import gen, handshake as hs, spec
from vf.core import Relation, attempt, clone, require, same, show

RULE = (
    "forge: one handshake with a presented proof that is honest, replayed, made with other keys, or damaged, judged by independent "
    "verification; sequence: up to 14 client messages over two handshakes with one authenticator, every WELCOME must be justified; "
    "replay: up to six handshakes with one authenticator, open or finished, given their own or another one's proof; "
    "non-trivial when an AUTHENTICATE reached an outstanding challenge"
)
REFUSALS = (hs.Refusal, ValueError, KeyError, RuntimeError, TypeError, PermissionError, AssertionError, ArithmeticError, StopIteration, Exception, OSError, UnicodeError, AttributeError)
PLAIN_ATTACKS = ("honest", "empty", "text", "flip", "flip", "flip", "trunc", "extend", "prefix", "upper", "double", "old", "other-secret", "challenge", "space")
CS_ATTACKS = (*PLAIN_ATTACKS, "old-sig", "old-tail", "sig-only", "sign-more", "sign-text", "victim-key", "zeros", "old+new", "sign-empty", "part", "half-tail", *["victim-key"] * 2)
CRA_ATTACKS = (*PLAIN_ATTACKS, "secret", "urlsafe", "hex", "empty-key", "unsalted", "part", "junk", "no-pad", "sha1", "reorder", "swap-session", *["public-key"] * 3, *["sign-part"] * 2, *["more"] * 2)
TICKET_ATTACKS = (*PLAIN_ATTACKS, *["empty"] * 5)
BAD_KEYS = ("", "zz", "ab", "é", "00" * 31, "00" * 33, "00" * 32, "ff" * 32, "01" + "00" * 31, " ", "0" * 63)


def damage(attack, good, i, text, old):
    """Attacks that only need an honest proof."""
    n = len(good)
    if attack == "honest":
        return good
    if attack == "empty":
        return ""
    if attack == "text":
        return text
    if attack == "flip" and n:
        k = i % n
        c = text[:1] or "0"
        if c == good[k]:
            c = "1" if c != "1" else "2"
        return good[:k] + c + good[k + 1:]
    if attack == "trunc" and n:
        return good[: i % n]
    if attack == "extend":
        return good + (text or "0")
    if attack == "prefix":
        return (text or "0") + good
    if attack == "upper":
        return good.upper() if i % 2 else good.swapcase()
    if attack == "double":
        return good + good
    if attack == "old":
        return old
    if attack == "space":
        k = i % (n + 1)
        return good[:k] + " \n\t="[i % 4] + good[k:]
    return None


def cryptosign_proof(c, ch, old):
    seed, other, attack, i, text = c["seed"], c["seed2"], c["attack"], c["i"], c["text"]
    good = hs.cs_proof(seed, ch)
    p = damage(attack, good, i, text, hs.cs_proof(seed, old))
    if p is not None:
        return p
    sig = lambda m, s=seed: hs.nacl_sign(s, m).hex()  # noqa: E731
    raw = bytes.fromhex(ch)
    return {
        "other-secret": hs.cs_proof(other, ch),
        "victim-key": hs.cs_proof(other, ch),
        "challenge": ch,
        "old-sig": sig(bytes.fromhex(old)) + ch,
        "old-tail": sig(raw) + old,
        "sig-only": sig(raw),
        "sign-more": sig(raw + b"\x00") + ch + "00",
        "sign-text": sig(ch.encode()) + ch,
        "zeros": "00" * 64 + ch,
        "old+new": sig(bytes.fromhex(old) + raw) + old + ch,
        "sign-empty": sig(b"") + "",
        "part": sig(raw[:i % 32]) + ch[:2 * (i % 32)] if i % 2 else sig(raw[i % 32:]) + ch[2 * (i % 32):],
        "half-tail": sig(raw) + (ch[:32], ch[32:], ch[:62], ch[::-1], ch + ch)[i % 5],
    }.get(attack, "")


def cra_proof(c, key, ch, old):
    attack, i, text = c["attack"], c["i"], c["text"]
    good = hs.cra_sign(key, ch)
    p = damage(attack, good, i, text, hs.cra_sign(key, old))
    if p is not None:
        return p
    raw = hs.ref_hmac(key, ch.encode())
    ok, d = attempt(json.loads, ch)
    d = d if ok == "ok" and isinstance(d, dict) else {}
    known = [c["salt"][0], ch, c["claim"] or "", *c["grant"], c["realm"], "wampcra", "secret", old, c["salt"][0] + c["secret2"], *map(str, d.values())]
    parts = [*map(str, d.values()), ch[: i % (len(ch) or 1)], ch[i % (len(ch) or 1):], ch + "\n", json.dumps(d, separators=(",", ":")), json.dumps(d, sort_keys=True), f"{d.get('nonce')}{d.get('session')}", "{}"]
    more = bytes([i % 256]) * (i % 5 + 1)
    return {
        "public-key": hs.cra_sign(known[i % len(known)].encode(), ch),
        "sign-part": hs.cra_sign(key, parts[i % len(parts)]),
        "more": base64.b64encode((raw + more, more + raw, raw + raw)[i % 3]).decode(),
        "other-secret": hs.cra_sign(c["secret2"].encode(), ch),
        "challenge": ch,
        "secret": key.decode(),
        "urlsafe": base64.urlsafe_b64encode(raw).decode(),
        "hex": raw.hex(),
        "empty-key": hs.cra_sign(b"", ch),
        "unsalted": hs.cra_sign(c["secret"].encode(), ch),
        "part": base64.b64encode(raw[: i % 32]).decode(),
        "junk": good[: i % 44] + "!*é\x00-"[i % 5] + good[i % 44:],
        "no-pad": good.rstrip("="),
        "sha1": base64.b64encode(raw[:20]).decode(),
        "reorder": hs.cra_sign(ch.encode(), key.decode()),
        "swap-session": hs.cra_sign(key, ch.replace('"session": ', '"session": 1')),
    }.get(attack, "")


PLACES = ("hello", "hello", "auth", "both", "none", "none")


def smuggled(s):
    """What else the client puts into HELLO's authextra and AUTHENTICATE's extra: the good proof or secret, under some key."""
    key = st.one_of(st.sampled_from(("ticket", "secret", "signature", "password", "token", "challenge", "authid", "authrole", "key", "salt")), st.sampled_from(gen.dict_strings()), gen.short_text())
    key = st.one_of(key, st.sampled_from(("ticket", "secret", "signature")))
    return st.tuples(st.sampled_from(PLACES), st.lists(st.tuples(key, st.sampled_from(("secret", "secret", "other", "authid", "true", "list"))), max_size=4))


def smuggle(c, where):
    place, items = c["smuggle"]
    if place not in (where, "both"):
        return {}
    v = {"secret": c["secret"], "other": c["secret2"], "authid": c["grant"][0], "true": True, "list": [c["secret"]]}
    out = {k: clone(v[x]) for k, x in items if k != "pubkey"}
    if where == "auth" and items and c["method"] == "cryptosign":
        other = hs.nacl_public(c["seed2"]).hex()
        out.update(pubkey=other, public_key=other, challenge=out.get("challenge", "00" * 32))
    return out


def forge_cases():
    def per(t):
        s, m = t
        attacks = {"cryptosign": CS_ATTACKS, "ticket": TICKET_ATTACKS}.get(m, CRA_ATTACKS)
        return st.fixed_dictionaries({
            "ser": st.just(s), "method": st.just(m), "attack": st.sampled_from(attacks), "i": st.integers(0, 400),
            "text": st.one_of(st.sampled_from(["0", "a", "A", "é", "\x00", "😀", "=", "==", "zz", "f" * 128, "00" * 96, "A" * 43 + "="]), gen.short_text()),
            "seed": hs.seeds(), "seed2": hs.seeds(), "secret": hs.secrets(), "secret2": hs.secrets(), "salt": hs.salting(),
            "claim": st.one_of(hs.names(), st.none()), "grant": st.tuples(hs.names(), hs.names()),
            "refuse": st.one_of(*[st.just(0)] * 7, st.integers(1, len(REFUSALS))), "badkey": st.one_of(*[st.none()] * 5, st.sampled_from(BAD_KEYS)),
            "methods": st.sampled_from(([], ["anonymous"], ["ticket"], ["wampcra"], ["cryptosign"])),
            "objects": st.booleans(), "again": st.booleans(), "smuggle": smuggled(s), "realm": hs.names(),
        })

    return st.tuples(st.sampled_from(gen.SERIALIZERS), st.sampled_from(("cryptosign", "wampcra", "wampcra-salted", "ticket"))).flatmap(per)


def send(a, ser, kind, f, objects):
    """('ok', kind or None, message) or ('err', exception, None)"""
    msg = spec.build(kind, f)
    if objects:
        s, v = attempt(a.receive_message, msg)
    else:
        s, v = attempt(a.receive, ser.serialize(msg))
        if s == "ok":
            v = None if v[0] is None else ser.deserialize(v[0])
    if s == "err":
        return "err", v, None
    return "ok", None if v is None else spec.kind_of(v), v


def check_forge(c, ctx):
    from wampproto import auth
    from wampproto.acceptor import Acceptor

    m = c["method"]
    if c["seed"] == c["seed2"]:
        return
    key = None
    if m == "wampcra":
        key = c["secret"].encode()
    elif m == "wampcra-salted":
        key = hs.cra_key(c["secret"], *c["salt"])

    def decide(r):
        if c["refuse"]:
            raise REFUSALS[c["refuse"] - 1]("no")
        if m == "wampcra":
            return auth.WAMPCRAResponse(*c["grant"], key.decode())
        if m == "wampcra-salted":
            return auth.WAMPCRASaltedResponse(*c["grant"], key.decode(), *c["salt"])
        if m == "ticket" and r.ticket != c["secret"]:
            raise hs.Refusal("wrong ticket")
        return auth.Response(*c["grant"])

    ser = gen.serializer(c["ser"])
    server = hs.server_authenticator(decide)
    announced = hs.nacl_public(c["seed"]).hex()
    if m == "cryptosign" and c["badkey"] is not None:
        announced = c["badkey"]
    hello_extra = {**smuggle(c, "hello"), **({"pubkey": announced} if m == "cryptosign" else {})}
    auth_extra = smuggle(c, "auth")
    hello = {"realm": c["realm"], "roles": {"caller": {}}, "authid": c["claim"], "authmethods": [m.replace("-salted", ""), *c["methods"]], "authextra": hello_extra}
    what = f"{m} with proof {c['attack']!r}"
    # another handshake, to take a proof from
    b = Acceptor(gen.serializer(c["ser"]), server)
    _, kb, vb = send(b, ser, "Hello", dict(hello), c["objects"])
    a = Acceptor(gen.serializer(c["ser"]), server)
    s, kind, v = send(a, ser, "Hello", dict(hello), c["objects"])
    if c["refuse"] and m != "ticket":
        if s == "err":
            require(False, lambda: f"{what}: HELLO refused by the authenticator raised {type(kind).__name__}: {kind}")
        require(kind == "Abort" and a.is_aborted(), lambda: f"{what}: HELLO refused by the authenticator was answered with {show(v)}, aborted: {a.is_aborted()}")
        ctx.hit("refused")
        return
    if s == "err" and c["badkey"] is not None and isinstance(kind, ValueError):
        ctx.label("key refused at HELLO")
        return
    if kind == "Abort" and c["badkey"] is not None and m == "cryptosign":
        return
    require(s == "ok" and kind == "Challenge" and kb == "Challenge", lambda: f"{what}: HELLO was answered with {show(v if s == 'ok' else kind)}")
    ch, old = v.extra.get("challenge"), vb.extra.get("challenge")
    good = True
    if m == "cryptosign":
        proof = cryptosign_proof(c, ch, old)
        pub = hs.strict_unhex(announced)
        valid = hs.cs_valid(proof, pub if pub is not None else b"", ch)
        if pub is None or len(pub) != 32:
            valid, good = False, False
        canonical = proof == proof.lower() and announced == announced.lower()
        honest = hs.cs_proof(c["seed"], ch)
    elif m == "ticket":
        proof = damage(c["attack"], c["secret"], c["i"], c["text"], c["secret2"])
        proof = c["secret2"] if proof is None else proof
        valid, canonical, honest = proof == c["secret"] and not c["refuse"], True, c["secret"]
    else:
        proof = cra_proof(c, key, ch, old)
        valid = hs.cra_valid(proof, key, ch)
        honest = hs.cra_sign(key, ch)
        canonical = proof == honest
    ctx.hit(m, c["attack"], "valid" if valid else "invalid")
    s, kind, v = send(a, ser, "Authenticate", {"signature": proof, "extra": auth_extra}, c["objects"])
    if m == "ticket":
        asked = [hs.describe(r) for r in server.requests]
        require(all(x.get("ticket") == proof for x in asked), lambda: f"{what}: the ticket {show(proof)} was presented, the authenticator was asked {show(asked)}")
    if valid and canonical:
        require(s == "ok" and kind == "Welcome", lambda: f"{what}: a valid proof was answered with {show(v if s == 'ok' else kind)}")
    if not valid:
        require(kind != "Welcome", lambda: f"{what}: WELCOME for an invalid proof {show(proof)}")
        if s == "err":
            require(not good and isinstance(kind, ValueError), lambda: f"{what}: {show(proof)} raised {type(kind).__name__}: {kind}")
        else:
            require(kind == "Abort", lambda: f"{what}: {show(proof)} was answered with {show(v)}")
            require(a.is_aborted(), lambda: f"{what}: not aborted after {show(proof)}")
        if c["again"] and good and not (m == "ticket" and c["refuse"]):
            s2, k2, v2 = send(a, ser, "Authenticate", {"signature": honest, "extra": {}}, c["objects"])
            require(k2 not in ("Welcome", "Challenge"), lambda: f"{what}: after the refusal an honest proof was answered with {show(v2)}")
            s2, k2, v2 = send(a, ser, "Hello", {**hello, "authmethods": ["anonymous"]}, c["objects"])
            require(k2 not in ("Welcome", "Challenge"), lambda: f"{what}: after the refusal a HELLO was answered with {show(v2)}")
    if kind == "Welcome":
        d = a.get_session_details()
        require((v.authid, v.authrole) == c["grant"] and (d.authid, d.authrole) == c["grant"], lambda: f"{what}: granted {c['grant']}, WELCOME has {v.authid!r} {v.authrole!r}, details {d.authid!r} {d.authrole!r}")
    else:
        s, v = attempt(a.get_session_details)
        require(s == "err", lambda: f"{what}: session details {show(v)} without WELCOME")


# ------------------------------------------------------------------------------------------------------------ sequence

SEEDS = (bytes(range(32)), bytes(range(1, 33)), bytes(32))
SECRETS = {"joe": "s1", "amy": "s2", "": "s3"}
AUTHIDS = ("joe", "amy", "", "eve")


def seq_cases():
    op = st.tuples(
        st.sampled_from((0, 0, 0, 1)),
        st.sampled_from(["hello"] * 4 + ["auth"] * 6 + ["abort", "other"]),
        st.integers(0, 5), st.integers(0, 5), st.integers(0, 5), st.booleans(),
    )
    return st.tuples(st.booleans(), st.integers(0, 51), st.lists(op, min_size=2, max_size=14))


def check_seq(case, ctx):
    from wampproto import auth
    from wampproto.acceptor import Acceptor

    anon_ok, policy, ops = case
    Refused = REFUSALS[policy // 4 % len(REFUSALS)]
    pubs = [hs.nacl_public(s).hex() for s in SEEDS]

    def decide(r):
        kind = type(r).__name__
        if kind == "AnonymousRequest":
            if not anon_ok:
                raise Refused("no guests")
            return auth.Response("guest", "anonymous")
        if kind == "CryptoSignRequest":
            k = pubs.index(r.public_key) if r.public_key in pubs else None
            if k is None or k == policy % 4:
                raise Refused("unknown key")
            return auth.Response(f"key{k}", "signer")
        if kind == "WAMPCRARequest":
            if r.authid not in SECRETS:
                raise Refused("who?")
            return auth.WAMPCRAResponse("cra-" + r.authid, "cra", SECRETS[r.authid])
        if r.ticket != f"ticket-{r.authid}":
            raise Refused("wrong ticket")
        return auth.Response("t-" + str(r.authid), "ticket")

    server = hs.server_authenticator(decide)
    acc = [Acceptor(gen.serializer("json"), server), Acceptor(gen.serializer("cbor"), server)]
    sers = [gen.serializer("json"), gen.serializer("cbor")]
    out = [None, None]  # per acceptor: (method, challenge, hello fields, response) of the CHALLENGE last sent
    seen = []  # challenges
    for which, name, x, y, z, objects in ops:
        a, ser = acc[which], sers[which]
        before, asked = len(server.granted), len(server.requests)
        hello = None
        proof = None
        if name == "hello":
            m = ("anonymous", "cryptosign", "wampcra", "ticket", None, "scram")[x]
            hello = {"realm": f"realm{y % 2}", "roles": {"caller": {}}, "authid": AUTHIDS[y % 4], "authmethods": [m, *("anonymous", "ticket")[: z % 3]] if m else ([] if z % 2 else None), "authextra": {"pubkey": pubs[z % 3]} if m == "cryptosign" else None}
            s, kind, v = send(a, ser, "Hello", dict(hello), objects)
        elif name == "auth":
            ref = out[which] if z % 3 or not seen else seen[y % len(seen)]
            method, ch, h, _ = ref or ("cryptosign", "00" * 32, {"authid": "joe"}, None)
            if x == 0:
                proof = "00" * 96
            elif method == "cryptosign":
                k = pubs.index(h["authextra"]["pubkey"]) if h.get("authextra") else 0
                proof = hs.cs_proof(SEEDS[k if x % 3 else (k + 1) % 3], ch)
            elif method == "wampcra":
                proof = hs.cra_sign(SECRETS.get(h["authid"] if x % 3 else "amy", "").encode(), ch)
            else:
                proof = f"ticket-{h['authid'] if x % 3 else 'eve'}"
            s, kind, v = send(a, ser, "Authenticate", {"signature": proof}, objects)
        elif name == "abort":
            s, kind, v = send(a, ser, "Abort", {"details": {}, "reason": "wamp.close"}, objects)
        else:
            s, kind, v = send(a, ser, "Goodbye", {"details": {}, "reason": "r"}, objects)
        new = server.granted[before:]
        where = f"{name} ({show(hello or proof)}) to handshake {which}"
        if len(server.requests) - asked > len(new):
            require(s == "ok" and kind == "Abort" and a.is_aborted(), lambda: f"{where}, refused by the authenticator with {Refused.__name__}, was answered with {show(v if s == 'ok' else kind)}; aborted: {a.is_aborted()}")
            ctx.label("refused by the authenticator")
        if kind == "Challenge":
            require(hello is not None, lambda: f"{where} was answered with CHALLENGE")
            require(v.authmethod == hello["authmethods"][0], lambda: f"{where} was answered with {show(v)}")
            if v.authmethod != "ticket":
                require(len(new) == 1, lambda: f"{where} was answered with CHALLENGE although the authenticator granted {len(new)} requests")
            out[which] = (v.authmethod, v.extra.get("challenge", ""), hello, new[0][1] if new else None)
            seen.append(out[which])
        elif kind == "Welcome":
            if hello is not None:
                m = (hello["authmethods"] or ["anonymous"])[0]
                require(m == "anonymous" and len(new) == 1 and type(new[0][0]).__name__ == "AnonymousRequest", lambda: f"{where} was answered with WELCOME, method {m}, granted {[hs.describe(r) for r, _ in new]}")
                r = new[0][1]
                realm = hello["realm"]
            else:
                require(proof is not None and out[which] is not None, lambda: f"{where} was answered with WELCOME")
                method, ch, h, r = out[which]
                realm = h["realm"]
                if method == "cryptosign":
                    ok = hs.cs_valid(proof, bytes.fromhex(h["authextra"]["pubkey"]), ch)
                elif method == "wampcra":
                    ok = hs.cra_valid(proof, r.secret.encode(), ch)
                else:
                    ok = len(new) == 1 and hs.describe(new[0][0]) == {"type": "TicketRequest", "method": "ticket", "realm": realm, "authid": h["authid"], "auth_extra": h["authextra"], "ticket": proof}
                    r = new[0][1] if new else None
                require(ok, lambda: f"{where} was answered with WELCOME; the challenge was {show(out[which])}")
                ctx.label("welcome by proof")
            d = a.get_session_details()
            require((v.authid, v.authrole) == (r.authid, r.authrole) == (d.authid, d.authrole), lambda: f"{where}: granted {r.authid!r} {r.authrole!r}, WELCOME has {v.authid!r} {v.authrole!r}, details {d.authid!r} {d.authrole!r}")
            require(d.realm == realm, lambda: f"{where}: details have realm {d.realm!r}")
        elif kind == "Abort":
            require(a.is_aborted(), lambda: f"{where} was answered with ABORT but is_aborted() is False")
        if name == "auth" and out[which] is not None:
            ctx.nontrivial = True



# -------------------------------------------------------------------------------------------------------------- replay


def replay_cases():
    shake = st.tuples(st.sampled_from(("cryptosign", "cryptosign", "wampcra", "wampcra-salted", "ticket")), st.integers(0, 1))
    op = st.tuples(st.sampled_from(("hello", "own", "own", "other", "other", "mix", "revoke")), st.integers(0, 5), st.integers(0, 5))
    shakes = st.one_of(st.lists(shake, min_size=2, max_size=6), shake.map(lambda x: [x] * 4), st.tuples(shake, shake).map(lambda t: [t[0], t[0], t[1], t[0], t[1]]))
    return st.tuples(shakes, st.booleans(), st.lists(op, min_size=2, max_size=18))


def check_replay(case, ctx):
    """Many handshakes with one authenticator, some finished, some open; each is given its own proof or another one's."""
    from wampproto import auth
    from wampproto.acceptor import Acceptor

    shakes, objects, ops = case
    revoked = set()
    salt = ("salt", 3, 32)

    def who(authid):
        return int(authid[-1])

    def decide(r):
        c = who(r.authid)
        if c in revoked:
            raise hs.Refusal("revoked")
        if type(r).__name__ == "WAMPCRARequest":
            if r.auth_extra.get("salted"):
                return auth.WAMPCRASaltedResponse(f"user{c}", "role", hs.cra_key(SECRETS["joe"] + str(c), *salt).decode(), *salt)
            return auth.WAMPCRAResponse(f"user{c}", "role", f"s{c}")
        if type(r).__name__ == "TicketRequest" and r.ticket != f"ticket{c}":
            raise hs.Refusal("wrong ticket")
        return auth.Response(f"user{c}", "role")

    server = hs.server_authenticator(decide)
    ser = gen.serializer("cbor")
    acc = [Acceptor(gen.serializer("cbor"), server) for _ in shakes]
    state, ch = ["new"] * len(shakes), [None] * len(shakes)

    def hello(i):
        m, c = shakes[i]
        if state[i] != "new":
            return
        extra = {"salted": m == "wampcra-salted"}
        if m == "cryptosign":
            extra["pubkey"] = hs.nacl_public(SEEDS[c]).hex()
        s, kind, v = send(acc[i], ser, "Hello", {"realm": "realm", "roles": {"caller": {}}, "authid": f"client{c}", "authmethods": [m.replace("-salted", "")], "authextra": extra}, objects)
        want = "Abort" if c in revoked and m != "ticket" else "Challenge"
        require(s == "ok" and kind == want, lambda: f"HELLO of client {c} with {m} was answered with {show(v if s == 'ok' else kind)}")
        state[i] = "open" if kind == "Challenge" else "over"
        ch[i] = v.extra.get("challenge", "") if kind == "Challenge" else None

    def key(i):
        m, c = shakes[i]
        return hs.cra_key(SECRETS["joe"] + str(c), *salt) if m == "wampcra-salted" else f"s{c}".encode()

    def proof(i):
        m, c = shakes[i]
        if ch[i] is None:
            return "0" * 192
        return hs.cs_proof(SEEDS[c], ch[i]) if m == "cryptosign" else f"ticket{c}" if m == "ticket" else hs.cra_sign(key(i), ch[i])

    for name, i, j in ops:
        i, j = i % len(shakes), j % len(shakes)
        if name == "revoke":
            revoked ^= {i % 2}
            continue
        if name == "hello" or state[i] == "new":
            hello(i)
        if name == "hello":
            continue
        if name != "own" and state[j] == "new":
            hello(j)
        given = proof(i if name == "own" else j)
        if name == "mix":
            given = given[:128] + (ch[i] or "") if shakes[i][0] == "cryptosign" else proof(j)[:22] + proof(i)[22:]
        m, c = shakes[i]
        if state[i] != "open":
            valid = False
        elif m == "cryptosign":
            valid = hs.cs_valid(given, hs.nacl_public(SEEDS[c]), ch[i])
        elif m == "ticket":
            valid = given == f"ticket{c}" and c not in revoked
        else:
            valid = hs.cra_valid(given, key(i), ch[i])
        s, kind, v = send(acc[i], ser, "Authenticate", {"signature": given, "extra": {}}, objects)
        where = f"{name}: handshake {i} of {shakes} ({state[i]}) was given the proof of {i if name == 'own' else j}"
        if state[i] != "open":
            require(kind not in ("Welcome", "Challenge"), lambda: f"{where} and answered {show(v)}")
            continue
        require(s == "ok" and kind == ("Welcome" if valid else "Abort"), lambda: f"{where} and answered {show(v if s == 'ok' else kind)}")
        require(acc[i].is_aborted() == (not valid), lambda: f"{where}: is_aborted() is {acc[i].is_aborted()}")
        if not valid:
            s, d = attempt(acc[i].get_session_details)
            require(s == "err", lambda: f"{where}: session details {show(d)}")
        if name != "own" and "over" in state:
            ctx.hit("another handshake's proof")
        if "welcomed" in state:
            ctx.hit("after another handshake had succeeded", "valid" if valid else "invalid")
        state[i] = "welcomed" if valid else "over"


RELATIONS = [Relation("replay", replay_cases, check_replay, 3000), Relation("forge", forge_cases, check_forge, 7000), Relation("sequence", seq_cases, check_seq, 4000)]
ASSUMPTIONS = [
    "unusual encodings of a right proof (hex in upper case) may be accepted or refused",
    "a public key that is no key may be refused with ValueError or ABORT, at HELLO or at AUTHENTICATE",
]
