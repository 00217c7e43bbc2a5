from hypothesis import strategies as st

from vf import gen, handshake as hs, spec
from vf.core import Relation, attempt, require, same, show

RULE = (
    "a case is a router-side handshake (any authenticator or none) and up to 12 messages (or one of them up to 130 times) sent to it, valid, refused, out of order, "
    "foreign or undecodable, as objects or over the wire; each answer is judged by a state model; non-trivial when at least two "
    "messages were sent and one of them was answered"
)
SEED = bytes(range(32))
GARBAGE = (b"", b"\xff", b"[", b"[1]", b"[999,1]", b"null", b"\xc0", b"\xf6", b"[5,1,{}]", b"[1,\"r\",{\"roles\":{}}]", b"\x81\x01", b"{}")
OTHERS = [k for k in spec.KINDS if k not in ("Hello", "Authenticate", "Abort")]
METHODS = ("anonymous", "cryptosign", "wampcra", "ticket", "wampcra-salted", "none", "empty", "unknown")


def cases():
    op = st.one_of(
        st.tuples(st.just("hello"), st.sampled_from(METHODS), st.booleans(), st.sampled_from([0] * 7 + [1, 2, 3, 4])),
        st.tuples(st.just("auth"), st.sampled_from((True, True, True, False)), st.integers(0, 3), st.just(0)),
        st.tuples(st.just("auth"), st.sampled_from((True, True, True, False)), st.integers(0, 3), st.just(0)),
        st.tuples(st.sampled_from(["abort", "other", "other", "garbage"]), st.integers(0, 30), st.booleans(), st.just(0)),
    )
    return st.tuples(
        st.sampled_from(gen.SERIALIZERS), st.sampled_from([True] * 6 + [False]), gen.repeats(st.lists(st.tuples(op, st.booleans()), min_size=1, max_size=12)),
        st.tuples(hs.names(), hs.names()), gen.short_text(), st.one_of(st.none(), st.just({"dealer": {"features": {"x": True}}})),
    )


def hello_fields(method, flaw, realm, authid):
    f = {"realm": realm, "roles": {"caller": {}}, "authid": authid, "authmethods": [method.replace("-salted", "")], "authextra": {"who": method}}
    if method in ("none", "empty"):
        f["authmethods"] = None if method == "none" else []
    if method == "unknown":
        f["authmethods"] = [("scram", "", "Anonymous", "tls", "cryptosign ")[flaw % 5], "anonymous"]
    if method == "cryptosign":
        f["authextra"] = {"pubkey": hs.nacl_public(SEED).hex(), "x": 1}
        if flaw == 1:
            f["authextra"] = None
        elif flaw == 2:
            f["authextra"] = {}
        elif flaw == 3:
            f["authextra"] = {"pubkey": None}
        elif flaw == 4:
            f["authextra"] = {"pubkey": 7}
    return f


def check(case, ctx):
    from wampproto import auth
    from wampproto.acceptor import Acceptor

    name, with_auth, ops, grant, realm, roles = case
    ser = gen.serializer(name)
    ok_now = [True]

    def decide(r):
        if not ok_now[0]:
            raise hs.Refusal("no", 1)
        if type(r).__name__ == "WAMPCRARequest":
            if r.auth_extra == {"who": "wampcra-salted"}:
                return auth.WAMPCRASaltedResponse(*grant, hs.cra_key("s", "salt", 5, 32).decode(), "salt", 5, 32)
            return auth.WAMPCRAResponse(*grant, "s")
        return auth.Response(*grant)

    server = hs.server_authenticator(decide) if with_auth else None
    kw = {"roles": roles} if roles is not None else {}
    a = Acceptor(gen.serializer(name), server, **kw)
    want_roles = roles if roles is not None else {"dealer": {"features": {}}, "broker": {"features": {}}}
    state, out, details, answered, hello = "none", None, None, 0, None
    for n, ((op, x, y, flaw), objects) in enumerate(ops):
        # what is sent, and what the protocol says about it
        raw = None
        ok_now[0] = True
        if op == "hello":
            kind, f = "Hello", hello_fields(x, flaw, f"{realm}{n or ''}", f"user{n}")
            ok_now[0] = y or n % 3 != 0
            m = {"none": "anonymous", "empty": "anonymous", "wampcra-salted": "wampcra"}.get(x, x)
            bad = m == "unknown" or (m == "cryptosign" and flaw)
            if state != "none":
                want = "refused"
            elif not with_auth:
                want, grant_now = "Welcome", ("anonymous", "anonymous")
            elif bad:
                want = "refused"
            elif m == "ticket":
                want = "Challenge"
            elif not ok_now[0]:
                want = "Abort"
            else:
                want, grant_now = ("Welcome" if m == "anonymous" else "Challenge"), grant
        elif op == "auth":
            kind = "Authenticate"
            proof = "junk"
            if out is not None:
                method, ch, key = out
                proof = hs.cs_proof(SEED, ch) if method == "cryptosign" else hs.cra_sign(key, ch) if method == "wampcra" else "ticket"
            if not x:
                proof = ("junk" + proof, proof[:-1], "", proof + "00")[y % 4]
                ok_now[0] = False
            f = {"signature": proof, "extra": {}}
            want = "refused" if state != "challenged" else ("Welcome" if x else "Abort")
            grant_now = grant
        elif op == "abort":
            kind, f = "Abort", {"details": {}, "reason": "wamp.error.x", "args": [1] if y else None}
            want = {"welcomed": "refused", "aborted": "either"}.get(state, "nothing")
        elif op == "other":
            kind = OTHERS[x % len(OTHERS)]
            f = {}
            for fn, t in spec.TABLE[kind][1]:
                if t in ("id", "int"):
                    f[fn] = 1
                elif t == "str":
                    f[fn] = "x"
                elif t == "dict":
                    f[fn] = {}
                else:
                    f["roles"] = {"dealer": {}}
            want = "refused"
        else:
            raw = GARBAGE[x % len(GARBAGE)]
            want, kind, f = "error", None, raw
        where = f"message {n}: {kind} {show(f)} in state {state}"
        final = None
        if raw is not None:
            s, v = attempt(a.receive, raw)
        elif objects:
            s, v = attempt(a.receive_message, spec.build(kind, dict(f)))
        else:
            s, v = attempt(a.receive, ser.serialize(spec.build(kind, dict(f))))
            if s == "ok":
                require(isinstance(v, tuple) and len(v) == 2 and type(v[1]) is bool, lambda: f"{where}: receive() returned {show(v)}")
                final = v[1]
                v = None if v[0] is None else ser.deserialize(v[0])
        if want == "error":
            require(s == "err", lambda: f"{where}: undecodable data was answered with {show(v)}")
        elif want == "refused":
            require(s == "err", lambda: f"{where}: was answered with {show(v)}")
            require(isinstance(v, ValueError), lambda: f"{where}: raised {type(v).__name__}: {v}")
            ctx.label(f"refused in state {state}")
        elif want == "either":
            require((s == "ok" and v is None) or (s == "err" and isinstance(v, ValueError)), lambda: f"{where}: {show(v)}")
        elif want == "nothing":
            require(s == "ok" and v is None, lambda: f"{where}: {'raised ' + type(v).__name__ if s == 'err' else 'was answered'}: {show(v)}")
            require(final is not False, lambda: f"{where}: the handshake is over, and not flagged as final")
            state = "aborted"
            ctx.label("abort received")
        else:
            require(s == "ok", lambda: f"{where}: raised {type(v).__name__}: {v}")
            got = None if v is None else spec.kind_of(v)
            require(got == want, lambda: f"{where}: was answered with {show(v)}, expected {want}")
            answered += 1
            if final is not None:
                require(final == (got in ("Welcome", "Abort")), lambda: f"{where}: final flag {final} with {got}")
            if got == "Challenge":
                state = "challenged"
                key = b"s"
                if x == "wampcra-salted":
                    key = hs.cra_key("s", "salt", 5, 32)
                    require({k: v.extra.get(k) for k in ("salt", "iterations", "keylen")} == {"salt": "salt", "iterations": 5, "keylen": 32}, lambda: f"{where}: CHALLENGE extra {show(v.extra)}")
                require(v.authmethod == m, lambda: f"{where}: CHALLENGE for {v.authmethod!r}")
                out = (m, v.extra.get("challenge"), key)
                hello = f
            elif got == "Abort":
                state = "aborted"
                require(v.reason == "wamp.error.authentication_failed", lambda: f"{where}: ABORT reason {v.reason!r}")
            else:
                state = "welcomed"
                require((v.authid, v.authrole) == tuple(grant_now), lambda: f"{where}: WELCOME for {v.authid!r} {v.authrole!r}, granted {grant_now}")
                require(same(v.roles, want_roles), lambda: f"{where}: WELCOME with roles {show(v.roles)}")
                hello = hello if kind == "Authenticate" else f  # the one that was accepted, not one refused since
                details = (v.session_id, hello["realm"], *grant_now)
                if server is not None:
                    asked = hs.describe(server.requests[-1])
                    require((asked["realm"], asked["authid"]) == (hello["realm"], hello["authid"]), lambda: f"{where}: the authenticator was asked about {asked}, HELLO was {show(hello)}")
            ctx.label(f"{got} for {kind}")
        require(bool(a.is_aborted()) == (state == "aborted"), lambda: f"after {where}: is_aborted() is {a.is_aborted()}")
        s, d = attempt(a.get_session_details)
        if state == "welcomed":
            require(s == "ok" and (d.session_id, d.realm, d.authid, d.authrole) == details, lambda: f"after {where}: session details {show(d)}, expected {details}")
        else:
            require(s == "err" and isinstance(d, ValueError), lambda: f"after {where}: session details {show(d)} without WELCOME")
    ctx.nontrivial = len(ops) > 1 and answered > 0
    ctx.label(f"ended {state}")


RELATIONS = [Relation("history", cases, check, 9000)]
ASSUMPTIONS = ["an ABORT for a handshake that is aborted already may be accepted or refused", "after WELCOME an ABORT is refused like everything else"]
