from hypothesis import strategies as st

from vf import gen, handshake as hs, spec
from vf.core import Relation, attempt, require, same, show

RULE = (
    "a case is a client-side handshake with one of the client authenticators and up to 12 messages (or one of them up to 130 times) from a router, expected, "
    "unexpected or undecodable, with HELLO sent at some point or never; each answer is judged by a state model; non-trivial when "
    "HELLO was sent and a WELCOME or CHALLENGE received, before or after it"
)
SEED = bytes(range(32))
GARBAGE = (b"", b"\xff", b"[", b"[2]", b"[2,0,{}]", b"[2,1,{\"roles\":{}}]", b"null", b"\xc0", b"[4,1,{}]", b"{}")
OTHERS = [k for k in spec.KINDS if k not in ("Welcome", "Challenge", "Abort")]
METHODS = ("default", "anonymous", "ticket", "wampcra", "cryptosign")


def cases():
    op = st.tuples(
        st.sampled_from(["hello", "unsendable", "welcome", "welcome", "challenge", "challenge", "abort", "other", "garbage"]),
        st.integers(0, 40), gen.ids(), hs.names(), hs.names(), st.booleans(),
    )
    first = st.tuples(st.just("hello"), st.integers(0, 40), st.just(1), st.just("a"), st.just("b"), st.booleans())
    body = st.lists(op, max_size=9)
    return st.tuples(
        st.sampled_from(gen.SERIALIZERS), st.sampled_from(METHODS), gen.short_text(),
        gen.repeats(st.one_of(body, st.tuples(st.lists(op, max_size=2), first, body).map(lambda t: [*t[0], t[1], *t[2]]), st.tuples(first, body).map(lambda t: [t[0], *t[1]]))),
    )


def challenge(method, x, text):
    """(extra, expected signature or None: the client cannot answer it)"""
    bad = x % 9 == 8
    if method in ("default", "anonymous"):
        return {"challenge": "00" * 32}, None
    if method == "ticket":
        return {"x": text}, "tkt"
    if method == "cryptosign":
        if bad:
            return ({}, {"challenge": None}, {"challenge": "zz"}, {"challenge": "abc"})[x % 4], None
        ch = (bytes([x]) * 32).hex()
        return {"challenge": ch}, hs.cs_proof(SEED, ch)
    if bad:
        return ({}, {"challenge": None}, {"challenge": "c", "salt": "s"}, {"challenge": "c", "salt": "s", "iterations": 5})[x % 4], None
    if x % 3 == 0:
        return {"challenge": text, "salt": "sa", "iterations": x % 5 + 1, "keylen": 32}, hs.cra_sign(hs.cra_key("sec", "sa", x % 5 + 1, 32), text)
    return {"challenge": text}, hs.cra_sign(b"sec", text)


def check(case, ctx):
    from wampproto.exception import ApplicationError
    from wampproto.joiner import Joiner

    name, method, realm, ops = case
    ser = gen.serializer(name)
    j = Joiner(realm, gen.serializer(name), hs.client_authenticator({"method": method, "authid": "me", "extra": None, "ticket": "tkt", "secret": "sec", "seed": SEED}))
    state, details, met = "none", None, 0
    for n, (op, x, sid, authid, role, objects) in enumerate(ops):
        if op == "hello":
            if state in ("joined", "aborted"):
                continue  # starting over is not decided here
            data = j.send_hello()
            h = ser.deserialize(data)
            require(spec.kind_of(h) == "Hello" and h.realm == realm, lambda: f"send_hello wrote {show(h)}")
            state = "hello"
            continue
        if op == "unsendable":
            if state in ("joined", "aborted"):
                continue
            s, v = attempt(j.send_hello, {"caller": {"features": object()}})
            require(s == "err", lambda: f"send_hello with roles that cannot be serialized wrote {show(v)}")
            continue
        answer = None
        tempting = (lambda d: {} if x % 4 < 2 else d)({"session": sid, "authid": authid, "authrole": role, "realm": f"{realm}2", "authmethod": method, "roles": {"dealer": {}}, "message": role})
        if op == "welcome":
            f = {"session_id": sid, "roles": {"dealer": {}}, "authid": authid if x % 7 else None, "authrole": role if x % 5 else None, "authextra": {**tempting, "authid": f"{authid}2", "authrole": "admin", "session": sid % 2**53 + 1} if tempting else None}
            kind = "Welcome"
            want = "joined" if state in ("hello", "auth") else "refused"
            met += 1
        elif op == "challenge":
            extra, answer = challenge(method, x, authid)
            kind, f = "Challenge", {"authmethod": method if x % 11 else "ticket", "extra": {**tempting, **extra}}
            want = "refused" if state != "hello" else ("answer" if answer is not None else "error")
            met += 1
        elif op == "abort":
            kind, f = "Abort", {"details": tempting, "reason": authid, "args": [role, sid] if x % 3 else None, "kwargs": {"k": sid} if x % 3 == 2 else None}
            want = "abort"
        elif op == "other":
            kind = OTHERS[x % len(OTHERS)]
            f = {}
            for fn, t in spec.TABLE[kind][1]:
                if t in ("id", "int"):
                    f[fn] = sid
                elif t == "str":
                    f[fn] = authid
                elif t == "dict":
                    f[fn] = tempting
                else:
                    f["roles"] = {"caller": {}}
            want = "refused"
        else:
            kind, f, want = None, GARBAGE[x % len(GARBAGE)], "error"
        where = f"message {n}: {kind} {show(f)} in state {state} ({method})"
        if kind is None:
            s, v = attempt(j.receive, f)
        elif objects:
            s, v = attempt(j.receive_message, spec.build(kind, dict(f)))
        else:
            s, v = attempt(j.receive, ser.serialize(spec.build(kind, dict(f))))
            if s == "ok" and v is not None:
                v = ser.deserialize(v)
        if want == "error":
            require(s == "err", lambda: f"{where}: was answered with {show(v)}")
        elif want == "refused":
            require(s == "err", lambda: f"{where}: was accepted, answer {show(v)}")
            require(isinstance(v, ValueError), lambda: f"{where}: raised {type(v).__name__}: {v}")
            ctx.label(f"refused {kind} in state {state}")
        elif want == "abort":
            require(s == "err" and isinstance(v, (ApplicationError, ValueError) if state in ("aborted", "joined") else ApplicationError), lambda: f"{where}: gave {show(v)}")
            if isinstance(v, ApplicationError):
                require(v.message == f["reason"], lambda: f"{where}: error {v.message!r}")
            if state != "joined":
                state = "aborted"
        elif want == "answer":
            require(s == "ok" and spec.kind_of(v) == "Authenticate", lambda: f"{where}: was answered with {show(v)}")
            require(v.signature == answer, lambda: f"{where}: was answered with signature {v.signature!r}, expected {answer!r}")
            state = "auth"
            ctx.label("challenge answered")
        else:
            require(s == "ok" and v is None, lambda: f"{where}: gave {show(v)}")
            state = "joined"
            details = (sid, realm, f["authid"], f["authrole"])
            ctx.label("joined")
        s, d = attempt(j.get_session_details)
        if details is not None:
            if op != "abort":
                require(s == "ok" and same((d.session_id, d.realm, d.authid, d.authrole), details), lambda: f"after {where}: session details {show(d)}, expected {details}")
            else:
                return
        else:
            require(s == "err" and isinstance(d, ValueError), lambda: f"after {where}: session details {show(d)} although not joined")
    ctx.nontrivial = met > 0 and any(o[0] == "hello" for o in ops)


RELATIONS = [Relation("history", cases, check, 9000)]
ASSUMPTIONS = [
    "a CHALLENGE the client's authenticator cannot answer may raise anything; it must leave the client as it was",
    "HELLO is not sent again after joining or after an ABORT; what an ABORT does to a joined client is not decided",
]
