from hypothesis import strategies as st

from vf import gen, handshake as hs, spec
from vf.core import Relation, attempt, clone, require, same, show

RULE = (
    "a case is a serializer, an authentication method, matching credentials on both sides, realm, extra data, granted identity and "
    "router roles; the two sides exchange what they produce until nothing is left; non-trivial always, distinct by case"
)


def cases():
    def per(s):
        return st.fixed_dictionaries({
            "ser": st.just(s),
            "method": st.sampled_from((*hs.METHODS, "default", "anonymous-open", "cryptosign", "wampcra-salted")),
            "realm": gen.text(),
            "authid": hs.names(),
            "grant": st.tuples(hs.names(), hs.names()),
            "extra": hs.extras(s),
            "secret": hs.secrets(),
            "salt": hs.salting(),
            "seed": hs.seeds(),
            "roles": st.one_of(st.none(), gen.roles(s)),
            "croles": st.one_of(st.none(), gen.roles(s)),
            "objects": st.booleans(),
        })

    return st.sampled_from(gen.SERIALIZERS).flatmap(per)


def decider(c):
    from wampproto import auth

    m = c["method"]
    extra = c["extra"] or {}
    want = {"realm": c["realm"], "authid": "" if m == "default" else c["authid"]}

    def decide(r):
        d = hs.describe(r)
        for k, v in want.items():
            if not same(d[k], v):
                raise hs.Refusal(f"asked about {k} {d[k]!r} instead of {v!r}")
        e = dict(extra) if m != "default" else {}
        if m == "cryptosign":
            e["pubkey"] = hs.nacl_public(c["seed"]).hex()
        if not same(d["auth_extra"], e):
            raise hs.Refusal(f"asked with auth_extra {show(d['auth_extra'])} instead of {show(e)}")
        kind = {"default": "anonymous", "wampcra-salted": "wampcra"}.get(m, m)
        if d["method"] != kind:
            raise hs.Refusal(f"asked about method {d['method']!r}")
        cls = {"anonymous": auth.AnonymousRequest, "ticket": auth.TicketRequest, "wampcra": auth.WAMPCRARequest, "cryptosign": auth.CryptoSignRequest}[kind]
        if not isinstance(r, cls):
            raise hs.Refusal(f"asked with a {type(r).__name__}")
        if m == "ticket" and d["ticket"] != c["secret"]:
            raise hs.Refusal(f"asked with ticket {d['ticket']!r}")
        if m == "cryptosign" and d["public_key"] != e["pubkey"]:
            raise hs.Refusal(f"asked with public key {d['public_key']!r}")
        if m == "wampcra":
            return auth.WAMPCRAResponse(*c["grant"], c["secret"])
        if m == "wampcra-salted":
            salt, it, kl = c["salt"]
            return auth.WAMPCRASaltedResponse(*c["grant"], hs.cra_key(c["secret"], salt, it, kl).decode(), salt, it, kl)
        return auth.Response(*c["grant"])

    return decide


def check(c, ctx):
    from wampproto.acceptor import Acceptor
    from wampproto.joiner import Joiner
    from wampproto.types import SessionDetails

    m = c["method"]
    router_auth = None if m == "anonymous-open" else hs.server_authenticator(decider(c))
    client_auth = hs.client_authenticator({"method": "anonymous" if m == "anonymous-open" else m, "authid": c["authid"], "extra": clone(c["extra"]), "ticket": c["secret"], "secret": c["secret"], "seed": c["seed"]})
    kw = {"roles": clone(c["roles"])} if c["roles"] is not None else {}
    a = Acceptor(gen.serializer(c["ser"]), router_auth, **kw)
    j = Joiner(c["realm"], gen.serializer(c["ser"]), client_auth)
    ser = gen.serializer(c["ser"])
    what = f"{m} over {c['ser']}"
    for side, o in (("client", j), ("router", a)):
        s, v = attempt(o.get_session_details)
        require(s == "err" and isinstance(v, ValueError), lambda: f"{what}: {side} session details before the handshake: {show(v)}")
    data = j.send_hello(clone(c["croles"])) if c["croles"] is not None else j.send_hello()
    require(type(data) is (str if c["ser"] == "json" else bytes), lambda: f"{what}: HELLO is {type(data).__name__}")
    n = 0
    welcome = None
    while data is not None:
        require(n < 6, lambda: f"{what}: the handshake does not end")
        n += 1
        sent = ser.deserialize(data)
        if c["objects"]:
            reply = a.receive_message(sent)
            final = None
            data = ser.serialize(reply)
        else:
            data, final = a.receive(data)
            require(data is not None, lambda: f"{what}: no answer to {show(sent)}")
            reply = ser.deserialize(data)
        kind = spec.kind_of(reply)
        require(kind in ("Challenge", "Welcome"), lambda: f"{what}: {show(sent)} was answered with {show(reply)}")
        if final is not None:
            require(final is (kind == "Welcome"), lambda: f"{what}: final flag {final!r} with {show(reply)}")
        if kind == "Welcome":
            welcome = ser.deserialize(data)
        require(not a.is_aborted(), lambda: f"{what}: aborted after {show(reply)}")
        if c["objects"]:
            out = j.receive_message(ser.deserialize(data))
            data = None if out is None else ser.serialize(out)
        else:
            data = j.receive(data)
        if kind == "Welcome":
            require(data is None, lambda: f"{what}: WELCOME was answered")
        else:
            require(data is not None, lambda: f"{what}: {show(reply)} was not answered")
    require(welcome is not None, lambda: f"{what}: no WELCOME")
    require(n == (1 if m in ("anonymous", "default", "anonymous-open") else 2), lambda: f"{what}: took {n} exchanges")
    x, y = j.get_session_details(), a.get_session_details()
    grant = ("anonymous", "anonymous") if m == "anonymous-open" else c["grant"]
    for side, d in (("client", x), ("router", y)):
        require(type(d) is SessionDetails, lambda: f"{what}: {side} details are {type(d)}")
        require(d.realm == c["realm"] and (d.authid, d.authrole) == tuple(grant), lambda: f"{what}: {side} reports realm={d.realm!r} authid={d.authid!r} authrole={d.authrole!r}; asked for {c['realm']!r}, granted {grant}")
        require(type(d.session_id) is int and 1 <= d.session_id <= 2**53, lambda: f"{what}: {side} session ID {d.session_id!r}")
    require(x == y and x.session_id == y.session_id, lambda: f"{what}: client has session ID {x.session_id}, router {y.session_id}")
    require(welcome.session_id == x.session_id, lambda: f"{what}: WELCOME has session ID {welcome.session_id}, client {x.session_id}")
    want = c["roles"] if c["roles"] is not None else {"dealer": {"features": {}}, "broker": {"features": {}}}
    require(same(welcome.roles, want), lambda: f"{what}: WELCOME roles {show(welcome.roles)}, configured {show(want)}")
    ctx.hit(m, c["ser"])


RELATIONS = [Relation("handshake", cases, check, 6000)]
ASSUMPTIONS = [
    "a salted WAMP-CRA authenticator supplies the derived (base64) key as secret, which is what the router's HMAC uses",
    "authextra without a 'pubkey' of the application's own",
]
