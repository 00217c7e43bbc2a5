"""What the handshake messages and the requests to the router's authenticator say, against what was configured and sent."""
from hypothesis import strategies as st

from vf import gen, handshake as hs, spec
from vf.core import Relation, attempt, clone, require, same, show

RULE = (
    "hello: a client's configuration, its HELLO is decoded independently; asked: any HELLO (and AUTHENTICATE) sent to a router, what its "
    "authenticator is asked and what is answered is compared with them, or nobody is asked when its first method is unknown; non-trivial always when the HELLO was accepted"
)
CLIENT_ROLES = ("caller", "callee", "publisher", "subscriber")
METHODS = ("anonymous", "ticket", "wampcra", "wampcra-salted", "cryptosign")


# ------------------------------------------------------------------------------------------------------------- client


def hellos():
    def per(s):
        return st.fixed_dictionaries({
            "ser": st.just(s), "method": st.sampled_from(("default", *METHODS)), "realm": gen.text(), "authid": gen.text(),
            "extra": hs.authextras(s), "secret": hs.secrets(), "seed": hs.seeds(),
            "roles": st.one_of(st.none(), gen.roles(s)), "again": st.booleans(),
        })

    return st.sampled_from(gen.SERIALIZERS).flatmap(per)


def check_hello(c, ctx):
    from wampproto.joiner import Joiner

    m = c["method"]
    extra = clone(c["extra"])
    if m == "cryptosign" and extra is not None and not isinstance(extra.get("pubkey", ""), str):
        extra.pop("pubkey")
    want_extra = clone(extra) if extra is not None and m != "default" else {}
    if m == "cryptosign":
        want_extra.setdefault("pubkey", hs.nacl_public(c["seed"]).hex())
    a = hs.client_authenticator({"method": m, "authid": c["authid"], "extra": extra, "ticket": c["secret"], "secret": c["secret"], "seed": c["seed"]})
    j = Joiner(c["realm"], gen.serializer(c["ser"]), a)
    for _ in range(2 if c["again"] else 1):
        data = j.send_hello(clone(c["roles"])) if c["roles"] is not None else j.send_hello()
        got = gen.ref_loads(c["ser"], data)
        require(isinstance(got, list) and len(got) == 3 and got[0] == 1, lambda: f"HELLO is {show(got)}")
        require(same(got[1], c["realm"]), lambda: f"HELLO asks for realm {got[1]!r}, configured {c['realm']!r}")
        d = got[2]
        method = {"default": "anonymous", "wampcra-salted": "wampcra"}.get(m, m)
        authid = "" if m == "default" else c["authid"]
        require(same(d.get("authmethods"), [method]), lambda: f"{m}: HELLO announces methods {d.get('authmethods')!r}")
        require(same(d.get("authid"), authid), lambda: f"{m}: HELLO announces authid {d.get('authid')!r}, configured {authid!r}")
        require(same(d.get("authextra", {}), want_extra), lambda: f"{m}: HELLO carries authextra {show(d.get('authextra'))}, configured {show(want_extra)}")
        if c["roles"] is not None:
            require(same(d.get("roles"), c["roles"]), lambda: f"{m}: HELLO announces roles {show(d.get('roles'))}, given {show(c['roles'])}")
        else:
            require(isinstance(d.get("roles"), dict) and sorted(d["roles"]) == sorted(CLIENT_ROLES), lambda: f"{m}: HELLO announces roles {show(d.get('roles'))} by default")
    ctx.hit(m)


# ------------------------------------------------------------------------------------------------------------- router


def asked():
    def per(s):
        hello = st.fixed_dictionaries({
            "realm": gen.text(), "roles": gen.roles(s), "authid": st.one_of(st.none(), gen.text(), hs.names()),
            "authextra": hs.authextras(s),
        })
        more = st.one_of(st.just([]), st.just([]), st.lists(st.one_of(st.sampled_from(("anonymous", "ticket", "wampcra", "cryptosign")), gen.short_text()), max_size=3))
        return st.fixed_dictionaries({
            "ser": st.just(s), "method": st.sampled_from((*METHODS, "none", "empty")), "more": more, "hello": hello, "seed": hs.seeds(),
            "pubkey": st.one_of(st.none(), st.none(), gen.text()), "signature": gen.text(), "auth_extra": st.one_of(gen.strdict(s), hs.auth_keys(s)), "secret": hs.secrets(), "salt": hs.salting(),
            "weird_salt": st.one_of(st.none(), st.tuples(gen.text(), st.integers(1, 2**40), st.integers(1, 2**20))),
            "grant": st.tuples(gen.text(), gen.text()), "alone": st.sampled_from((False, False, False, False, True)),
            "roles": st.one_of(st.none(), gen.roles(s), gen.roles(s), st.sampled_from(({"broker": {}}, {"dealer": {}}, {"broker": {}, "dealer": {}}, {"dealer": {}, "broker": {}}, {"caller": {}}, {"broker": None}, {"broker": {"features": {}}, "dealer": {}}))), "objects": st.booleans(), "accept": st.booleans(),
            "second": st.one_of(st.none(), st.tuples(st.one_of(st.sampled_from(METHODS), gen.short_text()), gen.text(), st.one_of(st.none(), hs.names()), hs.authextras(s))),
        })

    return st.sampled_from(gen.SERIALIZERS).flatmap(per)


def check_asked(c, ctx):
    from wampproto import auth
    from wampproto.acceptor import Acceptor

    m = c["method"]
    ser = gen.serializer(c["ser"])
    salt = c["weird_salt"] or c["salt"]
    key = hs.cra_key(c["secret"], *c["salt"]).decode() if m == "wampcra-salted" else c["secret"]

    def decide(r):
        if m == "wampcra":
            return auth.WAMPCRAResponse(*c["grant"], key)
        if m == "wampcra-salted":
            return auth.WAMPCRASaltedResponse(*c["grant"], key, *salt)
        return auth.Response(*c["grant"])

    server = hs.server_authenticator(decide)
    if c["alone"] and m in ("anonymous", "none", "empty"):
        server = None  # a router without an authenticator
    grant = c["grant"] if server is not None else None
    method = {"none": "anonymous", "empty": "anonymous", "wampcra-salted": "wampcra"}.get(m, m)
    hello = clone(c["hello"])
    public = None
    if m == "cryptosign":
        public = hs.nacl_public(c["seed"]).hex() if c["pubkey"] is None else c["pubkey"]
        hello["authextra"] = {**(hello["authextra"] or {}), "pubkey": public}
    hello["authmethods"] = None if m == "none" else [] if m == "empty" else [method, *c["more"]]
    want = {
        "type": {"anonymous": "AnonymousRequest", "ticket": "TicketRequest", "wampcra": "WAMPCRARequest", "cryptosign": "CryptoSignRequest"}[method],
        "method": method, "realm": hello["realm"], "authid": hello["authid"], "auth_extra": hello["authextra"],
    }
    if m == "cryptosign":
        want["public_key"] = public
    if m == "ticket":
        want["ticket"] = c["signature"]
    kw = {"roles": clone(c["roles"])} if c["roles"] is not None else {}
    a = Acceptor(gen.serializer(c["ser"]), server, **kw)

    def tell(kind, f):
        msg = spec.build(kind, clone(f))
        if c["objects"]:
            return attempt(a.receive_message, msg)
        s, v = attempt(a.receive, ser.serialize(msg))
        return (s, v) if s == "err" else (s, None if v[0] is None else ser.deserialize(v[0]))

    def questions():
        return [hs.describe(r) for r in server.requests] if server is not None else None

    def judge_questions(n):
        got = questions()
        if got is None:
            return
        require(len(got) == n, lambda: f"{m}: the authenticator was asked {len(got)} times: {show(got)}")
        for g in got:
            same_extra = same(g["auth_extra"], want["auth_extra"]) or (want["auth_extra"] is None and g["auth_extra"] in (None, {}))
            require(same_extra, lambda: f"{m}: the authenticator was asked with auth_extra {show(g['auth_extra'])}, HELLO carried {show(want['auth_extra'])}")
            for k, v in want.items():
                require(k == "auth_extra" or same(g.get(k), v), lambda: f"{m}: the authenticator was asked with {k} {g.get(k)!r}, sent was {v!r}")

    s, v = tell("Hello", hello)
    require(s == "ok", lambda: f"{m}: {show(hello)} was refused with {v!r}")
    kind = spec.kind_of(v)
    judge_questions(0 if m == "ticket" else 1)
    if method != "anonymous":
        require(kind == "Challenge", lambda: f"{m}: HELLO was answered with {show(v)}")
        require(v.authmethod == method, lambda: f"{m}: CHALLENGE for {v.authmethod!r}")
        e = v.extra
        if m == "wampcra-salted":
            require(same((e.get("salt"), e.get("iterations"), e.get("keylen")), tuple(salt)), lambda: f"CHALLENGE carries salt={e.get('salt')!r} iterations={e.get('iterations')!r} keylen={e.get('keylen')!r}, the authenticator supplied {salt}")
        else:
            require(not any(e.get(k) for k in ("salt", "iterations", "keylen")), lambda: f"{m}: CHALLENGE extra {show(e)}")
        if c["second"] is not None:
            # another HELLO, which is refused and changes nothing
            again = {"realm": c["second"][1], "roles": {"callee": {}}, "authid": c["second"][2], "authextra": clone(c["second"][3]), "authmethods": [c["second"][0]]}
            s, v = tell("Hello", again)
            require(s == "err", lambda: f"{m}: a second HELLO was answered with {show(v)}")
            judge_questions(0 if m == "ticket" else 1)
        ch = e.get("challenge")
        signature = c["signature"]
        if m in ("wampcra", "wampcra-salted") and c["accept"]:
            signature = hs.cra_sign(key.encode(), ch)
        elif m == "cryptosign" and c["accept"] and c["pubkey"] is None:
            signature = hs.cs_proof(c["seed"], ch)
        s, v = tell("Authenticate", {"signature": signature, "extra": c["auth_extra"]})
        if s == "err":
            require(m == "cryptosign" and c["pubkey"] is not None, lambda: f"{m}: AUTHENTICATE was refused with {v!r}")
        judge_questions(1)
        kind = spec.kind_of(v) if s == "ok" else None
        ctx.label(f"{m}: {kind}")
        require(kind in ("Welcome", "Abort", None), lambda: f"{m}: AUTHENTICATE was answered with {show(v)}")
    if kind == "Welcome":
        roles = c["roles"] if c["roles"] is not None else None
        got = v.roles
        require(same(got, roles) if roles is not None else sorted(got) == ["broker", "dealer"], lambda: f"{m}: WELCOME announces roles {show(got)}, configured {show(roles)}")
        grant = grant or (v.authid, "anonymous")
        require((v.authid, v.authrole) == grant, lambda: f"{m}: WELCOME says {v.authid!r} {v.authrole!r}, granted {grant}")
        d = a.get_session_details()
        require((d.realm, d.authid, d.authrole, d.session_id) == (hello["realm"], *grant, v.session_id), lambda: f"{m}: session details {d.realm!r} {d.authid!r} {d.authrole!r} {d.session_id}; HELLO asked for {hello['realm']!r}, granted {grant}, WELCOME had {v.session_id}")
    ctx.hit(m)


def foreign():
    """HELLOs whose first method is none of those the router knows."""
    known = ("anonymous", "ticket", "wampcra", "cryptosign")
    near = st.tuples(st.sampled_from(known), st.sampled_from((str.upper, str.title, lambda m: m + " ", lambda m: " " + m, lambda m: m + "\n", lambda m: m[:-1], lambda m: m + "s", lambda m: m + "\0", lambda m: f"{m},{m}", lambda m: m + "-salted", lambda m: [m], lambda m: m[:4]))).map(lambda t: t[1](t[0]))
    odd = st.one_of(near, near, st.sampled_from(("scram", "wamp-scram", "tls", "cookie", "", "none", "null", "any", "*", "dynamic", None, 0, 1, True, [], {})), gen.text()).filter(lambda m: m not in known)

    def per(s):
        return st.fixed_dictionaries({
            "ser": st.just(s), "first": odd, "more": st.lists(st.one_of(st.sampled_from(known), st.sampled_from(known), odd), max_size=4), "realm": gen.text(), "roles": gen.roles(s),
            "authid": st.one_of(st.none(), hs.names()), "authextra": st.one_of(hs.authextras(s), hs.seeds().map(lambda x: {"pubkey": hs.nacl_public(x).hex()})), "objects": st.booleans(),
        })

    return st.sampled_from(gen.SERIALIZERS).flatmap(per)


def check_foreign(c, ctx):
    from wampproto import auth
    from wampproto.acceptor import Acceptor

    server = hs.server_authenticator(lambda r: auth.WAMPCRAResponse("joe", "role", "s") if r.method == "wampcra" else auth.Response("joe", "role"))
    ser = gen.serializer(c["ser"])
    a = Acceptor(gen.serializer(c["ser"]), server)
    methods = [c["first"], *c["more"]]
    hello = spec.build("Hello", clone({k: c[k] for k in ("realm", "roles", "authid", "authextra")} | {"authmethods": methods}))
    s, v = attempt(a.receive_message, hello) if c["objects"] else attempt(lambda: a.receive(ser.serialize(hello))[0])
    if s == "ok" and v is not None:
        kind = spec.kind_of(v if c["objects"] else ser.deserialize(v))
        require(kind == "Abort", lambda: f"a HELLO with methods {methods!r} was answered with {kind}")
    require(not server.requests, lambda: f"a HELLO with methods {methods!r}: the authenticator was asked {[hs.describe(r) for r in server.requests]}")
    s, v = attempt(a.receive_message, spec.build("Authenticate", {"signature": "", "extra": {}}))
    require((s == "err" or spec.kind_of(v) == "Abort") and not server.requests, lambda: f"AUTHENTICATE after a HELLO with methods {methods!r}: {show(v)}, the authenticator was asked {len(server.requests)} times")
    ctx.hit("mixed" if any(m in ("anonymous", "ticket", "wampcra", "cryptosign") for m in c["more"] if isinstance(m, str)) else "foreign")


RELATIONS = [Relation("hello", hellos, check_hello, 5000), Relation("asked", asked, check_asked, 8000), Relation("unknown methods", foreign, check_foreign, 3000)]
ASSUMPTIONS = ["a HELLO without authextra may be shown to the authenticator as None or an empty dictionary"]
