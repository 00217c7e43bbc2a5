"""What users put in place of the library's own parts: message fields, a serializer, a client authenticator."""
from hypothesis import strategies as st

from vf import gen, handshake as hs, router_machine as rm, session_machine as sm, spec
from vf.core import Ctx, Relation, Violation, attempt, clone, require, same, show
from vf.props import c09, c10, c11, c28

RULE = (
    "fields: one message built from the library's fields and from a foreign class with the same values; histories: a history of a session, "
    "broker, dealer or handshake passes its model with the library's fields, then is run with foreign ones; serializer: a session, client and "
    "router with a serializer of the user's, which may fail, next to ones with the library's; authenticator: a handshake with a client authenticator "
    "of the user's; non-trivial when something was built, accepted or exchanged"
)


# ------------------------------------------------------------------------------------------------------------- fields


def fields():
    def per(t):
        ser, kind, f = t
        other = st.tuples(st.one_of(st.none(), gen.blob()), st.one_of(st.none(), st.integers(0, 3)), st.booleans())
        return st.tuples(st.just(ser), st.just(kind), st.just(f), st.sampled_from(spec.STYLES), other if kind in ("Publish", "Event", "Error") else st.none())

    return gen.ser_message(payload=True).flatmap(per)


def check_fields(case, ctx):
    from wampproto import messages

    ser, kind, f, style, other = case
    own = spec.build(kind, clone(f))
    with spec.styled(style):
        msg = spec.build(kind, clone(f))
    a, b = c28.picture(own, kind), c28.picture(msg, kind)
    for k in a:
        require(same(a[k], b[k]), lambda: f"{kind} from {style} fields of the user's: its {k} is {show(b[k])}, from the library's {show(a[k])}")
    back = attempt(lambda: gen.serializer(ser).deserialize(gen.serializer(ser).serialize(own)))
    with spec.styled("derived types"):
        s, sent = attempt(lambda: gen.ref_loads(ser, gen.serializer(ser).serialize(spec.build(kind, clone(f)))))
    want = attempt(lambda: gen.ref_loads(ser, gen.serializer(ser).serialize(own)))
    require(want[0] == s and (s == "err" or same(sent, want[1])), lambda: f"{kind} from values of derived types: sent as {show(sent)}, from plain ones as {show(want[1])}")
    s, parsed = attempt(getattr(messages, kind).parse, spec.derived(own.marshal()))
    want = attempt(getattr(messages, kind).parse, own.marshal())
    require(want[0] == s, lambda: f"{kind} parsed from an array of derived types: {parsed!r}, from a plain one {want[1]!r}")
    if s == "ok":
        x, y = c28.picture(want[1], kind), spec.plain(c28.picture(parsed, kind))
        require(same(x, y), lambda: f"{kind} parsed from an array of derived types: {show(y)}, from a plain one {show(x)}")
    again = attempt(lambda: gen.serializer(ser).deserialize(gen.serializer(ser).serialize(msg)))
    require(back[0] == again[0], lambda: f"{kind} from {style} fields of the user's: received as {again}, from the library's as {back}")
    if back[0] == "ok":
        x, y = c28.picture(back[1], kind), c28.picture(again[1], kind)
        require(same(x, y), lambda: f"{kind} from {style} fields of the user's: received as {show(y)}, from the library's as {show(x)}")
    if other is not None:
        payload, number, binary = other
        interface = next(c for c in getattr(messages, kind + "Fields").__mro__ if c.__name__ == f"I{kind}Fields")
        values = {n: getattr(own, n) for n in spec.fields_of(kind)}
        cls = type("Constant", (interface,), {**values, "payload": payload, "payload_serializer": number, "payload_is_binary": lambda self: binary})
        m = getattr(messages, kind)(cls())
        got = (m.payload, m.payload_serializer, m.payload_is_binary())
        require(same(got, (payload, number, binary)), lambda: f"{kind} from fields with payload, serializer, binary = {other}: {got}")
        for n, v in values.items():
            require(n in ("options", "details") or same(getattr(m, n), v), lambda: f"{kind} from fields with payload {other}: its {n} is {show(getattr(m, n))}, not {show(v)}")
    ctx.hit(kind, style)


# ----------------------------------------------------------------------------------------------------------- histories


def of(relations, name):
    return next(r for r in relations if r.name == name)


def judges():
    return {
        "session": (lambda: sm.history(sm.WEIGHTED), sm.run),
        "broker": (rm.broker_history, rm.run_broker),
        "dealer": (rm.dealer_history, rm.run_dealer),
        "streams": (rm.dealer_streams, rm.run_dealer),
        **{f"{n} {m.__name__[-3:]}": (of(m.RELATIONS, n).strategy, of(m.RELATIONS, n).check) for m, n in ((c09, "forge"), (c09, "sequence"), (c10, "history"), (c11, "history"))},
    }


JUDGES = judges()
WEIGHTS = ("session", "session", "broker", "broker", "broker", "dealer", "dealer", "dealer", "streams", "forge c09", "sequence c09", "history c10", "history c11")


def histories():
    return st.sampled_from(WEIGHTS).flatmap(lambda w: st.tuples(st.just(w), st.sampled_from((*spec.STYLES, "derived types") if w in ("session", "broker", "dealer", "streams") else spec.STYLES), JUDGES[w][0]()))


def check_histories(case, ctx):
    who, style, history = case
    judge = JUDGES[who][1]
    first = Ctx("C34")
    if attempt(judge, history, first)[0] == "err":
        return ctx.label("fails with the library's fields")  # which other properties report
    with spec.styled(style):
        s, v = attempt(judge, history, Ctx("C34"))
    if s == "err":
        for _ in range(3):  # what depends on chance is not about the fields
            if attempt(judge, history, Ctx("C34"))[0] == "err":
                return ctx.label("fails with the library's fields")
        raise Violation(f"{who} is right with messages built from the library's fields, but with {style} ones of the user's: {type(v).__name__}: {v}")
    ctx.label(*[f"{who}: {x}" for x in first.labels])
    ctx.hit(who, style)


# ---------------------------------------------------------------------------------------------------------- serializer


class Oops(Exception):
    pass


class Packed(bytes):
    """The bytes of a serializer of the user's."""


edges = (b" \0\n\xff", b"\r\n\0 ")
FAILURES = (Oops, ValueError, KeyError, OSError, RuntimeError, TypeError, IndexError)


def serializer(name, form):
    """A serializer of the user's: a format of its own, a record of what it was asked, and failures when told to."""
    from wampproto.serializers import Serializer

    inner = gen.serializer(name)

    class Own(Serializer):
        def __init__(self):
            self.made, self.given, self.fail = [], [], None

        def serialize(self, message):
            if self.fail is not None:
                raise self.fail("not now")
            data = inner.serialize(message)
            data = data.encode("utf-8", "surrogatepass") if isinstance(data, str) else bytes(data)
            out = Packed(b"own" + data[::-1]) if form == "bytes" else "own" + data.hex() if form == "text" else b"own" + data[::-1]
            if form == "edged":  # blanks and zeros count
                out = edges[0] + data[::-1] + edges[1]
            if form == "blank text":
                out = " \r\n" + data.hex() + "\n\0"
            self.made.append((message, out))
            return out

        def deserialize(self, data):
            self.given.append(data)
            if self.fail is not None:
                raise self.fail("not now")
            if form == "edged":
                if data[:4] != edges[0] or data[-4:] != edges[1]:
                    raise ValueError("not of this format")
                data = b"own" + data[4:-4]
            if form == "blank text":
                if data[:3] != " \r\n" or data[-2:] != "\n\0":
                    raise ValueError("not of this format")
                data = "own" + data[3:-2]
            if data[:3] != ("own" if "text" in form else b"own"):
                raise ValueError("not of this format")
            raw = bytes.fromhex(data[3:]) if "text" in form else bytes(data[3:])[::-1]
            m = inner.deserialize(raw.decode("utf-8", "surrogatepass") if name == "json" else raw)
            self.given[-1] = (self.given[-1], m)
            return m

        def static(self):
            return False

        def __len__(self):  # of what: the user's business
            return 0 if form in ("plain", "edged") else 1

    return Own()


FORMS = ("bytes", "text", "plain", "edged", "blank text")


def sessions():
    fails = st.lists(st.sampled_from((None, None, None, *range(len(FAILURES)))), max_size=30)
    return st.tuples(sm.history(sm.WEIGHTED), st.sampled_from(FORMS), fails)


def check_session(case, ctx):
    from wampproto.session import WAMPSession

    history, form, fails = case
    steps = []
    if attempt(lambda: sm.run(history, Ctx("C34"), steps=steps))[0] == "err":
        return ctx.label("fails with the library's serializer")
    name = history[0]
    own, peer = serializer(name, form), serializer(name, form)
    with_, twin = WAMPSession(own), WAMPSession(gen.serializer(name))
    plain = gen.serializer(name)
    for n, (direction, kind, f, how, s, v) in enumerate(steps[:120]):
        by_wire = direction == "recv" and not how
        where = f"step {n}: {direction} {kind} {show(f, 150)} with a serializer of the user's"
        msg = spec.build(kind, clone(f))
        data = attempt(peer.serialize, msg) if by_wire else None
        if by_wire and data[0] == "err":
            continue
        fail = fails[n % len(fails)] if fails else None
        if fail is not None and (direction == "send" or by_wire):
            own.fail = FAILURES[fail]
            t, w = attempt(with_.send_message, msg) if direction == "send" else attempt(with_.receive, data[1])
            own.fail = None
            require(t == "err", lambda: f"{where} that raised {FAILURES[fail].__name__}: returned {show(w)}")
            ctx.label("failed in between")
        made, given = len(own.made), len(own.given)
        if direction == "send":
            t, w = attempt(with_.send_message, msg)
            t2, w2 = attempt(twin.send_message, spec.build(kind, clone(f)))
        elif how:
            t, w = attempt(with_.receive_message, msg)
            t2, w2 = attempt(twin.receive_message, spec.build(kind, clone(f)))
        else:
            t, w = attempt(with_.receive, data[1])
            t2, w2 = attempt(lambda: twin.receive(plain.serialize(spec.build(kind, clone(f)))))
        require(t == t2, lambda: f"{where}: {w!r}, with the library's: {w2!r}")
        if direction == "send" and t == "ok":
            require(len(own.made) > made and same(spec.read(own.made[-1][0]), spec.read(msg)), lambda: f"{where} was not given the message")
            require(type(w) is type(own.made[-1][1]) and w == own.made[-1][1], lambda: f"{where} made {own.made[-1][1]!r}, the session returned {w!r}")
            ctx.hit(f"send {kind}")
        elif direction == "recv":
            if by_wire:
                got = own.given[given:]
                require(got, lambda: f"{where} was not given the data")
                x = got[0][0] if type(got[0]) is tuple else got[0]
                require(type(x) is type(data[1]) and x == data[1], lambda: f"{where} was given {x!r} for {data[1]!r}")
            if t == "ok":
                require(spec.kind_of(w) == spec.kind_of(w2) and same(spec.read(w), spec.read(w2)), lambda: f"{where}: {show(w)}, with the library's {show(w2)}")
                ctx.hit(f"recv {kind}")


def handshakes():
    from vf.props import c08

    return st.tuples(c08.cases(), st.sampled_from(FORMS), st.lists(st.sampled_from((None, None, *range(len(FAILURES)))), min_size=4, max_size=4))


def check_handshake(case, ctx):
    from wampproto.acceptor import Acceptor
    from wampproto.joiner import Joiner
    from vf.props import c08

    c, form, fails = case
    if attempt(c08.check, c, Ctx("C34"))[0] == "err":
        return ctx.label("fails with the library's serializer")
    m = c["method"]
    router_auth = None if m == "anonymous-open" else hs.server_authenticator(c08.decider(c))
    client_auth = hs.client_authenticator({"method": "anonymous" if m == "anonymous-open" else m, "authid": c["authid"], "extra": clone(c["extra"]), "ticket": c["secret"], "secret": c["secret"], "seed": c["seed"]})
    kw = {"roles": clone(c["roles"])} if c["roles"] is not None else {}
    mine, theirs = serializer(c["ser"], form), serializer(c["ser"], form)
    a, j = Acceptor(theirs, router_auth, **kw), Joiner(c["realm"], mine, client_auth)
    what = f"{m} over a serializer of the user's"
    turn = iter(fails)

    def failing(ser, fn, *args):
        i = next(turn, None)
        if i is None:
            return
        ser.fail = FAILURES[i]
        s, v = attempt(fn, *args)
        ser.fail = None
        require(s == "err", lambda: f"{what} that raised {FAILURES[i].__name__}: {show(v)}")
        ctx.label("failed in between")

    def made(ser, data, kind):
        require(ser.made, lambda: f"{what}: it was not asked to serialize {kind}")
        msg, out = ser.made[-1]
        require(spec.kind_of(msg) in kind and type(data) is type(out) and data == out, lambda: f"{what}: sends {data!r}, the serializer made {out!r} of {show(msg)}")

    def given(ser, data):
        x = ser.given[-1]
        require(type(x) is tuple and type(x[0]) is type(data) and x[0] == data, lambda: f"{what}: it was given {x!r} for {data!r}")

    args = [clone(c["croles"])] if c["croles"] is not None else []
    failing(mine, j.send_hello, *args)
    data = j.send_hello(*args)
    made(mine, data, ("Hello",))
    final = None
    for n in range(3):
        failing(theirs, a.receive, data)  # what cannot be read changes nothing
        answer, final = a.receive(data)
        given(theirs, data)
        made(theirs, answer, ("Challenge", "Welcome"))
        failing(mine, j.receive, answer)
        data = j.receive(answer)
        given(mine, answer)
        if data is None:
            break
        made(mine, data, ("Authenticate",))
    s, v = attempt(j.get_session_details)
    s2, v2 = attempt(a.get_session_details)
    require(s == s2 == "ok" and v == v2, lambda: f"{what}: the client has {v!r} and the router {v2!r}")
    ctx.hit(m, form)


# ------------------------------------------------------------------------------------------------------- authenticator


def authenticators():
    def per(s):
        method = st.one_of(st.sampled_from(("anonymous", "ticket", "wampcra", "cryptosign", "scram", "oauth2", "tls", "Ticket", "")), gen.text())
        answer = st.one_of(st.tuples(gen.text(), st.one_of(gen.strdict(s), hs.auth_keys(s))), st.tuples(gen.text(), st.just({}).map(dict)), st.integers(0, len(FAILURES) - 1))
        extra = st.one_of(hs.auth_keys(s), gen.strdict(s), st.just({}).map(dict))
        return st.fixed_dictionaries({
            "ser": st.just(s), "how": st.sampled_from(("base", "computed")), "method": method, "authid": gen.text(), "extra": extra,
            "challenge": st.tuples(st.one_of(st.none(), method), st.one_of(extra, st.just({"challenge": "ab" * 32}))), "answer": answer, "objects": st.booleans(),
            "style": st.sampled_from((None, *spec.STYLES)), "joined": st.booleans(), "grant": st.tuples(gen.ids(), gen.text(), gen.text()),
        })

    return st.sampled_from(gen.SERIALIZERS).flatmap(per)


def check_authenticator(c, ctx):
    from wampproto import auth
    from wampproto.joiner import Joiner

    asked = []

    class Own(auth.IClientAuthenticator):
        def __len__(self):  # of what: the user's business
            return int(c["objects"])

        def authenticate(self, challenge):
            asked.append((challenge.authmethod, clone(challenge.extra)))
            if type(c["answer"]) is int:
                raise FAILURES[c["answer"]]("no")
            with spec.styled(c["style"]):
                return spec.build("Authenticate", {"signature": c["answer"][0], "extra": clone(c["answer"][1])})

    if c["how"] == "base":
        a = Own(c["method"], c["authid"], clone(c["extra"]))
    else:

        class Computed(Own):
            def __init__(self):  # keeps nothing
                pass

            auth_method = property(lambda self: c["method"])
            authid = property(lambda self: c["authid"])
            auth_extra = property(lambda self: clone(c["extra"]))

        a = Computed()
    ser = gen.serializer(c["ser"])
    j = Joiner("realm", gen.serializer(c["ser"]), a)
    what = f"client authenticator of the user's ({c['how']}, {c['method']!r})"
    d = gen.ref_loads(c["ser"], j.send_hello())[2]
    for k, want in (("authmethods", [c["method"]]), ("authid", c["authid"]), ("authextra", c["extra"])):
        require(same(d.get(k), want), lambda: f"{what}: HELLO has {k} {show(d.get(k))}, the authenticator {show(want)}")
    require(not asked, lambda: f"{what}: asked to authenticate before any CHALLENGE: {show(asked)}")
    method, extra = c["challenge"]
    method = c["method"] if method is None else method
    ch = {"authmethod": method, "extra": clone(extra)}

    def tell(kind, f):
        m = spec.build(kind, f)
        return attempt(j.receive_message, m) if c["objects"] else attempt(lambda: j.receive(ser.serialize(m)))

    s, v = tell("Challenge", ch)
    if method != c["method"] and s == "err" and not asked:
        return ctx.label("refused another method")
    require(same(asked, [(method, extra)]), lambda: f"{what}: CHALLENGE {method!r} {show(extra)}, the authenticator was asked {show(asked)}")
    if type(c["answer"]) is int:
        require(s == "err", lambda: f"{what}: it raised {FAILURES[c['answer']].__name__}, and {show(v)} is sent")
        ctx.hit("raised")
        return
    require(s == "ok" and v is not None, lambda: f"{what}: answered {c['answer']!r}, which came to {v!r}")
    arr = v.marshal() if c["objects"] else gen.ref_loads(c["ser"], v)
    require(same(arr, [5, *c["answer"]]), lambda: f"{what}: answered {show(c['answer'])}, {show(arr)} is sent")
    sid, authid, role = c["grant"]
    s, v = tell("Welcome", {"session_id": sid, "roles": {"dealer": {}}, "authid": authid, "authrole": role, "authmethod": method})
    require(s == "ok" and v is None, lambda: f"{what}: WELCOME came to {v!r}")
    got = j.get_session_details()
    require((got.session_id, got.realm, got.authid, got.authrole) == (sid, "realm", authid, role), lambda: f"{what}: WELCOME said {c['grant']}, the session details are {(got.session_id, got.realm, got.authid, got.authrole)}")
    require(len(asked) == 1, lambda: f"{what}: asked {len(asked)} times")
    ctx.hit("answered", c["how"])


RELATIONS = [
    Relation("fields", fields, check_fields, 6000), Relation("histories", histories, check_histories, 3000), Relation("session serializer", sessions, check_session, 1200),
    Relation("handshake serializer", handshakes, check_handshake, 1500), Relation("authenticator", authenticators, check_authenticator, 4000),
]
ASSUMPTIONS = [
    "a user's fields derive from the library's interface for them and return the same values whenever they are read",
    "what a client or router has decided stands when the user's serializer fails to write it (only reading and the HELLO are repeated after a failure)",
]
