"""Histories on separate objects, interleaved, against each history run alone in a process of its own."""
import functools
import os
import pickle
import signal
import traceback

from hypothesis import strategies as st

from vf import gen, handshake as hs, router_machine as rm, session_machine as sm, spec
from vf.core import Ctx, HarnessError, Relation, Violation, attempt, clone, require, same, show
from vf.props import c03

RULE = (
    "interleave: a case is two histories (session, broker, dealer, ID generator, handshake, codec, decoding, signing) and an order of their steps, "
    "non-trivial when both have steps and the order alternates; defaults: non-trivial when something could be written into; "
    "authenticators: every case is non-trivial"
)


# -------------------------------------------------------------------------------------------------- running in a child


@functools.cache
def loaded():
    """Import all of the library now, which children then need not do; and a thread stopped while importing would hold up the others."""
    import importlib
    import pkgutil

    import wampproto

    for m in pkgutil.walk_packages(wampproto.__path__, "wampproto."):
        attempt(importlib.import_module, m.name)


def in_child(fn, *args):
    """fn(*args) in a forked process, so that nothing it does to shared state stays behind."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except BaseException as e:  # noqa: BLE001
                out = ("err", f"{type(e).__name__}: {e}\n{traceback.format_exc(limit=-5)}")
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise HarnessError("a child died")
    s, v = pickle.loads(data)
    if s == "err":
        raise HarnessError(v)
    return v


# ------------------------------------------------------------------------------------------------------------ programs


def outcome(s, v):
    if s == "err":
        return ("refused", type(v).__name__)
    if hasattr(v, "marshal"):
        return ("ok", spec.kind_of(v), spec.read(v))
    return ("ok", v)


class Program:
    """concrete(case): the steps, found by running alone; step(x): does one on this object."""

    def __init__(self, case, steps):
        pass

    @classmethod
    def prepare(cls, case):
        return list(case)

    def step(self, x):
        raise NotImplementedError


class Session(Program):
    def __init__(self, case):
        from wampproto.session import WAMPSession

        self.name = case[0]
        self.ser = gen.serializer(self.name)
        self.session = WAMPSession() if self.name == "json" else WAMPSession(gen.serializer(self.name))

    @classmethod
    def prepare(cls, case):
        steps = []
        attempt(sm.run, case, Ctx("C27"), steps=steps)
        return [x[:4] for x in steps]

    def step(self, x):
        return outcome(*attempt(sm.perform, self.session, self.ser, *x))


class Router(Program):
    def __init__(self, case):
        self.obj = self.make()

    @classmethod
    def prepare(cls, case):
        steps = []
        attempt(cls.runner, case, Ctx("C27"), steps)
        return [x[0] for x in steps]

    def step(self, x):
        return outcome(*attempt(rm.perform, self.obj, x))


class Broker(Router):
    runner = staticmethod(rm.run_broker)

    def make(self):
        from wampproto.broker import Broker as B

        return B()


class Dealer(Router):
    runner = staticmethod(rm.run_dealer)

    def make(self):
        from wampproto.dealer import Dealer as D

        return D()


class IDs(Program):
    def __init__(self, case):
        from wampproto.idgen import SessionScopeIDGenerator

        self.gen = SessionScopeIDGenerator()

    @classmethod
    def prepare(cls, case):
        return list(range(case))

    def step(self, x):
        return outcome(*attempt(self.gen.next))


class Handshake(Program):
    """A client with its own router side; what is random is replaced by what it is compared with."""

    def __init__(self, case):
        from wampproto.acceptor import Acceptor
        from wampproto.joiner import Joiner

        self.name, self.cred, self.good, self.salt = case
        self.roles, router_roles = clone(self.cred.get("roles")), clone(self.cred.get("router_roles"))
        kw = {} if router_roles is None else {"roles": router_roles}
        auth, realm = hs.client_authenticator(self.cred), "realm." + self.cred["authid"]
        server = None if self.cred["method"] == "default" else hs.server_authenticator(self.decide)
        if self.name == "json":
            self.joiner, self.acceptor = Joiner(realm, authenticator=auth), Acceptor(authenticator=server, **kw)
        else:
            self.joiner, self.acceptor = Joiner(realm, gen.serializer(self.name), auth), Acceptor(gen.serializer(self.name), server, **kw)
        self.ser = gen.serializer(self.name)
        self.to_router = self.to_client = None
        self.challenge = None

    def decide(self, r):
        from wampproto import auth

        c = self.cred
        self.asked = hs.describe(r)
        if r.method == "wampcra":
            secret = c["secret"] if self.good else c["secret"] + "x"
            if c["method"] == "wampcra":
                return auth.WAMPCRAResponse("granted-" + c["authid"], "role", secret)
            return auth.WAMPCRASaltedResponse("granted-" + c["authid"], "role", hs.cra_key(secret, *self.salt).decode(), *self.salt)
        if not self.good:
            raise hs.Refusal("no", c["authid"])
        return auth.Response("granted-" + c["authid"], "role")

    @classmethod
    def prepare(cls, case):
        return ["hello", "router", "client", "router", "client", "joiner", "acceptor", "asked"]

    def message(self, data):
        if data is None:
            return None
        m = self.ser.deserialize(data)
        f = spec.read(m)
        kind = spec.kind_of(m)
        if kind == "Welcome":
            f["session_id"] = "its own" if f["session_id"] == self.acceptor.get_session_details().session_id else "another"
        if kind == "Challenge" and "challenge" in f["extra"]:
            self.challenge = f["extra"]["challenge"]
            f["extra"] = {**f["extra"], "challenge": ""}
        if kind == "Authenticate" and self.challenge is not None:
            c = self.cred
            if c["method"] == "cryptosign":
                f["signature"] = hs.cs_valid(f["signature"], hs.nacl_public(c["seed"]), self.challenge)
            else:
                f["signature"] = hs.cra_valid(f["signature"], hs.cra_key(c["secret"], *self.salt) if c["method"] == "wampcra-salted" else hs.cra_key(c["secret"]), self.challenge)
        return (kind, f)

    def details(self, d):
        return (d.realm, d.authid, d.authrole)

    def step(self, x):
        if x == "hello":
            s, v = attempt(self.joiner.send_hello, *([] if self.roles is None else [self.roles]))
            self.to_router = v if s == "ok" else None
            return outcome(s, self.message(v) if s == "ok" else v)
        if x == "router":
            if self.to_router is None:
                return ("idle",)
            data, self.to_router = self.to_router, None
            s, v = attempt(self.acceptor.receive, data)
            if s == "err":
                return outcome(s, v)
            self.to_client = v[0]
            return ("ok", self.message(v[0]), v[1], self.acceptor.is_aborted())
        if x == "client":
            if self.to_client is None:
                return ("idle",)
            data, self.to_client = self.to_client, None
            s, v = attempt(self.joiner.receive, data)
            if s == "err":
                return outcome(s, v)
            self.to_router = v
            return ("ok", self.message(v))
        if x == "asked":
            return ("ok", getattr(self, "asked", None))
        obj = self.joiner if x == "joiner" else self.acceptor
        s, v = attempt(obj.get_session_details)
        return outcome(s, self.details(v) if s == "ok" else v)


class Codec(Program):
    def __init__(self, case):
        from wampproto import serializers

        self.sers = {}
        self.make = {"json": serializers.JSONSerializer, "msgpack": serializers.MsgPackSerializer, "cbor": serializers.CBORSerializer}

    def step(self, x):
        name, kind, f = x
        if name not in self.sers:
            self.sers[name] = self.make[name]()
        ser = self.sers[name]
        s, data = attempt(lambda: ser.serialize(spec.build(kind, clone(f))))
        if s == "err":
            return outcome(s, data)
        return (data, *outcome(*attempt(ser.deserialize, data)))


class Decode(Codec):
    """Arrays, well-formed and not, decoded or parsed; refusals count with their text, which names what is wrong."""

    def step(self, x):
        name, arr = x
        if name not in self.sers:
            self.sers[name] = self.make[name]()
        s, data = attempt(gen.ref_dumps, name, arr)
        if s == "err":
            return ("cannot be written",)
        s, v = attempt(self.sers[name].deserialize, data)
        return ("refused", type(v).__name__, repr(v.args)) if s == "err" else outcome(s, v)


SECRETS = ("secret", "secret2", "", "s" * 64)
CHALLENGES = ("{}", "abc", "abd", "")
SALTS = (("x", 3, 32), ("y", 3, 32), ("x", 4, 32), ("x", 3, 16), ("", 3, 32))


class Signing(Program):
    def __init__(self, case):
        self.made = {}

    def authenticator(self, cred):
        k = repr(cred)
        if k not in self.made:
            self.made[k] = hs.client_authenticator(cred)
        return self.made[k]

    def step(self, x):
        from wampproto import auth
        from wampproto.auth import wampcra

        what, a, b, c = x
        secret, ch, salt = SECRETS[a % 4], CHALLENGES[b % 4], SALTS[c % 5]
        if what == "derive":
            if not hasattr(wampcra, "derive_cra_key"):
                return ("absent",)
            return outcome(*attempt(wampcra.derive_cra_key, salt[0], secret, salt[1], salt[2]))
        if what == "sign":
            return outcome(*attempt(auth.sign_wampcra_challenge, ch, secret.encode()))
        if what == "verify":
            return outcome(*attempt(auth.verify_wampcra_signature, hs.cra_sign(secret.encode(), ch), CHALLENGES[c % 4], SECRETS[(a + c // 4) % 4].encode()))
        if what == "cs-verify":
            seed = bytes([a + 1]) * 32
            return outcome(*attempt(auth.verify_cryptosign_signature, hs.cs_proof(seed, bytes([b]).hex()), hs.nacl_public(bytes([a + 1 + (c == 1)]) * 32)))
        cred = {"method": what, "authid": f"u{a}", "extra": {"x": a} if c % 2 else None, "ticket": secret, "secret": secret, "seed": bytes([a + 1]) * 32}
        obj = self.authenticator(cred)
        extra = {"challenge": bytes([b]).hex() * 32} if what == "cryptosign" else {} if what == "ticket" else {"challenge": ch}
        if what == "wampcra-salted":
            extra.update(salt=salt[0], iterations=salt[1], keylen=salt[2])
        got = (obj.auth_method, obj.authid, clone(obj.auth_extra))
        m = spec.build("Challenge", {"authmethod": "wampcra" if what == "wampcra-salted" else what, "extra": extra})
        return (got, *outcome(*attempt(obj.authenticate, m)))


PROGRAMS = {"session": Session, "broker": Broker, "dealer": Dealer, "ids": IDs, "handshake": Handshake, "codec": Codec, "decode": Decode, "signing": Signing}


def in_order(kind, case, steps):
    return execute([(kind, case, steps)], [0] * len(steps))[0]


def execute(programs, order):
    """Run the programs' steps in this order; an object is made just before its first step."""
    objs = [None] * len(programs)
    at = [0] * len(programs)
    out = [[] for _ in programs]
    for i in order:
        kind, case, steps = programs[i]
        if at[i] >= len(steps):
            continue
        if objs[i] is None:
            objs[i] = PROGRAMS[kind](case)
        out[i].append(objs[i].step(clone(steps[at[i]])))
        at[i] += 1
    return out


def program(kind):
    if kind == "session":
        return sm.history(sm.WEIGHTED, bursts=False, size=25)
    if kind == "broker":
        return rm.broker_history(size=20)
    if kind == "dealer":
        return rm.dealer_history(size=20)
    if kind == "ids":
        return st.integers(0, 40)
    if kind == "handshake":
        cred = st.fixed_dictionaries({
            "method": st.sampled_from(("default", *hs.METHODS, *hs.METHODS)), "authid": st.sampled_from(["joe", "ann"]), "extra": st.sampled_from([None, {}, {"x": 1}]),
            "ticket": st.sampled_from(["t1", "t2"]), "secret": st.sampled_from(["s1", "s2"]), "seed": st.sampled_from([b"\x01" * 32, b"\x02" * 32]),
            "roles": st.sampled_from([None, None, {"caller": {}}, {"callee": {"features": {"x": True}}}]),
            "router_roles": st.sampled_from([None, None, {"broker": {}}, {"dealer": {"features": {"y": True}}}]),
        })
        return st.tuples(st.sampled_from(gen.SERIALIZERS), cred, st.integers(0, 4).map(bool), st.sampled_from(SALTS))
    if kind == "decode":
        return st.lists(st.tuples(st.sampled_from(gen.SERIALIZERS), c03.near()), max_size=6)
    if kind == "codec":
        return st.lists(gen.ser_message(), max_size=8)
    what = st.sampled_from(["derive", "derive", "sign", "verify", "cs-verify", *hs.METHODS])
    return st.lists(st.tuples(what, st.integers(0, 7), st.integers(0, 3), st.integers(0, 9)), max_size=15)


def orders():
    return st.one_of(st.lists(st.integers(0, 1), max_size=60), st.lists(st.integers(0, 1), min_size=16, max_size=60), st.sampled_from([[], [0, 1] * 30, [1, 0] * 30, [0, 0, 1] * 20, [1, 1, 1, 0] * 12, [0] * 6 + [1] * 3 + [0, 1] * 30]))


def interleaved():
    kinds = [("session",) * 2] * 4 + [("broker",) * 2] * 4 + [("dealer",) * 2] * 4 + [("ids",) * 2] + [("handshake",) * 2] * 4 + [("codec",) * 2] * 2 + [("signing",) * 2] * 2
    kinds += [("broker", "dealer"), ("session", "dealer"), ("handshake", "session"), ("ids", "dealer"), ("broker", "ids"), ("handshake", "signing"), ("codec", "session"), ("codec", "broker"), ("decode", "decode"), ("decode", "session"), ("decode", "handshake")]

    def per(k):
        a, b = program(k[0]), program(k[1])
        pair = st.tuples(a, b)
        if k[0] == k[1]:
            pair = st.one_of(pair, a.map(lambda x: (x, clone(x))))
        return st.tuples(st.just(k), pair, orders())

    return st.sampled_from(kinds).flatmap(per)


def check_interleave(case, ctx):
    loaded()
    kinds, (a, b), order = case
    progs, apart = [], []
    for kind, c in zip(kinds, (a, b)):
        steps = in_child(PROGRAMS[kind].prepare, c)
        progs.append((kind, c, steps))
        apart.append(in_child(in_order, kind, c, steps))
    n = [len(p[2]) for p in progs]
    full = [*order, *[0] * n[0], *[1] * n[1]]
    together = in_child(execute, progs, full)
    for i in (0, 1):
        for j, (x, y) in enumerate(zip(apart[i], together[i])):
            require(same(x, y), lambda: f"step {j} of the {kinds[i]} history, {show(progs[i][2][j])}, gave {show(y)} with the {kinds[1 - i]} history going on besides, {show(x)} alone")
    ctx.label("+".join(kinds))
    head = order[: sum(n)]
    if not (n[0] and n[1]):
        ctx.label("a history without steps")
    elif any(x != y for x, y in zip(head, head[1:])):
        ctx.hit("alternating")


# ------------------------------------------------------------------------------------------------------------ defaults

MARK = [0]


def scribble(v, mark, done=None, depth=0):
    """Write `mark` into every dictionary and list reachable from v. Returns how many."""
    done = set() if done is None else done
    if id(v) in done or depth > 12:
        return 0
    done.add(id(v))
    n = 0
    if isinstance(v, dict):
        for x in list(v.values()):
            n += scribble(x, mark, done, depth + 1)
        v[mark] = mark
        return n + 1
    if isinstance(v, list):
        for x in list(v):
            n += scribble(x, mark, done, depth + 1)
        v.append(mark)
        return n + 1
    return 0


def marked(v, mark, depth=0):
    if depth > 14:
        return False
    if isinstance(v, dict):
        return mark in v or any(marked(x, mark, depth + 1) for x in v.values())
    if isinstance(v, (list, tuple)):
        return any(marked(x, mark, depth + 1) for x in v)
    return isinstance(v, str) and v == mark


def minimal(kind, level):
    """Fields of a message with as little as possible given: level 0 nothing optional, 1 empty containers."""
    f = {}
    for n, t in spec.TABLE[kind][1]:
        if t == "id":
            f[n] = 1
        elif t == "int":
            f[n] = 68
        elif t == "str":
            f[n] = "x"
        elif t == "dict":
            if kind not in spec.OPTIONAL_DICT or level:
                f[n] = {}
        else:
            f["roles"] = {"caller": {"features": {}}}
            if level:
                f.update(authextra={}, **({"authmethods": []} if t == "hello" else {}))
    if spec.TABLE[kind][2] and level:
        f.update(args=[], kwargs={})
    return f


def surface(m):
    """Everything one can get at."""
    from wampproto import messages  # noqa: F401

    out = []
    for n in dir(m):
        if not n.startswith("_"):
            s, v = attempt(getattr, m, n)
            if s == "ok" and not callable(v):
                out.append(v)
    return out


def make(what, level, how):
    """An object of this sort and the values one can read from it. Called anew for each."""
    from wampproto import auth, messages
    from wampproto.acceptor import Acceptor
    from wampproto.joiner import Joiner

    if what in ROUTED:
        return routed(what, level, how)
    if what in spec.TABLE:
        f = minimal(what, level)
        if how == 0:
            m = spec.build(what, f)
        elif how == 1:
            m = getattr(messages, what).parse(spec.ref_encode(what, f))
        else:
            ser = gen.serializer(gen.SERIALIZERS[level])
            m = ser.deserialize(ser.serialize(spec.build(what, f)))
        return [*surface(m), m.marshal()]
    if what in hs.METHODS:
        a = hs.client_authenticator({"method": what, "authid": "joe", "extra": {} if level else None, "ticket": "t", "secret": "s", "seed": b"\x01" * 32})
        out = surface(a)
        extra = {"challenge": "00" * 32}
        if what != "anonymous":
            m = a.authenticate(spec.build("Challenge", {"authmethod": what, "extra": extra}))
            out += [*surface(m), m.marshal()]
        return out
    if what == "hello":
        ser = gen.serializer(gen.SERIALIZERS[how])
        return surface(ser.deserialize(Joiner("r", ser).send_hello()))
    if what == "welcome":
        acc = Acceptor(authenticator=None if level else hs.server_authenticator(lambda r: auth.Response("a", "b")))
        m = acc.receive_message(spec.build("Hello", minimal("Hello", 0)))
        return [*surface(m), m.marshal()]
    acc = Acceptor(authenticator=hs.server_authenticator(lambda r: auth.WAMPCRAResponse("a", "b", "c") if level else auth.Response("a", "b")))
    m = acc.receive_message(spec.build("Hello", {**minimal("Hello", 0), "authmethods": ["wampcra" if level else "ticket"]}))
    return [*surface(m), m.marshal()]


def routed(what, level, how):
    """What a broker or dealer hands out, without what was handed in."""
    from wampproto.broker import Broker
    from wampproto.dealer import Dealer
    from wampproto.types import SessionDetails

    r = Broker() if what == "publication" else Dealer()
    for sid in (1, 2):
        r.add_session(SessionDetails(sid, "realm", "x", "y"))
    if what == "publication":
        if level:
            r.receive_message(2, spec.build("Subscribe", {"request_id": 1, "topic": "t"}))
        p = r.receive_publish(1, spec.build("Publish", {"request_id": 1, "topic": "t", **({"options": {"acknowledge": True}} if how else {})}))
        return [p.recipients, *(surface(p.event) if p.event is not None else []), *(surface(p.ack.message) if p.ack is not None else [])]
    if level:
        r.receive_message(2, spec.build("Register", {"request_id": 1, "procedure": "t"}))
    m = r.receive_message(1, spec.build("Call", {"request_id": 1, "procedure": "t", **({"options": {"receive_progress": True}} if how == 1 else {})}))
    out = [*surface(m.message), m.message.marshal()]
    if level and what == "result":
        m = r.receive_message(2, spec.build("Yield", {"request_id": m.message.request_id, **({"options": {"progress": True}} if how == 1 else {})}))
        out = [*surface(m.message), m.message.marshal()]
    return out


ROUTED = ("publication", "invocation", "result")
SORTS = (*spec.KINDS, *hs.METHODS, "hello", "welcome", "challenge", *ROUTED)


def defaults():
    return st.tuples(st.sampled_from(SORTS), st.integers(0, 1), st.integers(0, 2), st.sampled_from(SORTS), st.integers(0, 1), st.integers(0, 2))


def check_defaults(case, ctx):
    MARK[0] += 1
    mark = f"mark-{os.getpid()}-{MARK[0]}"
    n = scribble(make(*case[:3]), mark) - 1
    others = [case[:3], case[3:]] + [(w, case[1], h) for w in SORTS for h in (0, 1)]
    for o in others:
        got = make(*o)
        require(not marked(got, mark), lambda: f"written into the dictionaries and lists of {case[:3]}, found in a new {o}: {show(got)}")
    if n:
        ctx.hit(f"{case[0]}")


# ------------------------------------------------------------------------------------------------------ authenticators


def authenticators():
    one = st.tuples(st.sampled_from(hs.METHODS + ("cryptosign",)), hs.names(), hs.seeds(), hs.secrets())
    extra = st.one_of(st.just({}), st.just({"x": {"y": [1]}}), gen.strdict("json"))
    return st.tuples(extra, st.lists(one, min_size=1, max_size=4), st.booleans())


def check_authenticators(case, ctx):
    from wampproto import auth

    extra, specs, sign = case
    extra = {k: v for k, v in extra.items() if k != "pubkey"}
    before = clone(extra)
    made = []
    for method, authid, seed, secret in specs:
        if method == "anonymous":
            a = auth.AnonymousAuthenticator(authid, extra)
        elif method == "ticket":
            a = auth.TicketAuthenticator(authid, secret, extra)
        elif method == "cryptosign":
            a = auth.CryptoSignAuthenticator(authid, seed.hex(), extra)
        else:
            a = auth.WAMPCRAAuthenticator(authid, secret, extra)
        made.append(a)
        require(same(extra, before), lambda: f"creating a {method} authenticator changed the caller's auth_extra from {show(before)} to {show(extra)}")
    for a, (method, authid, seed, secret) in zip(made, specs):
        if sign and method != "anonymous":
            ch = {"challenge": "ab" * 32}
            s, m = attempt(a.authenticate, spec.build("Challenge", {"authmethod": method, "extra": ch}))
            require(s == "ok", lambda: f"a {method} authenticator refused a challenge: {m!r}")
            if method == "cryptosign":
                require(hs.cs_valid(m.signature, hs.nacl_public(seed), "ab" * 32), lambda: f"the cryptosign authenticator of {authid!r} signed with another key: {m.signature}")
            elif method == "ticket":
                require(m.signature == secret, lambda: f"the ticket authenticator of {authid!r} answered {m.signature!r}, its ticket is {secret!r}")
            else:
                require(hs.cra_valid(m.signature, hs.cra_key(secret), "ab" * 32), lambda: f"the WAMP-CRA authenticator of {authid!r} signed with another secret")
            require(same(ch, {"challenge": "ab" * 32}), lambda: f"answering changed the challenge to {show(ch)}")
        want = {**before, **({"pubkey": hs.nacl_public(seed).hex()} if method == "cryptosign" else {})}
        require(a.authid == authid and same(a.auth_extra, want), lambda: f"the {method} authenticator of {authid!r} announces {a.authid!r} {show(a.auth_extra)}, expected {show(want)}")
        require(same(extra, before), lambda: f"using a {method} authenticator changed the caller's auth_extra to {show(extra)}")
    ctx.hit(*[s[0] for s in specs])


# ------------------------------------------------------------------------------------------- messages sharing containers

SHARING = tuple(k for k in spec.KINDS if spec.TABLE[k][2] or any(t == "dict" for _, t in spec.TABLE[k][1]))


def sharing():
    kind = st.one_of(st.sampled_from(SHARING), st.sampled_from(tuple(spec.PAYLOAD_KINDS)))
    one = st.tuples(kind, st.one_of(st.none(), st.integers(0, 3)), st.booleans())
    return st.tuples(
        st.one_of(st.just({}), gen.wamp_options(), gen.strdict("json")), st.one_of(st.none(), gen.args("json")), st.one_of(st.none(), gen.kwargs("json")),
        st.lists(one, min_size=2, max_size=4), st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), min_size=1, max_size=8),
    )


def check_sharing(case, ctx):
    """Messages built with the same dictionaries and lists are each what they would be with copies of their own."""
    opts, args, kwargs, specs, uses = case
    opts = opts or {}

    def fields(kind, number, payload, opts, args, kwargs):
        f = {n: 7 if t == "id" else 68 if t == "int" else "x" if t == "str" else opts for n, t in spec.TABLE[kind][1]}
        if spec.TABLE[kind][2]:
            f.update(args=args, kwargs=kwargs)
        if kind in spec.PAYLOAD_KINDS:
            f.update(serializer=number, **({"payload": b"p", "binary": True} if payload else {}))
        return f

    def use(m, how):
        if how == 3:
            return spec.read(m)
        name = gen.SERIALIZERS[how]
        return gen.ref_loads(name, gen.serializer(name).serialize(m))

    shared = [spec.build(k, fields(k, n, p, opts, args, kwargs)) for k, n, p in specs]
    for i, how in uses:
        i %= len(specs)
        k, n, p = specs[i]
        alone = spec.build(k, fields(k, n, p, *clone((case[0] or {}, case[1], case[2]))))
        want, got = attempt(use, alone, how), attempt(use, shared[i], how)
        require(want[0] == got[0] and (want[0] == "err" or same(want[1], got[1])), lambda: f"{k} sharing its containers with {[x[0] for x in specs]} gives {show(got[1])}, with its own {show(want[1])}")
    ctx.hit(*[f"shared by {k}" for k, _, _ in specs])


RELATIONS = [
    Relation("interleave", interleaved, check_interleave, 1600, 30000, fuzz=False),
    Relation("defaults", defaults, check_defaults, 1200),
    Relation("authenticators", authenticators, check_authenticators, 1500),
    Relation("sharing", sharing, check_sharing, 2500),
]
ASSUMPTIONS = [
    "objects that were given the same caller's containers on purpose may share those; only what the caller did not pass, and the caller's auth_extra, is claimed",
    "random parts of handshakes (session ID, challenge) are compared only for belonging to their own handshake",
]
