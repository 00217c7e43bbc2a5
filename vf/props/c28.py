"""A message before and after everything one does with messages."""
import copy
import pickle

from hypothesis import strategies as st

from vf import gen, handshake as hs, spec
from vf.core import Relation, Violation, attempt, clone, require, same, show

RULE = (
    "uses: a case is a message and up to 12 uses of it (serializing, copying, sending, receiving, routing, handshaking), after each of "
    "which its fields, array, serialized forms and the data it was built from are compared with those before; non-trivial when at "
    "least one use that handles the message succeeded. decode: an array is decoded three times; non-trivial when it was accepted"
)
SIMPLE = ("marshal", "serialize-json", "serialize-msgpack", "serialize-cbor", "text", "copy", "deepcopy", "pickle", "parse", "rebuild", "compare", "members")
ROUTED = ("send", "receive", "send-again", "broker", "dealer", "join", "accept", "progress")


BUSY = ("Call", "Call", "Yield", "Yield", "Publish", "Publish", "Error", "Register", "Subscribe", "Invocation", "Result", "Event")


class Uses:
    def __init__(self, ser, kind, fields, msg, ctx):
        self.name, self.kind, self.f, self.msg, self.ctx = ser, kind, fields, msg, ctx
        self.ser = gen.serializer(ser)
        self.session = None

    def prepared(self):
        """A session for which this message is the next thing to send or receive."""
        from wampproto.session import WAMPSession

        s = WAMPSession(self.ser)
        f, kind = self.f, self.kind
        b = spec.build
        rid = f.get("request_id", 1)

        def registered(i, r=900):
            attempt(s.send_message, b("Register", {"request_id": r, "procedure": "p"}))
            attempt(s.receive_message, b("Registered", {"request_id": r, "registration_id": i}))

        def subscribed(i, r=900):
            attempt(s.send_message, b("Subscribe", {"request_id": r, "topic": "t"}))
            attempt(s.receive_message, b("Subscribed", {"request_id": r, "subscription_id": i}))

        if kind in ("Yield", "Error"):
            registered(5)
            attempt(s.receive_message, b("Invocation", {"request_id": rid, "registration_id": 5}))
        if kind == "Invocation":
            registered(f["registration_id"])
        if kind == "Event":
            subscribed(f["subscription_id"])
        if kind in ("Unregister", "Unregistered"):
            registered(f.get("registration_id", 5))
        if kind in ("Unsubscribe", "Unsubscribed"):
            subscribed(f.get("subscription_id", 5))
        if kind in ("Result", "Error"):
            attempt(s.send_message, b("Call", {"request_id": rid, "procedure": "p"}))
        if kind == "Registered":
            attempt(s.send_message, b("Register", {"request_id": rid, "procedure": "p"}))
        if kind == "Subscribed":
            attempt(s.send_message, b("Subscribe", {"request_id": rid, "topic": "p"}))
        if kind in ("Published", "Error"):
            attempt(s.send_message, b("Publish", {"request_id": rid, "topic": "p", "options": {"acknowledge": True}}))
        if kind == "Unregistered":
            attempt(s.send_message, b("Unregister", {"request_id": rid, "registration_id": 5}))
        if kind == "Unsubscribed":
            attempt(s.send_message, b("Unsubscribe", {"request_id": rid, "subscription_id": 5}))
        return s

    def dealer(self):
        from wampproto.dealer import Dealer
        from wampproto.types import SessionDetails

        d = Dealer()
        for i in (1, 2):
            d.add_session(SessionDetails(i, "r", f"u{i}", "role"))
        b = spec.build
        f, kind, msg = self.f, self.kind, self.msg
        done = []

        def tell(sid, m):
            s, v = attempt(d.receive_message, sid, m)
            done.append(s)
            if s == "ok" and v is not None:
                attempt(self.ser.serialize, v.message)
            return v if s == "ok" else None

        if kind == "Call":
            tell(2, b("Register", {"request_id": 1, "procedure": f["procedure"]}))
            inv = tell(1, msg)
            if inv is not None and spec.kind_of(inv.message) == "Invocation":
                i = inv.message.request_id
                tell(2, b("Yield", {"request_id": i, "args": [1], "options": {"progress": True}}))
                tell(1, msg)
                tell(2, b("Yield", {"request_id": i, "args": [1]}))
            done.append(tell(1, msg) and "ok")
            return "ok" in done
        if kind == "Register":
            tell(1, msg)
            tell(2, msg)
            tell(2, b("Call", {"request_id": 1, "procedure": f["procedure"]}))
        elif kind == "Unregister":
            for i in range(min(f["registration_id"], 12)):
                tell(1, b("Register", {"request_id": i + 1, "procedure": f"p{i}"}))
            tell(1, msg)
            tell(2, msg)
        else:
            tell(2, b("Register", {"request_id": 1, "procedure": "p"}))
            for i in range(min(f.get("request_id", 1), 12)):
                tell(1, b("Call", {"request_id": i + 1, "procedure": "p", "options": {"receive_progress": True}}))
            del done[:]
            tell(2, msg)
            tell(1, msg)
            tell(2, msg)
        return "ok" in done

    def broker(self):
        from wampproto.broker import Broker
        from wampproto.types import SessionDetails

        k = Broker()
        for i in (1, 2, 3):
            k.add_session(SessionDetails(i, "r", f"u{i}", "role"))
        b = spec.build
        f, kind, msg = self.f, self.kind, self.msg
        ok = False
        if kind == "Publish":
            for i in (1, 2):
                k.receive_message(i, b("Subscribe", {"request_id": 1, "topic": f["topic"]}))
            for i in (3, 1):
                s, v = attempt(k.receive_publish, i, msg)
                if s == "ok":
                    ok = True
                    if v.event is not None:
                        attempt(self.ser.serialize, v.event)
                        attempt(self.ser.serialize, v.event)
        else:
            for i in range(min(f.get("subscription_id", 1), 12)):
                k.receive_message(1, b("Subscribe", {"request_id": 1, "topic": f"t{i}"}))
            for i in (1, 2, 1):
                s, v = attempt(k.receive_message, i, msg)
                ok = ok or s == "ok"
        return ok

    def join(self):
        from wampproto.joiner import Joiner

        ok = False
        for method in hs.METHODS:
            a = hs.client_authenticator({"method": method, "authid": "joe", "extra": {"a": 1}, "ticket": "t", "secret": "s", "seed": b"\x07" * 32})
            j = Joiner("r", self.ser, a)
            j.send_hello()
            for _ in range(2):
                s, v = attempt(j.receive_message, self.msg)
                if s == "ok":
                    ok = True
                    if v is not None:
                        attempt(self.ser.serialize, v)
        return ok

    def accept(self):
        from wampproto import auth
        from wampproto.acceptor import Acceptor

        def yes(r):
            r.auth_extra  # noqa: B018
            return auth.WAMPCRAResponse("joe", "role", "s") if r.method == "wampcra" else auth.Response("joe", "role")

        ok = False
        for method in (None, "anonymous", "ticket", "wampcra", "cryptosign"):
            acc = Acceptor(self.ser, hs.server_authenticator(yes) if method else None)
            if self.kind != "Hello":
                extra = {"pubkey": hs.nacl_public(b"\x07" * 32).hex()}
                attempt(acc.receive_message, spec.build("Hello", {"realm": "r", "roles": {"caller": {}}, "authid": "joe", "authmethods": [method or "anonymous"], "authextra": extra}))
            for _ in range(2):
                s, v = attempt(acc.receive_message, self.msg)
                if s == "ok":
                    ok = True
                    if v is not None:
                        attempt(self.ser.serialize, v)
        return ok

    def use(self, how):
        m = self.msg
        if how == "marshal":
            got = m.marshal()
            if isinstance(got, list):
                got.append("more")  # the array is the caller's
                got[0] = None
            return True
        if how.startswith("serialize"):
            return attempt(gen.serializer(how[10:]).serialize, m)[0] == "ok"
        if how == "text":
            return attempt(lambda: (repr(m), str(m), bool(m), hash(m)))[0] == "ok"
        if how in ("copy", "deepcopy", "pickle"):
            s, c = attempt({"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[how], m)
            if s == "ok":
                attempt(self.ser.serialize, c)
            return s == "ok"
        if how == "parse":
            return attempt(type(m).parse, m.marshal())[0] == "ok"
        if how == "rebuild":
            o = spec.build(self.kind, self.f)  # from the very same data
            attempt(self.ser.serialize, o)
            return True
        if how == "compare":
            return attempt(lambda: (m == m, m == spec.build(self.kind, clone(self.f)), m != 1))[0] == "ok"
        if how == "members":
            for n in dir(m):
                if not n.startswith("_"):
                    v = attempt(getattr, m, n)
                    if n == "payload_is_binary" and v[0] == "ok":
                        attempt(v[1])
            return True
        if how == "send":
            return attempt(self.prepared().send_message, m)[0] == "ok"
        if how == "receive":
            return attempt(self.prepared().receive_message, m)[0] == "ok"
        if how in ("send-again", "progress"):
            if self.session is None:
                self.session = self.prepared()
            a = attempt(self.session.send_message if how == "send-again" else self.session.receive_message, m)[0]
            b = attempt(self.session.send_message if how == "send-again" else self.session.receive_message, m)[0]
            return "ok" in (a, b)
        return getattr(self, how)()


def picture(msg, kind):
    d = {"fields": clone(spec.read(msg))}  # first: before anything is written out
    if kind in spec.PAYLOAD_KINDS:
        d["payload"] = (msg.payload, msg.payload_serializer, msg.payload_is_binary())
    d["array"] = clone(msg.marshal())
    data = d["serialized"] = {}
    for n in gen.SERIALIZERS:
        st_, v = attempt(gen.serializer(n).serialize, msg)
        data[n] = v if st_ == "ok" else type(v).__name__
    return d


def relevant(kind):
    out = list(SIMPLE)
    if kind in ("Call", "Yield", "Error", "Register", "Unregister"):
        out += ["dealer"] * 5
    if kind in ("Publish", "Subscribe", "Unsubscribe"):
        out += ["broker"] * 5
    if kind in ("Welcome", "Challenge", "Abort"):
        out += ["join"] * 5
    if kind in ("Hello", "Authenticate", "Abort"):
        out += ["accept"] * 5
    if kind not in ("Hello", "Welcome", "Challenge", "Authenticate"):
        out += ["send", "receive", "send-again", "progress"] * 2
    return out


def cases():
    def per(t):
        ser, kind, f = t
        return st.tuples(st.just(ser), st.just(kind), st.just(f), st.lists(st.sampled_from(relevant(kind)), min_size=1, max_size=12), st.booleans())

    def small(t):
        """IDs a router can have given."""
        ser, kind, f = t
        types = st.sampled_from([68, 68, 68, 48, 16, 70]) if kind == "Error" else st.just(None)
        return st.tuples(st.integers(1, 9), types).map(lambda x: (ser, kind, {k: x[0] if k.endswith("_id") else x[1] if k == "message_type" else v for k, v in f.items()}))

    m = gen.ser_message(payload=True)
    busy = gen.ser_message(BUSY, payload=True).flatmap(progressive)
    shaking = gen.ser_message(("Hello", "Hello", "Welcome", "Challenge", "Authenticate", "Abort")).flatmap(handshaking)
    return st.one_of(m, m.flatmap(small), busy, busy, gen.ser_message().flatmap(small), shaking).flatmap(per)


def handshaking(t):
    """What gets far in a handshake."""
    ser, kind, f = t
    known = st.sampled_from(("anonymous", "ticket", "wampcra", "cryptosign", "cryptosign"))
    if kind == "Hello":
        key = {"pubkey": hs.nacl_public(b"\x07" * 32).hex()}
        return st.tuples(st.lists(known, max_size=3), st.booleans()).map(lambda x: (ser, kind, {**f, "authmethods": x[0], "authextra": {**(f.get("authextra") or {}), **key} if x[1] else f.get("authextra")}))
    if kind == "Challenge":
        extra = st.one_of(st.just({"challenge": "ab" * 32}), st.just({"challenge": "ab" * 32, "salt": "salt", "iterations": 3, "keylen": 32}))
        return st.tuples(known, extra).map(lambda x: (ser, kind, {**f, "authmethod": x[0], "extra": {**(f.get("extra") or {}), **x[1]}}))
    return st.just(t)


def progressive(t):
    ser, kind, f = t
    d = "options" if "options" in f else "details"
    if d not in f:
        return st.just(t)
    flags = st.one_of(st.fixed_dictionaries({}, optional={"progress": st.booleans(), "receive_progress": st.booleans(), "acknowledge": st.booleans()}), gen.wamp_options(ser))
    return st.tuples(flags, st.integers(1, 9)).map(lambda x: (ser, kind, {**{k: x[1] if k.endswith("_id") else v for k, v in f.items()}, d: {**(f[d] or {}), **x[0]}}))


def check_uses(case, ctx):
    ser, kind, fields, uses, decoded = case
    before = clone(fields)
    data = None
    if decoded:
        data = spec.ref_encode(kind, fields)
        msg = attempt(lambda: gen.serializer(ser).deserialize(gen.ref_dumps(ser, data)))
        if msg[0] == "err":
            return ctx.label("not decodable")
        msg = msg[1]
    else:
        msg = spec.build(kind, fields)
    u = Uses(ser, kind, fields, msg, ctx)
    unread = None if decoded else clone(spec.build(kind, clone(fields)).marshal())  # of a message nobody looked into
    first = picture(msg, kind)
    if unread is not None:
        require(same(unread, first["array"]), lambda: f"{kind} {show(before, 200)}: its array is {show(unread)}, and {show(first['array'])} after its fields were read")
    require(same(fields, before), lambda: f"building and serializing {kind} changed the data it was built from, {show(before)}, to {show(fields)}")
    for i, how in enumerate(uses):
        if u.use(how):
            ctx.hit(how if how in SIMPLE else f"{how} {kind}")
        now = picture(msg, kind)
        for k in first:
            require(same(first[k], now[k]), lambda: f"{kind} {show(before, 200)} after {uses[:i + 1]}: its {k} went from {show(first[k])} to {show(now[k])}")
        require(same(fields, before), lambda: f"{how} of {kind} changed the data it was built from, {show(before)}, to {show(fields)}")


def check_decode(case, ctx):
    from wampproto import messages

    ser, kind, f, extra = case
    arr = spec.ref_encode(kind, f)
    if extra is not None:
        i, v = extra
        arr[1 + i % len(arr):] = [v, *arr[2 + i % len(arr):]]
    before = clone(arr)
    cls = getattr(messages, kind)
    outs = []
    for n in range(3):
        s, v = attempt(cls.parse, arr)
        require(same(arr, before), lambda: f"decoding the array {show(before)} changed it to {show(arr)}")
        outs.append((s, v))
    for s, v in outs[1:]:
        require(s == outs[0][0], lambda: f"decoding {show(before)} again: {outs[0]} and then {(s, v)}")
        if s == "ok":
            a, b = picture(outs[0][1], kind), picture(v, kind)
            require(same(a, b), lambda: f"decoding {show(before)} gave {show(a)} and then {show(b)}")
    require(same(arr, before), lambda: f"serializing what was decoded from {show(before)} changed it to {show(arr)}")
    if outs[0][0] == "ok":
        ctx.hit(kind)
    else:
        ctx.label("refused")


def decodes():
    extra = st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 5), st.one_of(st.none(), st.just({}), st.just([]), st.integers(-1, 3), gen.short_text())))
    return st.tuples(gen.ser_message(), extra).map(lambda t: (*t[0], t[1]))


RELATIONS = [Relation("uses", cases, check_uses, 11000, 150000), Relation("decode", decodes, check_decode, 3000)]
ASSUMPTIONS = [
    "what a router forwards may share the payload of the message it forwards; nobody writes into it (writing into a message's own containers changes that message, and is not a use)",
]
