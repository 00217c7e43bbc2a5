from hypothesis import strategies as st

from vf import gen, handshake as hs, spec
from vf.core import Relation, attempt, require, same, show

RULE = (
    "refusal: a router whose authenticator raises one of several exception types with generated arguments, at HELLO or AUTHENTICATE, "
    "end to end over a serializer; abort: any ABORT received by a client at any stage; non-trivial when an ABORT reached the client"
)
SEED = bytes(range(32))


def exceptions():
    from wampproto.exception import ApplicationError

    class Deep(hs.Refusal):
        pass

    class Custom(Exception):
        def __init__(self, *a):
            super().__init__(*a)
            self.extra = object()

        def __str__(self):
            return "something else"

    def app(*a):
        return ApplicationError("com.app.error", list(a), {"k": 1})

    return (Exception, ValueError, KeyError, RuntimeError, TypeError, PermissionError, LookupError, Deep, Custom, app, StopIteration, AssertionError, NotImplementedError, ArithmeticError)


def refusal_cases():
    def per(s):
        return st.fixed_dictionaries({
            "ser": st.just(s), "method": st.sampled_from(("anonymous", "default", "ticket", "wampcra", "cryptosign")),
            "args": st.one_of(st.just([]), st.lists(gen.value(s), max_size=4), st.lists(gen.short_text(), min_size=1, max_size=1), gen.args(s).map(lambda v: v or [])),
            "exc": st.integers(0, 13), "objects": st.booleans(), "authid": hs.names(),
        })

    return st.sampled_from(gen.SERIALIZERS).flatmap(per)


def check_refusal(c, ctx):
    from wampproto.acceptor import Acceptor
    from wampproto.exception import ApplicationError
    from wampproto.joiner import Joiner

    exc = exceptions()[c["exc"]]
    if exc is PermissionError and len(c["args"]) != 1:
        exc = ValueError  # OSError keeps its arguments elsewhere
    error = exc(*c["args"])
    require_args = list(error.args)

    def decide(r):
        raise error

    ser = gen.serializer(c["ser"])
    a = Acceptor(gen.serializer(c["ser"]), hs.server_authenticator(decide))
    j = Joiner("realm", gen.serializer(c["ser"]), hs.client_authenticator({"method": c["method"], "authid": c["authid"], "extra": None, "ticket": "t", "secret": "s", "seed": SEED}))
    what = f"{c['method']} over {c['ser']} refused with {type(error).__name__}{show(error.args)}"

    def router(data):
        if c["objects"]:
            m = a.receive_message(ser.deserialize(data))
            return ser.serialize(m), spec.kind_of(m) in ("Welcome", "Abort")
        return a.receive(data)

    data, final = router(j.send_hello())
    if c["method"] == "ticket":
        require(spec.kind_of(ser.deserialize(data)) == "Challenge", lambda: f"{what}: HELLO answered with {show(ser.deserialize(data))}")
        data, final = router(j.receive(data))
    m = ser.deserialize(data)
    require(spec.kind_of(m) == "Abort", lambda: f"{what}: answered with {show(m)}")
    require(final is True, lambda: f"{what}: ABORT not marked as final")
    require(m.reason == "wamp.error.authentication_failed", lambda: f"{what}: reason {m.reason!r}")
    require(same(m.args or [], c["args"]) and same(m.args or [], require_args), lambda: f"{what}: ABORT args {show(m.args)}")
    require(not m.kwargs, lambda: f"{what}: ABORT kwargs {show(m.kwargs)}")
    s, v = attempt(j.receive, data)
    require(s == "err" and type(v) is ApplicationError, lambda: f"{what}: the client got {show(v)}")
    client_saw(what, v, m.reason, c["args"], None, exact=False)
    ctx.hit(c["method"], "with args" if c["args"] else "without args")


def client_saw(what, v, reason, args, kwargs, exact=True):
    require(same(v.message, reason), lambda: f"{what}: the client's error has message {v.message!r}, the reason was {reason!r}")
    require(same(list(v.args), list(args or [])), lambda: f"{what}: the client's error has args {show(v.args)}, sent were {show(args)}")
    require(same(v.kwargs, kwargs) or (not exact and not v.kwargs and not kwargs), lambda: f"{what}: the client's error has kwargs {show(v.kwargs)}, sent were {show(kwargs)}")


def abort_cases():
    def per(s):
        return st.tuples(
            st.just(s), st.sampled_from(("none", "hello", "auth", "welcomed")),
            st.fixed_dictionaries({"reason": gen.text(), "details": gen.strdict(s), "args": gen.args(s), "kwargs": gen.kwargs(s)}), st.booleans(),
        )

    return st.sampled_from(gen.SERIALIZERS).flatmap(per)


def check_abort(case, ctx):
    from wampproto.exception import ApplicationError
    from wampproto.joiner import Joiner

    name, stage, f, objects = case
    ser = gen.serializer(name)
    j = Joiner("realm", gen.serializer(name), hs.client_authenticator({"method": "ticket", "authid": "a", "ticket": "t"}))
    if stage != "none":
        j.send_hello()
    if stage == "auth":
        j.receive_message(spec.build("Challenge", {"authmethod": "ticket", "extra": {}}))
    elif stage == "welcomed":
        j.receive_message(spec.build("Welcome", {"session_id": 1, "roles": {"dealer": {}}, "authid": "a", "authrole": "b"}))
    what = f"ABORT {show(f)} at stage {stage} over {name}"
    if objects:
        s, v = attempt(j.receive_message, spec.build("Abort", {k: x for k, x in f.items()}))
    else:
        s, v = attempt(j.receive, gen.ref_dumps(name, spec.ref_encode("Abort", f)))
    require(s == "err" and type(v) is ApplicationError, lambda: f"{what}: the client got {type(v).__name__} {show(v)}")
    client_saw(what, v, f["reason"], f["args"], f["kwargs"])
    ctx.hit(stage, "kwargs" if f["kwargs"] else "no kwargs")


RELATIONS = [Relation("refusal", refusal_cases, check_refusal, 6000), Relation("abort", abort_cases, check_abort, 6000)]
ASSUMPTIONS = ["absent and empty args are the same to the application (an exception's args are a tuple)"]
