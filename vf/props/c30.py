from hypothesis import strategies as st

from vf import gen
from vf.core import Relation, attempt, clone, require, same, show

RULE = (
    "a case is a pair of session details compared with each other and with foreign objects, or one application error / "
    "ERROR message whose text is compared with the reference text; it is non-trivial when the pair differs in at most two "
    "fields, or args or kwargs are present"
)


def check_details(case, ctx):
    from wampproto.types import SessionDetails

    a, b, other = case
    x, y = SessionDetails(*a), SessionDetails(*b)
    for d, t in ((x, a), (y, b)):
        got = (d.session_id, d.realm, d.authid, d.authrole)
        require(same(got, tuple(t)), lambda: f"details of {t!r} report {got!r}")
    eq = tuple(a) == tuple(b)
    require((x == y) is eq and (y == x) is eq, lambda: f"{a!r} == {b!r} gave {(x == y)!r}/{(y == x)!r}, expected {eq}")
    require((x != y) is (not eq), lambda: f"{a!r} != {b!r} gave {(x != y)!r}")
    require((x == x) is True and (x == SessionDetails(*a)) is True, "details are not equal to themselves or a copy")

    class Lookalike:
        session_id, realm, authid, authrole = a

    class Dict(dict):
        pass

    for o in (other, None, tuple(a), list(a), {"session_id": a[0], "realm": a[1], "authid": a[2], "authrole": a[3]}, Lookalike(), object(), a[0], a[1]):
        require(not (x == o) and x != o, lambda: f"details equal {show(o)}")
    diff = sum(1 for p, q in zip(a, b) if p != q)
    ctx.label(f"differ in {diff} fields")
    if diff <= 2:
        ctx.hit("close pair")


def details():
    s = st.one_of(st.none(), gen.short_text())
    one = st.tuples(gen.ids(), gen.short_text(), s, s)

    def near(a):
        return st.tuples(
            st.just(a),
            st.tuples(*[st.one_of(st.just(x), st.just(x), alt) for x, alt in zip(a, (gen.ids(), gen.short_text(), s, s))])
            | st.just((a[0], a[2] or "", a[1], a[3])) | st.just((a[0], a[1], a[3], a[2])) | one,
            gen.value("cbor"),
        )

    return one.flatmap(near)


def text_of(uri, args, kwargs):
    t = uri
    if args:
        t += ": " + ", ".join(str(x) for x in args)
    if kwargs:
        t += ": " + ", ".join(f"{k}={v}" for k, v in kwargs.items())
    return t


def check_error(case, ctx):
    from wampproto import messages
    from wampproto.exception import ApplicationError

    uri, args, kwargs, details = case
    want = text_of(uri, args, kwargs)
    e = ApplicationError(uri, clone(args), clone(kwargs))
    require(str(e) == want, lambda: f"ApplicationError{case[:3]!r}: text {str(e)!r}, expected {want!r}")
    require(e.message == uri and isinstance(e, Exception), "ApplicationError does not keep its URI")
    require(same(e.kwargs, kwargs), lambda: f"ApplicationError kwargs {show(e.kwargs)}, expected {show(kwargs)}")
    require(same(list(e.args), list(args or [])), lambda: f"ApplicationError args {show(e.args)}, expected {show(args)}")
    require(str(e) == want, "the text changes when asked again")
    if args != [] and kwargs != {}:  # "where present": how an empty list or dictionary is shown is left open
        m = messages.Error(messages.ErrorFields(48, 1, uri, clone(args), clone(kwargs), clone(details)))
        require(str(m) == want, lambda: f"ERROR{case[:3]!r}: text {str(m)!r}, expected {want!r}")
        back = messages.Error.parse(m.marshal())
        if args is not None or kwargs is None:
            require(str(back) == want, lambda: f"ERROR{case[:3]!r} received: text {str(back)!r}, expected {want!r}")
    else:
        m = messages.Error(messages.ErrorFields(48, 1, uri, clone(args), clone(kwargs), clone(details)))
        require(str(m).startswith(uri), lambda: f"ERROR text {str(m)!r} does not start with its URI")
    if args:
        ctx.hit("args")
    if kwargs:
        ctx.hit("kwargs")


def errors():
    v = gen.value("cbor")
    return st.tuples(
        gen.text(),
        st.one_of(st.none(), st.lists(v, max_size=4), gen.args("cbor")),
        st.one_of(st.none(), st.dictionaries(gen.short_text(), v, max_size=4), gen.strdict("cbor")),
        gen.options("cbor"),
    )


RELATIONS = [Relation("details", details, check_details, 5000), Relation("text", errors, check_error, 8000)]
ASSUMPTIONS = ["how an empty args list or kwargs dictionary is shown in the text of an ERROR message is left open"]
