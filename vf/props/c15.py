from vf import gen, spec
from vf import session_machine as sm
from vf.core import Relation

RULE = (
    "a case is a history of up to 40 sends and receives (plus bursts of up to 600 requests) on one client session, each "
    "judged against the model of what is outstanding; non-trivial when at least one message was accepted or refused by "
    "the model's verdict"
)


def check(case, ctx):
    sm.run(case, ctx)


FIELDS = {
    "Call": {"procedure": "p"}, "Register": {"procedure": "p"}, "Subscribe": {"topic": "t"}, "Publish": {"topic": "t", "options": {"acknowledge": True}},
    "Unregister": {"registration_id": 7}, "Unsubscribe": {"subscription_id": 7},
}


def pairs(tier):
    """What is outstanding under one ID (one kind, all but one, all) x every reply and every ERROR about that ID."""
    sets = [(k,) for k in sm.REQ] + [tuple(x for x in sm.REQ if x != k) for k in sm.REQ] + [tuple(sm.REQ), ()]
    codes = [*spec.BY_CODE, 0, -48, 47, 49, 15, 17, 31, 31 + 256, 48 + 256, 2**53]
    for rid in (1, 2**53):
        for out in sets:
            for what in (*sm.REPLY, *codes):
                yield (rid, out, what)


def check_pairs(case, ctx):
    rid, out, what = case
    ops = [("send", "Register", {"request_id": 5, "procedure": "p"}), ("recv", "Registered", {"request_id": 5, "registration_id": 7})]
    ops += [("send", "Subscribe", {"request_id": 6, "topic": "t"}), ("recv", "Subscribed", {"request_id": 6, "subscription_id": 7})]
    ops += [("send", k, {"request_id": rid, **FIELDS[k]}) for k in out]
    if type(what) is int:
        last = ("recv", "Error", {"message_type": what, "request_id": rid, "uri": "u"})
    else:
        last = ("recv", what, {n: rid if n == "request_id" else 8 for n in spec.fields_of(what) if n.endswith("_id")})
    sm.run((gen.SERIALIZERS[rid % 3], [("steps", [*ops, last, last])], sm.ID_POOL), ctx)


RELATIONS = [Relation("history", lambda: sm.history(sm.WEIGHTED), check, 6000), Relation("pairs", None, check_pairs, cases=pairs), sm.scale()]
ASSUMPTIONS = [
    "request IDs are not reused for a request of the same kind while the earlier one is outstanding",
    "a progress flag is True, False or absent",
    "UNREGISTERED/UNSUBSCRIBED for something not held may be accepted or refused (their verdict is not decided)",
]
