from hypothesis import strategies as st

from vf import gen
from vf import session_machine as sm
from vf.core import Relation, attempt, require
from vf import spec

RULE = (
    "a case is a history on one client session that mixes progressive and final RESULTs, INVOCATIONs and YIELDs, judged "
    "against the model; non-trivial when at least one message marked as progress was accepted"
)


def check(case, ctx):
    sm.run(case, ctx, tags_progress=("C16",))
    ctx.nontrivial = any(x.startswith("progressive") for x in ctx.labels)


def check_streams(case, ctx):
    """Several calls and invocations, each with its own number of progressive messages, interleaved."""
    from wampproto.session import WAMPSession

    name, counts, order, how = case
    s = WAMPSession(gen.serializer(name))
    ser = gen.serializer(name)
    n = len(counts)
    s.send_message(spec.build("Register", {"request_id": 1, "procedure": "p"}))
    s.receive_message(spec.build("Registered", {"request_id": 1, "registration_id": 9}))
    for i in range(n):
        s.send_message(spec.build("Call", {"request_id": i + 1, "procedure": "p", "options": {"receive_progress": True}}))
        s.receive_message(spec.build("Invocation", {"request_id": i + 1, "registration_id": 9, "details": {"receive_progress": True}}))
    left = {("r", i + 1): c for i, c in enumerate(counts)} | {("y", i + 1): c for i, c in enumerate(counts)}
    for pick in [*order, *range(10**6)]:
        if not left:
            break
        key = sorted(left)[pick % len(left)]
        kind, i = key
        final = left[key] == 0
        opts = {} if final and how % 2 else {"progress": not final}
        if kind == "r":
            if final and how % 3 == 1:
                m = spec.build("Error", {"message_type": 48, "request_id": i, "uri": "u"})
            else:
                m = spec.build("Result", {"request_id": i, "details": opts, "args": [left[key]]})
            st_, v = attempt(s.receive_message, m) if how % 2 else attempt(s.receive, ser.serialize(m))
        else:
            if final and how % 3 == 2:
                m = spec.build("Error", {"message_type": 68, "request_id": i, "uri": "u"})
            else:
                m = spec.build("Yield", {"request_id": i, "options": opts, "args": [left[key]]})
            st_, v = attempt(s.send_message, m)
        require(st_ == "ok", lambda: f"{'final' if final else 'progressive'} {'RESULT' if kind == 'r' else 'YIELD'} for {i} refused: {type(v).__name__}: {v}")
        if final:
            del left[key]
            for prog in (True, False):
                if kind == "r":
                    t, v = attempt(s.receive_message, spec.build("Result", {"request_id": i, "details": {"progress": prog}}))
                else:
                    t, v = attempt(s.send_message, spec.build("Yield", {"request_id": i, "options": {"progress": prog}}))
                require(t == "err" and isinstance(v, ValueError), lambda: f"{'RESULT' if kind == 'r' else 'YIELD'} for {i} after the final one was not refused with ValueError")
        else:
            left[key] -= 1
    if sum(counts):
        ctx.hit("progress")
    if n > 1:
        ctx.hit("several calls")


def streams():
    return st.tuples(
        st.sampled_from(gen.SERIALIZERS), st.lists(st.one_of(st.integers(0, 4), st.sampled_from([10, 33, 100, 257])), min_size=1, max_size=4),
        st.lists(st.integers(0, 7), max_size=30), st.integers(0, 5),
    )


RELATIONS = [
    Relation("history", lambda: sm.history(sm.PROGRESS_WEIGHTED, bursts=False), check, 5000),
    Relation("streams", streams, check_streams, 1500),
    sm.scale(),
]
ASSUMPTIONS = ["a progress flag is True, False or absent"]
