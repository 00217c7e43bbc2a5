"""Metamorphic: a history with refused operations against the same history without them."""
from hypothesis import strategies as st

from vf import gen, router_machine as rm, session_machine as sm, spec
from vf.core import Ctx, Relation, Violation, attempt, clone, require, same, show

RULE = (
    "a case is a history on one session, broker or dealer; the accepted operations are repeated on a fresh object, every "
    "output and then a fixed series of probes must be equal; non-trivial when at least one operation was refused"
)

GARBAGE = (b"", b"\xff\xff", b"[", b"[50]", b"[50,1]", b"\x82\x18\x32\x01", b"\x92\x32\x01", b"[68,1,1]", b"[36,1,0,{}]", b"[8,48,1,{},7]", b"{}", b"null", b"\xc0", b"\xf6")


def outcome(s, v):
    if s == "err":
        return ("refused",)
    if hasattr(v, "marshal"):
        return ("ok", spec.kind_of(v), spec.read(v))
    return ("ok", v)


# ------------------------------------------------------------------------------------------------------------ session


def session_steps(name, ops, session, ser, m):
    """Drive `session`; yields (perform, s, v, wanted, description)."""
    for i, op in enumerate(ops):
        if op[0] == "garbage":
            data = GARBAGE[op[1] % len(GARBAGE)]
            yield ("raw", data), "no"
            continue
        for j, (direction, kind, f) in enumerate(sm.resolve(op, m)):
            bad = sm.has_unserializable([*f.values()])
            if bad and direction == "recv":
                continue
            want = m.expect(direction, kind, f)
            if want == "either":
                continue
            yield ("msg", direction, kind, f, (i + j) % 2), "no" if bad else want


def perform(session, ser, step):
    if step[0] == "raw":
        return session.receive(step[1])
    return sm.perform(session, ser, *step[1:])


def check_session(case, ctx):
    from wampproto.session import WAMPSession

    name, ops, pool = case
    ser = gen.serializer(name)
    with_, without = WAMPSession(gen.serializer(name)), WAMPSession(gen.serializer(name))
    m = sm.Model(pool)
    refused = 0
    ids = {"request_id": {1, 2, 3}, "registration_id": {1, 2}, "subscription_id": {1, 2}}
    for step, want in session_steps(name, ops, with_, ser, m):
        s, v = attempt(perform, with_, ser, step)
        if step[0] == "msg":
            for k in ids:
                if k in step[3]:
                    ids[k].add(step[3][k])
        if want == "no" and s == "err":
            refused += 1
            ctx.label(f"refused {step[1] if step[0] == 'msg' else 'undecodable data'}")
            continue
        s2, v2 = attempt(perform, without, ser, step)
        a, b = outcome(s, v), outcome(s2, v2)
        require(same(a, b), lambda: f"{show(step)} gave {show(a)} with {refused} refused operations before it, {show(b)} without them")
        if s == "err" or want == "no":
            break  # the model is lost: C15's matter
        m.apply(*step[1:4])
    ctx.nontrivial = refused > 0
    if not refused:
        return
    for step in session_probes({k: sorted(v) for k, v in ids.items()}):
        a = outcome(*attempt(perform, with_, ser, step))
        b = outcome(*attempt(perform, without, ser, step))
        require(same(a, b), lambda: f"probe {show(step)} gave {show(a)} after {refused} refused operations, {show(b)} without them")


def session_probes(ids):
    for r in ids["registration_id"][:40]:
        yield "msg", "recv", "Invocation", {"request_id": 777, "registration_id": r}, 0
    for r in ids["subscription_id"][:40]:
        yield "msg", "recv", "Event", {"subscription_id": r, "publication_id": 1}, 0
    for r in ids["request_id"][:60]:
        yield "msg", "send", "Yield", {"request_id": r, "options": {"progress": True}}, 0
        yield "msg", "send", "Yield", {"request_id": r}, 0
        yield "msg", "send", "Yield", {"request_id": r}, 0
        yield "msg", "recv", "Result", {"request_id": r, "details": {"progress": True}}, 0
        for k in ("Unregistered", "Unsubscribed", "Result", "Published"):
            yield "msg", "recv", k, {"request_id": r, **({"publication_id": 1} if k == "Published" else {})}, 0
        yield "msg", "recv", "Registered", {"request_id": r, "registration_id": 888}, 0
        yield "msg", "recv", "Subscribed", {"request_id": r, "subscription_id": 888}, 0
        for c in (48, 64, 66, 16, 32, 34):
            yield "msg", "recv", "Error", {"message_type": c, "request_id": r, "uri": "u"}, 0
    for r in ids["registration_id"][:40]:
        yield "msg", "recv", "Invocation", {"request_id": 778, "registration_id": r}, 0
    for r in ids["subscription_id"][:40]:
        yield "msg", "recv", "Event", {"subscription_id": r, "publication_id": 1}, 0


# ------------------------------------------------------------------------------------------------------ broker, dealer


def replay_router(make, run, case, ctx, probes):
    steps = []
    quiet = Ctx(None)
    obj = None
    lost = False
    try:
        obj, _, _ = run(case, quiet, steps)
    except Violation:
        lost = True  # judged below: does it also happen without the refused operations?
    if obj is None:
        obj = make()
        for i, (step, s, v) in enumerate(steps):
            attempt(rm.perform, obj, step)
    fresh = make()
    refused = 0
    for i, (step, s, v) in enumerate(steps):
        last = lost and i == len(steps) - 1
        if s == "err" and not last:
            refused += 1
            continue
        s2, v2 = attempt(rm.perform, fresh, step)
        a, b = outcome(s, v), outcome(s2, v2)
        require(same(a, b), lambda: f"{show(step)} gave {show(a)} with {refused} refused operations before it, {show(b)} without them")
    ctx.nontrivial = refused > 0
    ctx.label(f"refused {min(refused, 10)}")
    if not refused:
        return
    for step in probes([s[0] for s in steps], [s[2] for s in steps if s[1] == "ok"]):
        a = outcome(*attempt(rm.perform, obj, step))
        b = outcome(*attempt(rm.perform, fresh, step))
        require(same(a, b), lambda: f"probe {show(step)} gave {show(a)} after {refused} refused operations, {show(b)} without them")


def sids(steps):
    return sorted({s[1] for s in steps})[:14]


def broker_probes(steps, values):
    who = sids(steps)
    topics = sorted({s[2]["topic"] for s in steps if s[0] == "pub"} | {s[3]["topic"] for s in steps if s[0] == "msg" and "topic" in s[3]})[:20]
    subs = sorted({v[3]["subscription_id"] for v in values if v and v[0] == "to" and v[2] == "Subscribed"})[:20]
    pub = lambda: [("pub", who[0], {"request_id": 1, "topic": t, "options": {"acknowledge": True}}) for t in topics] if who else []  # noqa: E731
    yield from pub()
    for w in who[:6]:
        for i in subs[:10]:
            yield "msg", w, "Unsubscribe", {"request_id": 1, "subscription_id": i}
    yield from pub()
    for w in who:
        yield "leave", w
        yield "join", w
    for w in who[:4]:
        for t in topics[:8]:
            yield "msg", w, "Subscribe", {"request_id": 1, "topic": t}
    yield from pub()


def dealer_probes(steps, values):
    who = sids(steps)
    procs = sorted({s[3]["procedure"] for s in steps if s[0] == "msg" and "procedure" in s[3]})[:20]
    invs = sorted({v[3]["request_id"] for v in values if v and v[0] == "to" and v[2] == "Invocation"})[-20:]
    regs = sorted({v[3]["registration_id"] for v in values if v and v[0] == "to" and v[2] == "Registered"})[:20]
    calls = sorted({(s[1], s[3]["request_id"]) for s in steps if s[0] == "msg" and s[2] == "Call"})[:20]
    p0 = procs[0] if procs else "com.none"
    for w, r in calls:
        yield "msg", w, "Call", {"request_id": r, "procedure": p0, "options": {"progress": True}}
    for i in invs:
        for w in who:
            yield "msg", w, "Yield", {"request_id": i, "options": {"progress": True}}
            yield "msg", w, "Yield", {"request_id": i}
    for w in who[:3]:
        for p in procs:
            yield "msg", w, "Call", {"request_id": 5, "procedure": p}
    for w in who[:8]:
        for r in regs[:10]:
            yield "msg", w, "Unregister", {"request_id": 1, "registration_id": r}
    for w in who:
        yield "leave", w
        yield "join", w
    for w in who[:3]:
        for p in procs:
            yield "msg", w, "Register", {"request_id": 1, "procedure": p}
            yield "msg", w, "Call", {"request_id": 5, "procedure": p}


def check_broker(case, ctx):
    from wampproto.broker import Broker

    replay_router(Broker, rm.run_broker, case, ctx, broker_probes)


def check_dealer(case, ctx):
    from wampproto.dealer import Dealer

    replay_router(Dealer, rm.run_dealer, case, ctx, dealer_probes)


# --------------------------------------------------------------------------------------------------------- many refusals

STRIKES = (3, 12, 35, 101, 258, 1027)
U = {"request_id": 900}
SESSION_REFUSED = [
    *[("recv", k, {n: 900 for n in spec.fields_of(k) if n.endswith("_id")}) for k in (*sm.REPLY, "Invocation", "Event")],
    *[("recv", "Error", {"message_type": c, "request_id": 900, "uri": "u"}) for c in (48, 64, 66, 16, 32, 34, 68, 7)],
    ("send", "Yield", U), ("send", "Error", {"message_type": 48, "request_id": 1, "uri": "u"}), ("send", "Result", U), ("recv", "Call", {**U, "procedure": "p"}),
    ("send", "Call", {**U, "procedure": "p", "args": [...]}), ("send", "Register", {**U, "procedure": "p", "options": {"x": ...}}), ("send", "Publish", {**U, "topic": "t", "options": {"acknowledge": True, "x": ...}}),
    ("send", "Yield", {"request_id": 41, "args": [...]}), ("send", "Goodbye", {"details": {"x": ...}, "reason": "r"}),
]
SESSION_SETUP = [
    ("send", "Register", {"request_id": 1, "procedure": "p"}), ("recv", "Registered", {"request_id": 1, "registration_id": 1}),
    ("send", "Subscribe", {"request_id": 1, "topic": "t"}), ("recv", "Subscribed", {"request_id": 1, "subscription_id": 1}),
    ("recv", "Invocation", {"request_id": 41, "registration_id": 1}), ("recv", "Invocation", {"request_id": 42, "registration_id": 1}),
    *[("send", k, {"request_id": 3, **{"Call": {"procedure": "p"}, "Register": {"procedure": "q"}, "Subscribe": {"topic": "s"}, "Publish": {"topic": "t", "options": {"acknowledge": True}}, "Unregister": {"registration_id": 1}, "Unsubscribe": {"subscription_id": 1}}[k]}) for k in sm.REQ],
]
ROUTER_SETUP = [("join", 1), ("join", 2), ("join", 3)]
BROKER_SETUP = [*ROUTER_SETUP, ("msg", 1, "Subscribe", {"request_id": 1, "topic": "t"}), ("msg", 2, "Subscribe", {"request_id": 1, "topic": "t"})]
DEALER_SETUP = [
    *ROUTER_SETUP, ("msg", 1, "Register", {"request_id": 1, "procedure": "p"}), ("msg", 2, "Call", {"request_id": 1, "procedure": "p"}),
    ("msg", 3, "Call", {"request_id": 1, "procedure": "p", "options": {"progress": True, "receive_progress": True}}),
]
BROKER_REFUSED = [
    ("join", 1), ("leave", 9), ("msg", 9, "Subscribe", {"request_id": 1, "topic": "t"}), ("msg", 2, "Unsubscribe", {"request_id": 1, "subscription_id": 900}),
    ("msg", 9, "Unsubscribe", {"request_id": 1, "subscription_id": 1}), ("pub", 9, {"request_id": 1, "topic": "t"}), ("msg", 1, "Call", {"request_id": 1, "procedure": "p"}),
]
DEALER_REFUSED = [
    ("join", 1), ("leave", 9), ("msg", 9, "Register", {"request_id": 1, "procedure": "q"}), ("msg", 1, "Unregister", {"request_id": 1, "registration_id": 900}),
    ("msg", 9, "Call", {"request_id": 1, "procedure": "p"}), ("msg", 2, "Yield", {"request_id": 900}), ("msg", 1, "Yield", {"request_id": 900}), ("msg", 9, "Yield", {"request_id": 1}),
    ("msg", 1, "Error", {"message_type": 48, "request_id": 1, "uri": "u"}), ("msg", 1, "Error", {"message_type": 68, "request_id": 900, "uri": "u"}), ("msg", 1, "Subscribe", {"request_id": 1, "topic": "t"}),
]


def strikes(tier):
    """The same refused operation, or a few in turn, very many times; then everything else."""
    for n in STRIKES:
        for what, kinds in (("session", len(SESSION_REFUSED) + len(GARBAGE)), ("broker", len(BROKER_REFUSED)), ("dealer", len(DEALER_REFUSED))):
            if n < 300 or tier != "quick":
                yield from ((what, n, (i,)) for i in range(kinds))
            yield what, n, tuple(range(kinds))


def check_strikes(case, ctx):
    what, n, which = case
    picks = [which[i % len(which)] for i in range(n)]
    if what == "session":
        ops = [("steps", SESSION_SETUP), *[("steps", [SESSION_REFUSED[i]]) if i < len(SESSION_REFUSED) else ("garbage", i - len(SESSION_REFUSED), 0, None) for i in picks]]
        check_session((gen.SERIALIZERS[n % 3], ops, sm.ID_POOL), ctx)
    elif what == "broker":
        check_broker(([("steps", [*BROKER_SETUP, *[BROKER_REFUSED[i] for i in picks], ("msg", 3, "Subscribe", {"request_id": 2, "topic": "t"}), ("msg", 2, "Unsubscribe", {"request_id": 1, "subscription_id": 1}), ("leave", 1)])], rm.SIDS, rm.URIS, rm.REQS), ctx)
    else:
        check_dealer(([("steps", [*DEALER_SETUP, *[DEALER_REFUSED[i] for i in picks], ("msg", 3, "Register", {"request_id": 2, "procedure": "q"}), ("leave", 2)])], rm.SIDS, rm.URIS, rm.REQS), ctx)


REFUSING = sm.WEIGHTED + ["unserializable"] * 5 + ["cross"] * 3 + ["any"] * 2 + ["garbage"] * 3 + ["wrong"] * 2 + ["fail"] * 2 + ["yield"] * 2
DEALER = ["join"] * 4 + ["leave"] * 3 + ["reg"] * 5 + ["unreg"] * 2 + ["unreg-any"] * 5 + ["call"] * 5 + ["pcall"] * 2 + ["chunk"] * 2 + ["yield"] * 4 + ["fail"] + ["yield-any"] * 5 + ["fail-any"] * 5 + ["wrong"] * 3
BROKER = ["join"] * 4 + ["leave"] * 3 + ["sub"] * 6 + ["unsub"] * 2 + ["unsub-any"] * 6 + ["pub"] * 5 + ["wrong"] * 4
RELATIONS = [
    Relation("session", lambda: sm.history(REFUSING, bursts=False), check_session, 4000),
    Relation("broker", lambda: rm.broker_history(ops=BROKER), check_broker, 2500),
    Relation("dealer", lambda: rm.dealer_history(DEALER), check_dealer, 3000),
    Relation("strikes", None, check_strikes, cases=strikes),
]
ASSUMPTIONS = ["request IDs are not reused for a request of the same kind while the earlier one is outstanding"]
