"""Repeated histories that end with nothing open: what is stored must not keep growing."""
import collections
import functools
import sys
import types

from hypothesis import strategies as st

from vf import gen, handshake as hs, router_machine as rm, session_machine as sm, spec
from vf.core import Ctx, Relation, Violation, attempt, clone, require, show

RULE = (
    "a case is a history on one session, broker or dealer (or a handshake, or a message to encode) that is then wound up, so that nothing "
    "is open any more; it is repeated with other IDs and URIs, and the number of stored items after each repetition must not keep growing; "
    "non-trivial when something was opened in each repetition"
)
ROUNDS = 5
CONFIRM = 60
LONG = 1500  # more than any bounded cache one would expect holds
BOUNDED = 4  # so often per process is a suspicion followed to the end in vain
state = {"bounded": 0, "found": False}
CONTAINERS = (dict, list, tuple, set, frozenset, collections.deque)


def ours(o):
    return (getattr(o, "__module__", None) or "").split(".")[0] == "wampproto"


def stored(*roots):
    """How many items can be reached from these objects and from the library's modules and classes."""
    todo = list(roots)
    for n, m in list(sys.modules.items()):
        if n.split(".")[0] == "wampproto" and m is not None:
            todo.append(vars(m))
    seen = set()
    keep = []
    n = 0
    while todo:
        o = todo.pop()
        t = type(o)
        if t in (int, float, bool, type(None)):
            continue
        if id(o) in seen:
            continue
        seen.add(id(o))
        keep.append(o)
        if t in (str, bytes, bytearray):
            n += len(o)
        elif isinstance(o, dict):
            n += len(o)
            todo.extend(o.keys())
            todo.extend(o.values())
        elif isinstance(o, CONTAINERS):
            n += len(o)
            todo.extend(o)
        elif isinstance(o, types.FunctionType):
            if ours(o):
                todo += [o.__defaults__, o.__kwdefaults__, vars(o), getattr(o, "__wrapped__", None)]
                for c in o.__closure__ or ():
                    s, v = attempt(lambda c=c: c.cell_contents)
                    if s == "ok":
                        todo.append(v)
        elif isinstance(o, (staticmethod, classmethod)):
            todo.append(o.__func__)
        elif isinstance(o, property):
            todo += [o.fget, o.fset]
        elif isinstance(o, types.MethodType):
            todo += [o.__self__, o.__func__]
        elif isinstance(o, functools._lru_cache_wrapper):
            n += o.cache_info().currsize
        elif isinstance(o, type):
            if ours(o):
                todo.extend(v for k, v in vars(o).items() if k not in ("__doc__", "__dict__", "__weakref__"))
        elif isinstance(o, types.ModuleType):
            pass
        elif ours(t):
            todo.append(getattr(o, "__dict__", None))
            for c in t.__mro__:
                for k in getattr(c, "__slots__", ()) if not isinstance(getattr(c, "__slots__", ()), str) else (c.__slots__,):
                    s, v = attempt(getattr, o, k)
                    if s == "ok":
                        todo.append(v)
    return n


def growing(sizes):
    return all(b > a for a, b in zip(sizes, sizes[1:]))


def judge(run, roots, what, ctx):
    """run(i): repetition i, returns how much it opened (0: this case says nothing)."""
    sizes = []
    for i in range(1, ROUNDS + 1):
        if not run(i):
            ctx.label("nothing opened")
            return
        sizes.append(stored(*roots))
    ctx.nontrivial = True
    tail = sizes[1:]  # the first repetition may set up what stays
    if not growing(tail):
        return
    for i in range(ROUNDS + 1, ROUNDS + CONFIRM + 1):
        if not run(i):
            return
        sizes.append(stored(*roots))
    if not growing(sizes[-CONFIRM // 2:]):
        return
    if not state["found"]:
        # a cache that stops growing some time is not a leak
        if state["bounded"] >= BOUNDED:
            ctx.label("bounded?")
            return
        for i in range(ROUNDS + CONFIRM + 1, LONG + 1):
            if not run(i):
                return
            if i > LONG - 400 and i % 50 == 0:
                sizes.append(stored(*roots))
        if not growing(sizes[-8:]):
            state["bounded"] += 1
            ctx.label("bounded")
            return
        state["found"] = True
    require(False, lambda: f"{what}: with everything wound up after each of {len(sizes)} measured repetitions, the items stored went {sizes[:5]} ... {sizes[-3:]}")


# ------------------------------------------------------------------------------------------------------------ session


class Stop(Exception):
    pass


def vary(kind, f, i):
    """The same message with other texts, arguments and details."""
    out = {k: f"{v}~{i}" if isinstance(v, str) and k not in ("topic", "procedure") else v for k, v in f.items()}
    if kind in spec.TABLE and spec.TABLE[kind][2]:
        if not isinstance(out.get("args"), list) or not out["args"]:
            out["args"] = [f"arg{i}", i, [i]]
        if out.get("kwargs") is None:
            out["kwargs"] = {f"key{i}": i}
    for k in ("options", "details", "extra"):
        if k in spec.fields_of(kind) and isinstance(out.get(k), (dict, type(None))):
            out[k] = {**(out.get(k) or {}), f"option{i}": i}
    return out


def session_round(session, ser, case, i):
    name, ops, pool = case
    m = sm.Model(tuple((x + 1_000_000 * i) % 2**53 + 1 for x in pool))
    opened = 0

    def do(direction, kind, f, how):
        bad = sm.has_unserializable([*f.values()])
        if bad and direction == "recv":
            return
        if not bad:
            f = vary(kind, f, i)
            f = {k: f"{v}~{i}" if k in ("topic", "procedure") else v for k, v in f.items()}
        want = "no" if bad else m.expect(direction, kind, f)
        if want == "either":
            return
        s, v = attempt(sm.perform, session, ser, direction, kind, f, how)
        if (s == "ok") != (want == "ok"):
            raise Stop  # C15's matter
        if want == "ok":
            m.apply(direction, kind, f)

    for j, op in enumerate(ops):
        for direction, kind, f in sm.resolve(op, m):
            f = {k: (v + 1_000_000 * i if k == "request_id" and 10_000 <= v < 12_000 else v) for k, v in f.items()}
            do(direction, kind, f, j % 2)
        opened += sum(map(len, m.out.values())) + len(m.inv) + len(m.regs) + len(m.subs)
    # wind up
    late = (len(ops) + sum(pool)) % 2  # invocations are answered after their registrations are gone

    def answer():
        for r in sorted(m.inv):
            do("send", *(("Yield", {"request_id": r}) if r % 2 else ("Error", {"message_type": 68, "request_id": r, "uri": "u"})), 0)

    for k in ("Register", "Subscribe", "Call", "Publish", "Unregister", "Unsubscribe"):
        for r in list(m.out[k]):
            kind = next(x for x, y in sm.REPLY.items() if y == k)
            ref = m.out[k][r]
            if (k == "Unregister" and ref not in m.regs) or (k == "Unsubscribe" and ref not in m.subs) or (r + i) % 2:
                do("recv", "Error", {"message_type": sm.REQ[k], "request_id": r, "uri": "u"}, 1)
                continue
            f = {"request_id": r}
            for n in spec.fields_of(kind):
                if n.endswith("_id") and n != "request_id":
                    f[n] = 5_000_000 * i + r % 1000 + 1
            do("recv", kind, f, 0)
    if not late:
        answer()
    for kind, rep, idn, held in (("Unregister", "Unregistered", "registration_id", m.regs), ("Unsubscribe", "Unsubscribed", "subscription_id", m.subs)):
        for n, x in enumerate(sorted(held)):
            do("send", kind, {"request_id": 2_000_000 * i + n + 1, idn: x}, 0)
            do("recv", rep, {"request_id": 2_000_000 * i + n + 1}, 1)
    if late:
        answer()
    if any(m.out.values()) or m.inv or m.regs or m.subs:
        raise Stop
    return opened


def check_session(case, ctx):
    from wampproto.session import WAMPSession

    session, ser = WAMPSession(gen.serializer(case[0])), gen.serializer(case[0])
    try:
        judge(lambda i: session_round(session, ser, clone(case), i), [session], "a session", ctx)
    except Stop:
        ctx.label("ended by another property")


# ------------------------------------------------------------------------------------------------------ broker, dealer


def shifted(pools, i, stay):
    sids, uris, reqs = pools
    if not stay:
        sids = tuple((x + 1_000_000 * i) % 2**53 + 1 for x in sids)
    return sids, tuple(f"{u}~{i}" for u in uris), tuple((x + 1_000_000 * i) % 2**53 + 1 for x in reqs)


def fresh_uris(step, i):
    """Bulk operations use URIs of their own: make them different in every repetition."""
    f = step[-1]
    if isinstance(f, dict):
        for k in ("topic", "procedure"):
            if k in f and not f[k].endswith(f"~{i}"):
                f = {**f, k: f"{f[k]}~{i}"}
        step = (*step[:-1], vary("Publish" if step[0] == "pub" else step[2], f, i))
    return step


def broker_end(m, do, i, stay):
    for t, (sub, who) in list(m.subs.items()):
        for sid in sorted(who)[0 if stay else i % 2:]:
            do(("msg", sid, "Unsubscribe", {"request_id": 1, "subscription_id": sub}))


def dealer_end(m, do, i, stay):
    for n, (inv, c) in enumerate(list(m.calls.items())):
        if n % 3 == 0:
            do(("msg", c.callee, "Error", {"message_type": 68, "request_id": inv, "uri": "u"}))
        elif n % 3 == 1 or i % 2 or stay:
            do(("msg", c.callee, "Yield", {"request_id": inv}))
    for n, (p, (r, sid)) in enumerate(list(m.regs.items())):
        if (n + i) % 2 or stay:
            do(("msg", sid, "Unregister", {"request_id": 1, "registration_id": r}))


def router(make, model, resolve, end, what):
    def check(case, ctx):
        (ops, *pools), stay = case
        obj = make()
        m = model(Ctx(None), *pools)
        residents = None

        def do(i, step):
            step = fresh_uris(step, i)
            s, v = attempt(rm.perform, obj, step)
            try:
                m.check(obj, step, s, v)
            except Violation:
                raise Stop from None
            return v

        def run(i):
            nonlocal m, residents
            new = model(Ctx(None), *shifted(pools, i, stay))
            if stay:  # the same sessions go on
                new.joined, new.ever_left = m.joined, m.ever_left
            m = new
            opened = 0
            for op in clone(ops):
                for step in resolve(op, m):
                    if step[0] not in ("churn", "cycle"):
                        do(i, step)
                opened += len(m.joined)
            end(m, lambda step: do(i, step), i, stay)
            if residents is None:
                residents = sorted(m.joined)[:12] if stay else []
            for sid in sorted(m.joined.difference(residents)):
                do(i, ("leave", sid))
            for sid in residents:
                if sid not in m.joined:
                    do(i, ("join", sid))
            return opened

        try:
            judge(run, [obj], what + (" whose sessions stay" if stay else ""), ctx)
        except Stop:
            ctx.label("ended by another property")

    return check


def make_broker():
    from wampproto.broker import Broker

    return Broker()


def make_dealer():
    from wampproto.dealer import Dealer

    return Dealer()


# ------------------------------------------------------------------------------------------ everything that is thrown away


def oneshot():
    cred = st.fixed_dictionaries({
        "method": st.sampled_from(("default", *hs.METHODS)), "ser": st.sampled_from(gen.SERIALIZERS), "authid": hs.names(), "realm": gen.short_text(),
        "secret": st.sampled_from(("s", "t")), "good": st.booleans(), "extra": st.one_of(st.none(), st.just({}), st.just({"x": 1})), "msgs": st.lists(gen.ser_message(), max_size=3),
        "garbage": st.binary(max_size=6),
        "bad": st.lists(st.tuples(st.sampled_from(gen.SERIALIZERS), st.sampled_from(sorted(spec.BY_CODE)), st.lists(st.one_of(st.just("x"), st.just({}).map(dict), st.just(1), st.none()), max_size=5)), max_size=3),
    })
    return cred


def check_oneshot(c, ctx):
    from wampproto import auth
    from wampproto.acceptor import Acceptor
    from wampproto.joiner import Joiner
    from wampproto.serializers import payload

    long_lived = {n: gen.serializer(n) for n in gen.SERIALIZERS}

    def run(i):
        who, secret = f"{c['authid']}{i}", f"{c['secret']}{i}"
        ser = long_lived[c["ser"]]

        def decide(r):
            if not c["good"] and r.method != "wampcra":
                raise hs.Refusal("no", i)
            if r.method != "wampcra":
                return auth.Response(f"a{i}", f"b{i}")
            k = secret if c["good"] else "another"
            if c["method"] == "wampcra":
                return auth.WAMPCRAResponse(f"a{i}", "b", k)
            return auth.WAMPCRASaltedResponse(f"a{i}", "b", hs.cra_key(k, f"salt{i}", 2, 32).decode(), f"salt{i}", 2, 32)

        a = Acceptor(ser, hs.server_authenticator(decide) if c["method"] != "default" else None)
        j = Joiner(f"{c['realm']}{i}", ser, hs.client_authenticator({"method": c["method"], "authid": who, "extra": c["extra"], "ticket": secret, "secret": secret, "seed": i.to_bytes(32, "big")}))
        data = j.send_hello()
        for _ in range(3):
            s, v = attempt(a.receive, data)
            if s == "err" or v[0] is None:
                break
            s, data = attempt(j.receive, v[0])
            if s == "err" or data is None:
                break
        for name, kind, f in c["msgs"]:
            f = {k: (v + i) % 2**53 + 1 if k.endswith("_id") else f"{v}{i}" if isinstance(v, str) else v for k, v in f.items()}
            s, data = attempt(lambda: long_lived[name].serialize(spec.build(kind, clone(f))))
            if s == "ok":
                attempt(long_lived[name].deserialize, data)
            attempt(long_lived[name].deserialize, c["garbage"] + bytes([i % 256]))
        for name, code, junk in c["bad"]:
            s, data = attempt(gen.ref_dumps, name, [code, *(f"{x}{i}" if isinstance(x, str) else x for x in junk)])
            if s == "ok":
                for f in (long_lived[name].deserialize, a.receive, j.receive):
                    attempt(f, data)
        for n in (1, 2, 3):
            s, data = attempt(payload.serialize_payload, n, [i, who], {who: i})
            if s == "ok":
                attempt(payload.deserialize_payload, n, data)
        return 1

    judge(run, [*long_lived.values()], f"a {c['method']} handshake over {c['ser']} and {len(c['msgs'])} messages", ctx)


RELATIONS = [
    Relation("session", lambda: sm.history(sm.WEIGHTED + ["unserializable"], bursts=False, size=30), check_session, 700),
    Relation("broker", lambda: st.tuples(rm.broker_history(size=30), st.booleans()), router(make_broker, rm.BrokerModel, rm.broker_resolve, broker_end, "a broker"), 500),
    Relation("dealer", lambda: st.tuples(rm.dealer_history(size=30), st.booleans()), router(make_dealer, rm.DealerModel, rm.dealer_resolve, dealer_end, "a dealer"), 600),
    Relation("oneshot", oneshot, check_oneshot, 300),
]
ASSUMPTIONS = [
    "stored items are what can be reached, through containers and the library's own objects, from the object and the library's modules and classes",
    "a cache with a bound below 30 repetitions' worth of items is not a leak",
]
