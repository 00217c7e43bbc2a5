"""Reference models of broker and dealer, and the interpreter that drives the real ones along a generated history.

Concrete steps: ("join", sid), ("leave", sid), ("msg", sid, kind, fields), ("pub", sid, fields)."""
from hypothesis import strategies as st

from vf import dictionary, gen, spec
from vf.core import Relation, Violation, attempt, clone, require, same, show

SIDS = (1, 2, 3, 7, 2**31, 2**53 - 1, 2**53, 5, 1000, 4)
URIS = ("com.a", "com.a.b", "com", "", "com.A", "com.a.", "é", "wamp.x", "com.a.b.c", "com..b")
REQS = (1, 2, 3, 4, 2**31, 2**53, 9, 10)


def norm(out):
    """What broker or dealer answered, as plain data."""
    if out is None:
        return None
    if hasattr(out, "recipients"):
        ev = None if out.event is None else (spec.kind_of(out.event), spec.read(out.event))
        return ("publication", ev, list(out.recipients) if out.recipients is not None else [], norm(out.ack))
    m = out.message
    d = {**spec.read(m)}
    if spec.kind_of(m) in spec.PAYLOAD_KINDS:
        d.update(payload=m.payload, serializer=m.payload_serializer, binary=m.payload_is_binary())
    return ("to", out.recipient, spec.kind_of(m), d)


def identity(sid, x=0, *_):
    """(realm, authid, authrole) a session joins with: never what decides anything here."""
    return (("realm", f"id{sid}", "role"), ("realm", "joe", "role"), ("realm", "joe", "admin"), ("other", "joe", "role"), ("realm", None, None), ("realm", "anonymous", "anonymous"), ("", "", ""))[x % 7]


def perform(obj, step, kept=None):
    from wampproto.types import SessionDetails

    if step[0] == "join":
        out = obj.add_session(SessionDetails(step[1], *identity(*step[1:])))
    elif step[0] == "leave":
        out = obj.remove_session(step[1])
    elif step[0] == "pub":
        out = obj.receive_publish(step[1], spec.build("Publish", clone(step[2])))
    else:
        out = obj.receive_message(step[1], spec.build(step[2], clone(step[3])))
    v = norm(out)
    if kept is not None and out is not None and len(kept) < 60:
        kept.append((step, out, clone(v)))
    return v


def still(kept):
    """What was handed out to be delivered is the same whatever happened since."""
    for step, out, before in kept:
        s, now = attempt(norm, out)
        tag = {"publication": "C18", "Registered": "C22", "Unregistered": "C22", "Subscribed": "C19", "Unsubscribed": "C19"}.get(before[0] if before[0] == "publication" else before[2], "C20")
        require(s == "ok" and same(now, before), lambda: f"{step}: the answer was {show(before)}, and at the end of the history it has become {show(now)}", (tag,))


def choose(pool, i):
    return pool[i % len(pool)]


def is_id(v):
    return type(v) is int and 1 <= v <= 2**53


class Base:
    def __init__(self, ctx, sids=SIDS, uris=URIS, reqs=REQS):
        self.ctx = ctx
        self.sids, self.uris, self.reqs = sids, uris, reqs
        self.joined = set()
        self.ever_left = set()

    def probed(self, names, step):
        """The topics or procedures to look at after a step: all of them, or of very many what the step names and some others."""
        if len(names) <= 150:
            return names
        self.turn = getattr(self, "turn", 0) + 1
        if step[0] == "leave" or self.turn % 50 == 0:
            return names
        f = step[-1] if step[0] in ("msg", "pub") else {}
        own = f.get("topic", f.get("procedure"))
        return [x for x in (own,) if x in names] + self.uris_of(names)

    def uris_of(self, names):
        return [u for u in self.uris if u in names]

    def refuse(self, s, v, what, tags):
        require(s == "err", lambda: f"{what} was accepted and answered {show(v)}", tags)
        require(isinstance(v, ValueError), lambda: f"{what} raised {type(v).__name__}: {v}", tags)
        self.ctx.hit("refused")

    def accept(self, s, v, what, tags):
        require(s == "ok", lambda: f"{what} was refused with {type(v).__name__}: {v}", tags)

    def join_leave(self, step, s, v, what):
        sid = step[1]
        if step[0] == "join":
            if sid in self.joined:
                self.refuse(s, v, f"{what} (already joined)", ("C24",))
            else:
                self.accept(s, v, what, ("C24",))
                self.joined.add(sid)
                if sid in self.ever_left:
                    self.ctx.hit("rejoined with the same ID")
            return True
        if sid not in self.joined:
            self.refuse(s, v, f"{what} (not joined)", ("C24",))
            return False
        self.accept(s, v, what, ("C24", *self.leaving))
        self.joined.discard(sid)
        self.ever_left.add(sid)
        return True


class BrokerModel(Base):
    leaving = ("C18",)  # leaving ends the subscriptions

    def __init__(self, ctx, *pools):
        super().__init__(ctx, *pools)
        self.subs = {}  # topic -> (id, set of sids)
        self.ambiguous = set()
        self.sub_ids = {}  # every subscription id ever given -> topic
        self.pub_ids = set()
        self.topics = set(self.uris)

    def held(self, sid):
        return {i: t for t, (i, who) in self.subs.items() if sid in who}

    def drop(self, topic, sid):
        self.subs[topic][1].discard(sid)
        if not self.subs[topic][1]:
            del self.subs[topic]

    def check(self, obj, step, s, v):
        what = show(step, 200)
        op, sid = step[0], step[1]
        if op in ("join", "leave"):
            ok = self.join_leave(step, s, v, what)
            if op == "leave" and ok:
                for t in [t for t, (_, who) in self.subs.items() if sid in who]:
                    self.drop(t, sid)
                    self.ctx.hit("left while subscribed")
        elif op == "pub":
            self.publish(step, s, v, what)
        elif step[2] == "Subscribe":
            self.subscribe(step, s, v, what)
        elif step[2] == "Unsubscribe":
            self.unsubscribe(step, s, v, what)
        else:
            self.refuse(s, v, what, ("C24", "C18"))
        for t in self.probed(self.topics, step):
            got = obj.has_subscription(t)
            require(bool(got) == (t in self.subs), lambda: f"after {what}: has_subscription({t!r}) is {got!r} while subscribed are {self.subs.get(t)}", ("C18",))

    def subscribe(self, step, s, v, what):
        sid, f = step[1], step[3]
        topic = f["topic"]
        if sid not in self.joined:
            return self.refuse(s, v, f"{what} (not joined)", ("C24",))
        self.accept(s, v, what, ("C18", "C19"))
        require(v[0] == "to" and v[1] == sid and v[2] == "Subscribed" and v[3]["request_id"] == f["request_id"], lambda: f"{what} was answered with {show(v)}", ("C18", "C19"))
        got = v[3]["subscription_id"]
        require(is_id(got), lambda: f"{what}: subscription ID {got!r}", ("C19",))
        if topic in self.subs:
            require(got == self.subs[topic][0], lambda: f"{what}: subscription ID {got}, other subscribers have {self.subs[topic][0]}", ("C19",))
            self.ctx.hit("shared subscription")
        else:
            if got in self.sub_ids and self.ctx.prop != "C19":
                self.ambiguous.add(got)  # C19's matter; the rest can still be judged, except what this ID means
            else:
                require(got not in self.sub_ids, lambda: f"{what}: subscription ID {got} was used before for {self.sub_ids[got]!r}", ("C19",))
            self.sub_ids[got] = topic
            self.subs[topic] = (got, set())
            self.topics.add(topic)
        self.subs[topic][1].add(sid)
        self.ctx.hit("subscribed")

    def unsubscribe(self, step, s, v, what):
        sid, f = step[1], step[3]
        require(f["subscription_id"] not in self.ambiguous, lambda: f"{what}: an ID given for two topics", ("C19",))
        topic = self.held(sid).get(f["subscription_id"])
        if sid not in self.joined:
            return self.refuse(s, v, f"{what} (not joined)", ("C24", "C19"))
        if topic is None:
            return self.refuse(s, v, f"{what} (not held by the sender, who holds {sorted(self.held(sid))})", ("C19",))
        self.accept(s, v, what, ("C19",))
        require(v[0] == "to" and v[1] == sid and v[2] == "Unsubscribed" and v[3]["request_id"] == f["request_id"], lambda: f"{what} was answered with {show(v)}", ("C18", "C19"))
        self.drop(topic, sid)
        self.ctx.hit("unsubscribed")

    def publish(self, step, s, v, what):
        sid, f = step[1], step[2]
        topic = f["topic"]
        if sid not in self.joined:
            return self.refuse(s, v, f"{what} (not joined)", ("C24",))
        self.accept(s, v, what, ("C18",))
        _, ev, rcpt, ack = v
        want_id, who = self.subs.get(topic, (None, set()))
        gone = [r for r in rcpt if r not in self.joined]
        require(not gone, lambda: f"{what}: addressed to {gone}, who left", ("C18", "C24"))
        require(sorted(rcpt) == sorted(who), lambda: f"{what}: addressed to {sorted(rcpt)}, subscribed are {sorted(who)}", ("C18",))
        pid = None
        if not who:
            require(ev is None, lambda: f"{what}: an event without subscribers: {show(ev)}", ("C18",))
        else:
            require(ev is not None and ev[0] == "Event", lambda: f"{what}: no event for {sorted(who)}", ("C18",))
            require(ev[1]["subscription_id"] == want_id, lambda: f"{what}: event carries subscription ID {ev[1]['subscription_id']}, subscribers have {want_id}", ("C18", "C19"))
            require(same(ev[1]["args"], f.get("args")) and same(ev[1]["kwargs"], f.get("kwargs")), lambda: f"{what}: event carries args={show(ev[1]['args'])} kwargs={show(ev[1]['kwargs'])}, published {show(f.get('args'))} {show(f.get('kwargs'))}", ("C18",))
            pid = ev[1]["publication_id"]
            require(is_id(pid), lambda: f"{what}: event has publication ID {pid!r}", ("C18", "C19"))
            self.ctx.hit("event delivered")
            if len(who) > 1:
                self.ctx.hit("several subscribers")
        asked = (f.get("options") or {}).get("acknowledge") is True
        require((ack is not None) == asked, lambda: f"{what}: acknowledgement {'missing' if asked else 'not asked for: ' + show(ack)}", ("C18",))
        if asked:
            require(ack[1] == sid and ack[2] == "Published" and ack[3]["request_id"] == f["request_id"], lambda: f"{what}: acknowledged with {show(ack)}", ("C18",))
            require(pid is None or pid == ack[3]["publication_id"], lambda: f"{what}: event has publication ID {pid}, acknowledgement {ack[3]['publication_id']}", ("C18", "C19"))
            pid = ack[3]["publication_id"]
            self.ctx.hit("acknowledged")
        if pid is not None:
            require(is_id(pid), lambda: f"{what}: publication ID {pid!r}", ("C19",))
            require(pid not in self.pub_ids, lambda: f"{what}: publication ID {pid} was used before", ("C19",))
            self.pub_ids.add(pid)


def broker_resolve(op, m):
    if op[0] == "steps":  # concrete ones
        return op[1]
    name, a, b, c, data = op
    args, kwargs, opts, flag = data
    uris, reqs = m.uris, m.reqs
    sid = choose(m.sids, a)
    req = choose(reqs, c)
    if name == "join":
        return [("join", sid, b)]
    if name == "leave":
        return [("leave", choose(sorted(m.joined), a) if m.joined and flag else sid)]
    inside = choose(sorted(m.joined), a) if m.joined else sid
    if name == "sub":
        return [("msg", inside if flag else sid, "Subscribe", {"request_id": req, "topic": choose(uris, b), "options": clone(opts)})]
    if name == "unsub":
        mine = sorted(m.held(inside))
        i = choose(mine, b) if mine else choose(sorted(m.sub_ids) or [1], b)
        return [("msg", inside, "Unsubscribe", {"request_id": req, "subscription_id": i})]
    if name == "unsub-any":
        pool = sorted(m.sub_ids) + sorted(m.pub_ids)[-3:] + [1, 2, 3, 2**53]
        return [("msg", inside if flag else sid, "Unsubscribe", {"request_id": req, "subscription_id": choose(pool, b + c)})]
    if name == "pub":
        live = sorted(m.subs)
        topic = choose(live, b) if live and flag else choose(uris, b)
        o = {k: v for k, v in (opts or {}).items() if k != "acknowledge"}
        if c % 3:
            o["acknowledge"] = c % 3 == 1
        return [("pub", inside if c % 5 else sid, {"request_id": req, "topic": topic, "args": clone(args), "kwargs": clone(kwargs), "options": o if o or opts is not None else None})]
    if name == "wrong":
        kind = choose(("Call", "Register", "Yield", "Goodbye", "Unregister", "Published", "Event", "Hello", "Error", "Abort", "Publish", "Result", "Cancel"), b)
        f = {}
        for n, t in spec.TABLE[kind][1]:
            f[n] = {"id": 1, "int": 68, "str": choose(uris, c), "dict": {}}.get(t)
            if t in ("hello", "welcome"):
                f = {"realm": "r", "roles": {"caller": {}}}
        return [("msg", inside, kind, f)]
    n = b
    base = 10_000 + 10_000 * (a % 3)
    topic = choose(uris, c)
    if name == "crowd":  # many sessions subscribe to one topic
        out = []
        for i in range(n):
            out += [("join", base + i), ("msg", base + i, "Subscribe", {"request_id": 1, "topic": topic})]
        return out
    if name == "mesh":  # sessions x topics, in some order
        k = 1 + n % 6
        out = [("msg", x, "Subscribe", {"request_id": 1, "topic": f"m.{t}"}) for x in sorted(m.joined)[: 1 + a] for t in range(k)]
        return out if flag else sorted(out, key=lambda o: (o[3]["topic"], -o[1]))
    if name == "crowd-leaves":
        who = sorted(x for x in m.joined if x >= 10_000)[: n + 1]
        return [("leave", x) for x in (who if flag else who[::-1])]
    if name == "topics":  # one session subscribes to many topics
        return [("join", base + 5000)] + [("msg", base + 5000, "Subscribe", {"request_id": i + 1, "topic": f"t.{i}"}) for i in range(n)]
    if name == "churn":
        out = []
        for i in range(n):
            out.append(("churn", inside, topic))
        return out
    if name == "pub-each":
        return [("pub", inside, {"request_id": i + 1, "topic": t, "args": [i]}) for i, t in enumerate(sorted(m.subs))]
    if name == "sub-each":
        return [("msg", inside, "Subscribe", {"request_id": i + 1, "topic": t}) for i, t in enumerate(sorted(m.topics))]
    if name == "unsub-each":
        ids = sorted((i, x) for i, who in m.subs.values() for x in who)[:n]
        return [("msg", x, "Unsubscribe", {"request_id": k + 1, "subscription_id": i}) for k, (i, x) in enumerate(ids if flag else ids[::-1])]
    if name == "visits":
        return [x for i in range(n) for x in (("join", base + i), ("msg", base + i, "Subscribe", {"request_id": 1, "topic": topic}), ("leave", base + i))]
    if name == "pubs":
        return [("pub", inside, {"request_id": i + 1, "topic": topic, "options": {"acknowledge": True}}) for i in range(n)]
    raise AssertionError(name)


def run_broker(case, ctx, steps=None):
    from wampproto.broker import Broker

    ops, *pools = case
    obj = Broker()
    m = BrokerModel(ctx, *pools)
    steps = [] if steps is None else steps

    kept = []

    def do(step):
        s, v = attempt(perform, obj, step, kept)
        steps.append((step, s, v))
        m.check(obj, step, s, v)

    for op in ops:
        for step in broker_resolve(op, m):
            if step[0] == "churn":
                _, sid, topic = step
                do(("msg", sid, "Subscribe", {"request_id": 1, "topic": topic}))
                if topic in m.subs:
                    do(("msg", sid, "Unsubscribe", {"request_id": 2, "subscription_id": m.subs[topic][0]}))
                continue
            do(step)
    # finally: what is subscribed is what the model says
    if m.joined:
        sid = min(m.joined)
        for t in sorted(m.topics)[:40]:
            do(("pub", sid, {"request_id": 1, "topic": t, "options": {"acknowledge": True}}))
    still(kept)
    return obj, m, steps


BROKER_OPS = ["join"] * 4 + ["leave"] * 2 + ["sub"] * 6 + ["unsub"] * 3 + ["unsub-any"] * 2 + ["pub"] * 6 + ["wrong"]


def data():
    s = "cbor"
    return st.one_of(
        st.tuples(st.none(), st.none(), gen.wamp_options(), st.booleans()),
        st.just((None, None, None, True)), st.just((None, None, None, False)), st.just(([], {}, {}, True)),
        st.tuples(
            st.one_of(st.none(), st.lists(gen.value(s), max_size=2)), st.one_of(st.none(), st.dictionaries(gen.short_text(), gen.scalar(s), max_size=2)),
            st.one_of(st.none(), gen.wamp_options(), st.dictionaries(st.sampled_from(gen.SPECIAL_KEYS), gen.scalar(s), max_size=2), st.dictionaries(gen.short_text(), st.booleans(), max_size=2)), st.booleans(),
        ),
    )


def pools():
    """Sessions, URIs and request IDs of one case: the usual mixture, or a few."""
    uris = st.one_of(
        st.just(URIS), st.just(URIS), gen.few(URIS),
        st.tuples(st.sampled_from(URIS), st.lists(st.sampled_from(("", ".", " ", "a", "/", "A", "*", "\x00")), min_size=2, max_size=4, unique=True)).map(lambda t: tuple(t[0] + x for x in t[1])),
        st.lists(gen.text(), min_size=1, max_size=4, unique=True).map(tuple),
    )
    usual = st.tuples(st.one_of(st.just(SIDS), gen.few(SIDS, 2), gen.id_pool(SIDS)), uris, st.one_of(st.just(REQS), gen.few(REQS), gen.id_pool(REQS)))
    return st.one_of(*[usual] * 6, st.tuples(alike(), st.one_of(st.just(URIS), gen.few(URIS))).map(lambda t: (t[0][0], t[1], t[0][1])))


def alike():
    """(sessions, requests) of which several pairs come to the same when written one after the other, or packed into one number."""
    digits = gen.few((1, 11, 2, 12, 21, 111, 121, 112), 3).map(lambda p: (p, p))
    wide = (1, 2, 3)
    packed = st.tuples(st.sampled_from((1 << 8, 1 << 16, 1 << 16, 1 << 20, 1 << 32, 100, 1000, 10**6)), st.integers(1, 9), st.booleans()).map(lambda t: (wide, tuple(t[1] + k * t[0] for k in range(3)))[:: -1 if t[2] else 1])
    return st.one_of(digits, packed)


def with_pools(ops):
    return st.tuples(ops, pools()).map(lambda t: (t[0], *t[1]))


def broker_history(size=40, ops=None):
    start = st.sampled_from([[], [], [("join", i, 0, 0, (None, None, None, True)) for i in range(4)], [("join", i, i, 0, (None, None, None, True)) for i in range(8)], [("join", i, 1, 0, (None, None, None, True)) for i in range(4)]])
    op = lambda w: st.tuples(st.sampled_from(w), st.integers(0, 9), st.integers(0, 9), st.integers(0, 8), data())  # noqa: E731
    small = gen.swarm(ops or BROKER_OPS).flatmap(lambda w: gen.ops_list(op(w), size))
    ops = st.tuples(start, small).map(lambda t: [*t[0], *t[1]])
    bulk = st.one_of(
        st.tuples(st.sampled_from(["crowd", "crowd-leaves", "topics", "churn", "pubs", "crowd"]), st.integers(0, 9), gen.sizes(300), st.integers(0, 8), data()),
        op(["mesh", "mesh", "crowd", "leave", "leave", "sub"]),
    )
    plain = op(BROKER_OPS)
    mixed = st.tuples(ops, st.lists(st.one_of(bulk, plain), min_size=1, max_size=4), ops).map(lambda t: [*t[0][:14], *t[1], *t[2][:20]])
    return with_pools(st.one_of(*[ops] * 6, mixed, mixed))


# ------------------------------------------------------------------------------------------------------------- dealer


class Call:
    __slots__ = ("inv", "caller", "req", "callee", "reg", "proc", "wants", "open_chunks", "answered")

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        self.answered = False


class DealerModel(Base):
    leaving = ("C22",)  # leaving frees the procedures

    def __init__(self, ctx, *pools):
        super().__init__(ctx, *pools)
        self.regs = {}  # procedure -> (registration id, sid)
        self.reg_ids = {}  # every registration id ever given -> procedure
        self.calls = {}  # open calls by invocation id
        self.inv_ids = set()
        self.dead = []  # (invocation id, callee) of closed calls
        self.orphans = {}  # open invocations whose caller left: callee's answer may be refused or dropped
        self.procs = set(self.uris)

    def held(self, sid):
        return {i: p for p, (i, who) in self.regs.items() if who == sid}

    def outstanding(self, sid, req):
        return [c for c in self.calls.values() if c.caller == sid and c.req == req]

    def check(self, obj, step, s, v):
        what = show(step, 300)
        op, sid = step[0], step[1]
        if op in ("join", "leave"):
            ok = self.join_leave(step, s, v, what)
            if op == "leave" and ok:
                for p in list(self.held(sid).values()):
                    del self.regs[p]
                    self.ctx.hit("left while registered")
                for i, c in list(self.calls.items()):
                    if c.callee == sid:
                        del self.calls[i]
                        self.dead.append((i, sid))
                        self.ctx.hit("callee left with a call open")
                    elif c.caller == sid:
                        del self.calls[i]
                        self.orphans[i] = c.callee
                        self.ctx.hit("caller left with a call open")
                for i, callee in list(self.orphans.items()):
                    if callee == sid:
                        del self.orphans[i]
                        self.dead.append((i, sid))
        else:
            fn = {"Register": self.register, "Unregister": self.unregister, "Call": self.call, "Yield": self.answer, "Error": self.answer}.get(step[2])
            if fn is None:
                self.refuse(s, v, what, ("C24", "C21", "C22"))
            else:
                fn(step, s, v, what)
        for p in self.probed(self.procs, step):
            got = obj.has_registration(p)
            require(bool(got) == (p in self.regs), lambda: f"after {what}: has_registration({p!r}) is {got!r} while the holder is {self.regs.get(p)}", ("C22",))

    def register(self, step, s, v, what):
        sid, f = step[1], step[3]
        proc = f["procedure"]
        if sid not in self.joined:
            return self.refuse(s, v, f"{what} (not joined)", ("C24",))
        self.accept(s, v, what, ("C22",))
        require(v[0] == "to" and v[1] == sid, lambda: f"{what} was answered with {show(v)}", ("C22",))
        if proc in self.regs:
            require(
                v[2] == "Error" and v[3]["message_type"] == 64 and v[3]["request_id"] == f["request_id"] and v[3]["uri"] == "wamp.error.procedure_already_exists",
                lambda: f"{what}, held by {self.regs[proc][1]}, was answered with {show(v)}", ("C22",),
            )
            self.ctx.hit("already registered")
            return
        require(v[2] == "Registered" and v[3]["request_id"] == f["request_id"], lambda: f"{what} was answered with {show(v)}", ("C22",))
        got = v[3]["registration_id"]
        require(is_id(got), lambda: f"{what}: registration ID {got!r}", ("C22",))
        require(got not in self.reg_ids, lambda: f"{what}: registration ID {got} was used before for {self.reg_ids[got]!r}", ("C22",))
        self.reg_ids[got] = proc
        self.regs[proc] = (got, sid)
        self.procs.add(proc)
        self.ctx.hit("registered")

    def unregister(self, step, s, v, what):
        sid, f = step[1], step[3]
        if sid not in self.joined:
            return self.refuse(s, v, f"{what} (not joined)", ("C24", "C22"))
        proc = self.held(sid).get(f["registration_id"])
        if proc is None:
            return self.refuse(s, v, f"{what} (not held by the sender, who holds {sorted(self.held(sid))})", ("C22",))
        self.accept(s, v, what, ("C22",))
        require(v[0] == "to" and v[1] == sid and v[2] == "Unregistered" and v[3]["request_id"] == f["request_id"], lambda: f"{what} was answered with {show(v)}", ("C22",))
        del self.regs[proc]
        self.ctx.hit("unregistered")

    def call(self, step, s, v, what):
        sid, f = step[1], step[3]
        opts = f.get("options") or {}
        prog, wants = opts.get("progress") is True, opts.get("receive_progress") is True
        if sid not in self.joined:
            return self.refuse(s, v, f"{what} (not joined)", ("C24",))
        cont = [c for c in self.outstanding(sid, f["request_id"]) if c.open_chunks]
        self.accept(s, v, what, ("C20", "C23") if cont or prog or wants else ("C20",))
        if cont:
            c = cont[0]
            tags = ("C23",)
            require(v[0] == "to" and v[2] == "Invocation", lambda: f"{what} continues invocation {c.inv} but was answered with {show(v)}", tags)
            require(v[1] == c.callee, lambda: f"{what} continues invocation {c.inv} of {c.callee} but was sent to {v[1]}", tags)
            require(v[3]["request_id"] == c.inv, lambda: f"{what} continues invocation {c.inv} but was forwarded as {v[3]['request_id']}", tags)
            self.forwarded(c, f, v, prog, None, what, ("C23", "C20"))
            c.open_chunks = prog
            self.ctx.hit("call continued" if prog else "call continued by its final part")
            return
        reg = self.regs.get(f["procedure"])
        if reg is None:
            require(
                v[0] == "to" and v[1] == sid and v[2] == "Error" and v[3]["message_type"] == 48 and v[3]["request_id"] == f["request_id"] and v[3]["uri"] == "wamp.error.no_such_procedure",
                lambda: f"{what}, not registered, was answered with {show(v)}", ("C20", "C22", "C24"),
            )
            self.ctx.hit("no such procedure")
            return
        require(v[0] == "to" and v[2] == "Invocation", lambda: f"{what}, registered by {reg[1]}, was answered with {show(v)}", ("C20", "C22"))
        require(v[1] in self.joined, lambda: f"{what} was sent to {v[1]}, who left", ("C24", "C20"))
        require(v[1] == reg[1], lambda: f"{what}, registered by {reg[1]}, was sent to {v[1]}", ("C20", "C22"))
        inv = v[3]["request_id"]
        require(is_id(inv), lambda: f"{what}: invocation ID {inv!r}", ("C20",))
        require(inv not in self.inv_ids, lambda: f"{what}: invocation ID {inv} was used before", ("C20", "C23"))
        self.inv_ids.add(inv)
        c = Call(inv=inv, caller=sid, req=f["request_id"], callee=reg[1], reg=reg[0], proc=f["procedure"], wants=wants, open_chunks=prog)
        self.forwarded(c, f, v, prog, wants, what, ("C20",))
        self.calls[inv] = c
        self.ctx.hit("call")
        if prog:
            self.ctx.hit("progressive call")
        if len(self.outstanding(sid, f["request_id"])) > 1:
            self.ctx.hit("request ID reused")

    def forwarded(self, c, f, v, prog, wants, what, tags):
        g = v[3]
        require(g["registration_id"] == c.reg, lambda: f"{what}: INVOCATION carries registration ID {g['registration_id']}, expected {c.reg}", tags)
        require(same(g["args"], f.get("args")) and same(g["kwargs"], f.get("kwargs")), lambda: f"{what}: INVOCATION carries args={show(g['args'])} kwargs={show(g['kwargs'])}", tags)
        require(
            same(g["payload"], f.get("payload")) and same(g["serializer"], f.get("serializer")) and bool(g["binary"]) == bool(f.get("binary")),
            lambda: f"{what}: INVOCATION carries payload={show(g['payload'])} serializer={g['serializer']!r} binary={g['binary']!r}", ("C20",),
        )
        d = g["details"]
        require((d.get("progress", False) is True) == prog and d.get("progress", False) in (True, False), lambda: f"{what}: INVOCATION details {show(d)}", ("C23",))
        if wants is not None:
            require((d.get("receive_progress", False) is True) == wants and d.get("receive_progress", False) in (True, False), lambda: f"{what}: INVOCATION details {show(d)}", ("C23",))

    def answer(self, step, s, v, what):
        sid, kind, f = step[1], step[2], step[3]
        if kind == "Error" and f["message_type"] != 68:
            return self.refuse(s, v, f"{what} (not about an invocation)", ("C21",))
        if sid not in self.joined:
            return self.refuse(s, v, f"{what} (not joined)", ("C24", "C21"))
        inv = f["request_id"]
        if inv in self.orphans and self.orphans[inv] == sid:
            # the caller is gone: nothing may be sent to it
            require(s == "err" or v is None or v[1] in self.joined and False, lambda: f"{what}: answered {show(v)} although the caller left", ("C24",))
            if s == "err":
                require(isinstance(v, ValueError), lambda: f"{what} raised {type(v).__name__}: {v}", ("C24",))
            self.ctx.hit("answer for a departed caller")
            return
        c = self.calls.get(inv)
        if c is None:
            left = [x for i, x in self.dead if i == inv and x in self.ever_left]
            return self.refuse(s, v, f"{what} (no such open invocation)", ("C21", "C24") if left or inv in self.orphans else ("C21",))
        if c.callee != sid:
            return self.refuse(s, v, f"{what} (the invocation was sent to {c.callee})", ("C21",))
        tags = ("C20", "C21", "C23") if (f.get("options") or {}).get("progress") is True or c.wants or c.open_chunks else ("C20", "C21")
        self.accept(s, v, what, tags)
        tags = tuple(t for t in tags if t != "C21")
        require(v is not None and v[0] == "to" and v[1] == c.caller, lambda: f"{what}: the answer to call {c.req} of {c.caller} went {show(v)}", tags)
        g = v[3]
        require(g["request_id"] == c.req, lambda: f"{what}: the answer carries request ID {g['request_id']}, the call had {c.req}", tags)
        require(same(g["args"], f.get("args")) and same(g["kwargs"], f.get("kwargs")), lambda: f"{what}: the answer carries args={show(g['args'])} kwargs={show(g['kwargs'])}", tags)
        final = True
        if kind == "Error":
            require(v[2] == "Error" and g["message_type"] == 48, lambda: f"{what} became {show(v)}", tags)
            require(g["uri"] == f["uri"] and same(g["details"], f.get("details") or {}), lambda: f"{what} became {show(v)}", tags)
            self.ctx.hit("answered by ERROR")
        else:
            require(v[2] == "Result", lambda: f"{what} became {show(v)}", tags)
            require(
                same(g["payload"], f.get("payload")) and same(g["serializer"], f.get("serializer")) and bool(g["binary"]) == bool(f.get("binary")),
                lambda: f"{what}: RESULT carries payload={show(g['payload'])} serializer={g['serializer']!r} binary={g['binary']!r}", tags,
            )
            final = not ((f.get("options") or {}).get("progress") is True and c.wants)
            p = g["details"].get("progress", False)
            require(p in (True, False) and (p is True) == (not final), lambda: f"{what}: RESULT details {show(g['details'])}; caller {'asked' if c.wants else 'did not ask'} for progress", ("C23",))
            self.ctx.hit("answered" if final else "progressive result")
        if final:
            del self.calls[inv]
            self.dead.append((inv, sid))


def dealer_resolve(op, m):
    if op[0] == "steps":  # concrete ones
        return op[1]
    name, a, b, c, data = op
    args, kwargs, opts, flag = data
    uris, reqs = m.uris, m.reqs
    sid = choose(m.sids, a)
    inside = choose(sorted(m.joined), a) if m.joined else sid
    req = choose(reqs, c)
    if name == "join":
        return [("join", sid, b)]
    if name == "leave":
        return [("leave", inside if flag else sid)]
    if name == "leave-busy":  # someone with a call open
        busy = sorted({x for k in m.calls.values() for x in (k.caller, k.callee)})
        return [("leave", choose(busy, a))] if busy else []
    if name == "reg":
        return [("msg", inside if flag else sid, "Register", {"request_id": req, "procedure": choose(uris, b), "options": clone(opts)})]
    if name == "unreg":
        mine = sorted(m.held(inside))
        holders = sorted({w for _, w in m.regs.values()})
        if not mine and holders:
            inside = choose(holders, a)
            mine = sorted(m.held(inside))
        i = choose(mine, b) if mine else choose(sorted(m.reg_ids) or [1], b)
        return [("msg", inside, "Unregister", {"request_id": req, "registration_id": i})]
    if name == "unreg-any":
        pool = sorted(m.reg_ids) + [1, 2, 3, 2**53]
        return [("msg", inside if flag else sid, "Unregister", {"request_id": req, "registration_id": choose(pool, b + c)})]
    if name in ("call", "pcall"):
        live = sorted(m.regs)
        proc = choose(live, b) if live and (flag or c % 3) else choose(uris, b)
        caller = inside if (a + b + c) % 11 else sid
        o = {k: v for k, v in (opts or {}).items() if k not in ("progress", "receive_progress", spec.XPS)}
        prog = name == "pcall" and b % 4 != 3
        outs = m.outstanding(caller, req)
        cont = [x for x in outs if x.open_chunks]
        if cont:
            proc = cont[0].proc
            if cont[0].wants and c % 2 == 0:
                o["receive_progress"] = True
            elif cont[0].wants is False and c % 2 == 0 and flag:
                o["receive_progress"] = False
        else:
            if prog and outs:
                req = next(x for x in [*reqs, *range(100, 1000)] if not m.outstanding(caller, x))
            if b % 2:
                o["receive_progress"] = True
            elif c % 4 == 0:
                o["receive_progress"] = False
        if prog:
            o["progress"] = True
        elif b % 5 == 0:
            o["progress"] = False
        f = {"request_id": req, "procedure": proc, "args": clone(args), "kwargs": clone(kwargs), "options": o if o or opts is not None else None}
        if c % 4 == 3:
            f.update(payload=choose((b"", b"\x00\x01", b"abc"), a), serializer=choose((0, 1, 2, 3, None), b), binary=choose((True, False), a))
        return [("msg", caller, "Call", f)]
    if name == "chunk":  # continue some progressive call
        open_ = sorted((k.inv, k) for k in m.calls.values() if k.open_chunks) if m.calls else []
        if not open_:
            return []
        k = open_[a % len(open_)][1]
        o = {"progress": True} if b % 3 else ({} if c % 2 else {"progress": False})
        if k.wants and c % 3 != 0:
            o["receive_progress"] = True
        return [("msg", k.caller, "Call", {"request_id": k.req, "procedure": k.proc, "args": clone(args), "kwargs": clone(kwargs), "options": o})]
    if name in ("yield", "fail", "yield-any", "fail-any"):
        if name.endswith("any"):
            pool = sorted(m.calls) + [i for i, _ in m.dead[-5:]] + sorted(m.orphans) + [1, 2, 2**53]
            inv = choose(pool, b + c)
            k = m.calls.get(inv)
            was = next((x for i, x in m.dead if i == inv), None) or m.orphans.get(inv)
            who = choose([x for x in (inside, sid, k.callee if k else was, k.caller if k else inside) if x], a + c)
        else:
            if not m.calls and not m.orphans:
                return []
            inv = choose(sorted(m.calls) + sorted(m.orphans), b)
            who = m.calls[inv].callee if inv in m.calls else m.orphans[inv]
        o = {k: v for k, v in (opts or {}).items() if k not in ("progress", spec.XPS)}
        if name.startswith("yield"):
            if c % 3:
                o["progress"] = c % 3 == 1
            f = {"request_id": inv, "args": clone(args), "kwargs": clone(kwargs), "options": o if o or opts is not None else None}
            if c % 4 == 3:
                f.update(payload=choose((b"", b"\x00\x01", b"abc"), a), serializer=choose((0, 1, 2, 3, None), b), binary=choose((True, False), a))
            return [("msg", who, "Yield", f)]
        mt = 68 if name == "fail" else choose((68, 68, *spec.BY_CODE), a + b + c)
        return [("msg", who, "Error", {"message_type": mt, "request_id": inv, "uri": choose(("wamp.error.x", "com.e", ""), c), "args": clone(args), "kwargs": clone(kwargs), "details": clone(opts)})]
    if name == "wrong":
        kind = choose(("Publish", "Subscribe", "Result", "Goodbye", "Unsubscribe", "Registered", "Invocation", "Hello", "Abort", "Event", "Cancel", "Interrupt"), b)
        f = {}
        for n, t in spec.TABLE[kind][1]:
            f[n] = {"id": 1, "int": 68, "str": choose(uris, c), "dict": {}}.get(t)
            if t in ("hello", "welcome"):
                f = {"realm": "r", "roles": {"caller": {}}}
        return [("msg", inside, kind, f)]
    n = b
    if name == "calls":  # many calls open at once
        live = sorted(m.regs)
        if not live:
            return []
        return [("msg", inside, "Call", {"request_id": 50_000 + i, "procedure": choose(live, c), "args": [i], "options": {"receive_progress": True} if flag else None}) for i in range(n)]
    if name == "answers":
        ids = sorted(m.calls)[:n] if flag else sorted(m.calls)[::-1][:n]
        return [("msg", m.calls[i].callee, "Yield", {"request_id": i, "args": [i]}) for i in ids]
    if name == "regs":
        return [("msg", inside, "Register", {"request_id": i + 1, "procedure": f"p.{i}"}) for i in range(n)]
    if name == "chunks":
        open_ = sorted(k.inv for k in m.calls.values() if k.open_chunks)
        if not open_:
            return []
        k = m.calls[choose(open_, a)]
        return [("msg", k.caller, "Call", {"request_id": k.req, "procedure": k.proc, "args": [i], "options": {"progress": True, **({"receive_progress": True} if k.wants else {})}}) for i in range(n)]
    if name == "progress":
        open_ = sorted(k.inv for k in m.calls.values() if k.wants)
        if not open_:
            return []
        k = m.calls[choose(open_, a)]
        return [("msg", k.callee, "Yield", {"request_id": k.inv, "args": [i], "options": {"progress": True}}) for i in range(n)]
    if name == "cycle":  # call and answer, many times
        live = sorted(m.regs)
        return [("cycle", inside, choose(live, c), i) for i in range(n)] if live else []
    if name == "call-each":
        return [("msg", inside, "Call", {"request_id": 80_000 + i, "procedure": p, "args": [i]}) for i, p in enumerate(sorted(m.regs))]
    if name == "unreg-each":
        ids = sorted((i, x) for i, x in m.regs.values())[:n]
        return [("msg", x, "Unregister", {"request_id": k + 1, "registration_id": i}) for k, (i, x) in enumerate(ids if flag else ids[::-1])]
    if name == "visits":
        return [x for i in range(n) for x in (("join", 10_000 + i), ("msg", 10_000 + i, "Register", {"request_id": 1, "procedure": "visited"}), ("leave", 10_000 + i))]
    if name == "mesh":  # sessions x procedures
        k = 1 + n % 6
        return [("msg", x, "Register", {"request_id": 1, "procedure": f"m.{x}.{t}"}) for x in sorted(m.joined)[: 1 + a] for t in range(k)]
    if name == "mesh-calls":  # everyone calls everything
        return [("msg", x, "Call", {"request_id": 60_000 + i, "procedure": p, "options": {"receive_progress": True} if (i + c) % 2 else None}) for x in sorted(m.joined)[: 1 + a % 4] for i, p in enumerate(sorted(m.regs)[: 1 + n % 9])]
    if name == "crowd":
        return [x for i in range(n) for x in (("join", 10_000 + i), ("msg", 10_000 + i, "Register", {"request_id": 1, "procedure": f"q.{i}"}))]
    if name == "crowd-leaves":
        who = sorted(x for x in m.joined if x >= 10_000)[: n + 1]
        return [("leave", x) for x in (who if flag else who[::-1])]
    raise AssertionError(name)


def run_dealer(case, ctx, steps=None):
    from wampproto.dealer import Dealer

    ops, *pools = case
    obj = Dealer()
    m = DealerModel(ctx, *pools)
    steps = [] if steps is None else steps

    kept = []

    def do(step):
        s, v = attempt(perform, obj, step, kept)
        steps.append((step, s, v))
        m.check(obj, step, s, v)
        return s, v

    for op in ops:
        for step in dealer_resolve(op, m):
            if step[0] == "cycle":
                _, sid, proc, i = step
                s, v = do(("msg", sid, "Call", {"request_id": 70_000 + i, "procedure": proc, "args": [i]}))
                do(("msg", v[1], "Yield", {"request_id": v[3]["request_id"], "args": [i]}))
                continue
            do(step)
    # finally: every open call can still be answered by its callee, once
    for i in sorted(m.calls)[:60]:
        callee = m.calls[i].callee
        do(("msg", callee, "Yield", {"request_id": i, "args": ["last"]}))
        do(("msg", callee, "Yield", {"request_id": i, "args": ["again"]}))
    if m.joined:
        sid = min(m.joined)
        for p in sorted(m.procs)[:40]:
            do(("msg", sid, "Call", {"request_id": 90_000, "procedure": p}))
    still(kept)
    return obj, m, steps


QUIET = (None, None, None, True)
BACK = (None, None, None, False)


def scale_sizes(tier, most=4100):
    """Sizes just past the powers of two, and just past whatever larger number stands in the code under test: a limit?"""
    sizes = (130, 258, 514, 1026, 2050) if tier == "quick" else (66, 130, 258, 514, 1026, 2050, most)
    return (*sizes, *[i + 1 for i in dictionary.ints(sizes[-1], 20_001)][-1:])


def scaled(scenarios, tier):
    """Each scenario at each size; a scenario is a list of (operation, a, b, c, data), b = ... standing for the size, and a number for a share of it."""
    for n in scale_sizes(tier):
        for i, ops in enumerate(scenarios):
            yield (i, n, [(o[0], o[1], n if o[2] is ... else int(n * o[2]) if type(o[2]) is float else o[2], o[3], o[4]) for o in ops], SIDS, URIS, REQS)


JOINS = [("join", i, 0, 0, QUIET) for i in range(4)]
BROKER_SCALE = [
    [*JOINS, ("crowd", 0, ..., 0, QUIET), ("pub", 0, 0, 1, QUIET), ("crowd-leaves", 0, 0.4, 0, QUIET), ("pub", 0, 0, 1, QUIET), ("sub", 1, 0, 0, QUIET), ("crowd-leaves", 0, ..., 0, BACK), ("pub", 0, 0, 1, QUIET), ("crowd", 1, 3, 0, QUIET), ("pub", 0, 0, 1, QUIET)],
    [*JOINS, ("crowd", 0, ..., 0, QUIET), ("unsub-each", 0, 0.6, 0, BACK), ("pub", 0, 0, 1, QUIET), ("unsub-each", 0, ..., 0, QUIET), ("pub", 0, 0, 1, QUIET), ("sub", 0, 0, 0, QUIET), ("pub", 1, 0, 1, QUIET)],
    [*JOINS, ("topics", 0, ..., 0, QUIET), ("pub-each", 0, 0, 0, QUIET), ("sub-each", 1, 0, 0, QUIET), ("pub-each", 0, 0, 0, QUIET), ("unsub-each", 0, 0.5, 0, QUIET), ("pub-each", 2, 0, 0, QUIET), ("leave", 9, 0, 0, QUIET), ("pub-each", 0, 0, 0, QUIET), ("sub-each", 0, 0, 0, QUIET)],
    [*JOINS, ("sub", 0, 0, 0, QUIET), ("churn", 1, ..., 1, QUIET), ("pubs", 0, ..., 0, QUIET), ("sub", 1, 1, 1, QUIET), ("pub", 0, 1, 1, QUIET)],
    [*JOINS, ("visits", 0, ..., 0, QUIET), ("pub", 0, 0, 1, QUIET), ("sub", 0, 0, 0, QUIET), ("visits", 1, ..., 0, QUIET), ("pub", 0, 0, 1, QUIET)],
]
DEALER_SCALE = [
    [*JOINS, ("regs", 0, ..., 0, QUIET), ("call-each", 1, 0, 0, QUIET), ("answers", 0, 0.5, 0, BACK), ("unreg-each", 0, 0.5, 0, QUIET), ("call-each", 2, 0, 0, QUIET), ("answers", 0, 5000, 0, QUIET), ("regs", 1, ..., 0, QUIET), ("call-each", 0, 0, 0, QUIET), ("leave", 1, 0, 0, QUIET), ("regs", 0, ..., 0, QUIET)],
    [*JOINS, ("reg", 0, 0, 0, QUIET), ("calls", 1, ..., 0, QUIET), ("answers", 0, 0.3, 0, BACK), ("answers", 0, 0.3, 0, QUIET), ("calls", 2, ..., 0, BACK), ("leave", 1, 0, 0, QUIET), ("answers", 0, 5000, 0, QUIET), ("call", 0, 0, 0, QUIET), ("yield", 0, 0, 0, QUIET)],
    [*JOINS, ("reg", 0, 0, 0, QUIET), ("calls", 1, ..., 0, QUIET), ("leave", 0, 0, 0, QUIET), ("join", 5, 0, 0, QUIET), ("reg", 1, 0, 0, QUIET), ("call", 0, 0, 0, QUIET), ("yield", 0, 0, 0, QUIET)],
    [*JOINS, ("reg", 0, 0, 0, QUIET), ("pcall", 1, 1, 1, QUIET), ("chunks", 0, ..., 0, QUIET), ("progress", 0, ..., 0, QUIET), ("chunks", 0, 3, 0, QUIET), ("progress", 0, ..., 0, QUIET), ("chunk", 0, 0, 0, QUIET), ("progress", 0, 3, 0, QUIET), ("yield", 0, 0, 0, QUIET), ("yield-any", 0, 0, 0, QUIET)],
    [*JOINS, ("reg", 0, 0, 0, QUIET), ("pcall", 1, 1, 1, QUIET), ("cycle", 2, ..., 0, QUIET), ("chunks", 0, 3, 0, QUIET), ("progress", 0, 3, 0, QUIET), ("yield", 0, 0, 0, QUIET)],
    [*JOINS, ("crowd", 0, ..., 0, QUIET), ("call-each", 0, 0, 0, QUIET), ("crowd-leaves", 0, 0.4, 0, QUIET), ("call-each", 1, 0, 0, QUIET), ("answers", 0, 0.5, 0, BACK), ("crowd-leaves", 0, ..., 0, BACK), ("crowd", 0, 3, 0, QUIET), ("call-each", 1, 0, 0, QUIET)],
    [*JOINS, ("visits", 0, ..., 0, QUIET), ("crowd", 0, 2, 0, QUIET), ("call-each", 0, 0, 0, QUIET), ("answers", 0, 9, 0, QUIET)],
]


def broker_scale():
    """The relation that runs a broker through large histories of fixed shape."""
    return Relation("broker scale", None, lambda case, ctx: scale_check(run_broker, case, ctx), cases=lambda tier: scaled(BROKER_SCALE, tier))


def dealer_scale():
    return Relation("dealer scale", None, lambda case, ctx: scale_check(run_dealer, case, ctx), cases=lambda tier: scaled(DEALER_SCALE, tier))


def scale_check(run, case, ctx):
    run(case[2:], ctx)
    ctx.hit(f"size {case[1]}")


DEALER_OPS = ["join"] * 3 + ["leave"] + ["leave-busy"] + ["reg"] * 5 + ["unreg"] * 2 + ["unreg-any"] + ["call"] * 6 + ["pcall"] * 3 + ["chunk"] * 4 + ["yield"] * 6 + ["fail"] * 2 + ["yield-any"] * 3 + ["fail-any"] * 2 + ["wrong"]
STREAM_OPS = ["chunk"] * 8 + ["yield"] * 8 + ["pcall"] * 3 + ["call"] * 2 + ["yield-any"] * 2 + ["fail", "fail-any", "leave-busy", "join", "reg", "unreg"]
PROGRESS_OPS = ["join", "leave", "leave-busy"] + ["reg"] * 4 + ["unreg"] * 2 + ["call"] * 3 + ["pcall"] * 6 + ["chunk"] * 9 + ["yield"] * 8 + ["fail"] * 2 + ["yield-any"]


def dealer_streams(size=40):
    """Several progressive calls that are open from the beginning on."""
    op = st.tuples(st.sampled_from(STREAM_OPS), st.integers(0, 9), st.integers(0, 9), st.integers(0, 8), data())
    quiet = (None, None, None, True)
    joins = [("join", i, i, 0, quiet) for i in range(4)]
    first = st.tuples(st.just("pcall"), st.integers(0, 3), st.sampled_from((0, 1, 1, 2, 5, 5)), st.integers(0, 8), st.just(quiet))
    regs = st.integers(1, 3).map(lambda n: [("reg", i, i, i, quiet) for i in range(n)])
    return with_pools(st.tuples(regs, st.lists(first, min_size=1, max_size=4), gen.ops_list(op, size)).map(lambda t: [*joins, *t[0], *t[1], *t[2]]))


def dealer_history(weights=None, size=45):
    op = lambda w: st.tuples(st.sampled_from(w), st.integers(0, 9), st.integers(0, 9), st.integers(0, 8), data())  # noqa: E731
    quiet = (None, None, None, True)
    joins = [("join", i, i, 0, quiet) for i in range(4)]
    start = st.sampled_from([[], joins, joins + [("reg", i, i, i, quiet) for i in range(3)], joins[:2] + [("reg", 0, 0, 0, quiet)], joins + [("reg", i, i, i, quiet) for i in range(3)]])
    small = gen.swarm(weights or DEALER_OPS).flatmap(lambda w: gen.ops_list(op(w), size))
    ops = st.tuples(start, small).map(lambda t: [*t[0], *t[1]])
    bulk = st.one_of(
        st.tuples(st.sampled_from(["calls", "answers", "regs", "chunks", "progress", "cycle", "crowd", "crowd-leaves"]), st.integers(0, 9), gen.sizes(300), st.integers(0, 8), data()),
        op(["mesh", "mesh-calls", "mesh-calls", "leave", "leave-busy", "crowd", "answers"]),
    )
    plain = op(DEALER_OPS)
    mixed = st.tuples(ops, st.lists(st.one_of(bulk, plain), min_size=1, max_size=5), ops).map(lambda t: [*t[0][:18], *t[1], *t[2][:20]])
    return with_pools(st.one_of(*[ops] * 6, mixed, mixed))
