"""Reference model of a client session, and the interpreter that drives WAMPSession along a generated history.

A history is a list of operations with small integers; they are resolved against the model (which knows what is
outstanding) into concrete sends and receives, so that most of them are meaningful and the rest are near misses."""
from hypothesis import strategies as st

from vf import gen, spec
from vf.router_machine import scale_sizes
from vf.core import Ctx, Violation, attempt, clone, require, same, show

REQ = {"Call": 48, "Register": 64, "Unregister": 66, "Publish": 16, "Subscribe": 32, "Unsubscribe": 34}
REPLY = {"Result": "Call", "Registered": "Register", "Unregistered": "Unregister", "Published": "Publish", "Subscribed": "Subscribe", "Unsubscribed": "Unsubscribe"}
ID_POOL = (1, 2, 3, 4, 5, 8, 2**31, 2**32, 2**53 - 1, 2**53)
UNSENDABLE = tuple(k for k in spec.KINDS if k not in ("Call", "Register", "Unregister", "Publish", "Subscribe", "Unsubscribe", "Yield", "Error", "Goodbye"))
UNRECEIVABLE = tuple(k for k in spec.KINDS if k not in (*REPLY, "Invocation", "Event", "Error", "Goodbye", "Abort"))


class Model:
    def __init__(self, pool=ID_POOL):
        self.pool = pool
        self.out = {k: {} for k in REQ}  # kind -> {request id: registration/subscription id or None}
        self.tainted = set()  # (kind, id): an UNREGISTERED/UNSUBSCRIBED that was refused may have used it up
        self.regs = set()
        self.subs = set()
        self.inv = set()

    def snapshot(self):
        return (
            {k: sorted(v.items(), key=repr) for k, v in self.out.items()}, sorted(self.regs), sorted(self.subs), sorted(self.inv),
        )

    def expect(self, direction, kind, f):
        """'ok', 'no' or 'either' (then the case must not depend on it)."""
        rid = f.get("request_id")
        if direction == "send":
            if kind in ("Call", "Register", "Unregister", "Publish", "Subscribe", "Unsubscribe", "Goodbye"):
                return "ok"
            if kind == "Yield":
                return "ok" if rid in self.inv else "no"
            if kind == "Error":
                return "ok" if f["message_type"] == 68 else "no"
            return "no"
        if kind in REPLY:
            k = REPLY[kind]
            if (k, rid) in self.tainted:
                return "either"
            if rid not in self.out[k]:
                return "no"
            if kind == "Unregistered" and self.out[k][rid] not in self.regs:
                return "either"
            if kind == "Unsubscribed" and self.out[k][rid] not in self.subs:
                return "either"
            return "ok"
        if kind == "Error":
            k = next((k for k, c in REQ.items() if c == f["message_type"]), None)
            if k is None:
                return "no"
            if (k, rid) in self.tainted:
                return "either"
            return "ok" if rid in self.out[k] else "no"
        if kind == "Invocation":
            return "ok" if f["registration_id"] in self.regs else "no"
        if kind == "Event":
            return "ok" if f["subscription_id"] in self.subs else "no"
        return "ok" if kind in ("Goodbye", "Abort") else "no"

    def apply(self, direction, kind, f):
        rid = f.get("request_id")
        prog = lambda d: (f.get(d) or {}).get("progress") is True  # noqa: E731
        if direction == "send":
            if kind in ("Call", "Register", "Subscribe"):
                self.out[kind][rid] = None
            elif kind == "Unregister":
                self.out[kind][rid] = f["registration_id"]
            elif kind == "Unsubscribe":
                self.out[kind][rid] = f["subscription_id"]
            elif kind == "Publish":
                if (f.get("options") or {}).get("acknowledge") is True:
                    self.out[kind][rid] = None
            elif kind == "Yield":
                if not prog("options"):
                    self.inv.discard(rid)
            elif kind == "Error":
                self.inv.discard(rid)
            if kind in REQ:
                self.tainted.discard((kind, rid))
            return
        if kind == "Result":
            if not prog("details"):
                del self.out["Call"][rid]
        elif kind in REPLY:
            ref = self.out[REPLY[kind]].pop(rid)
            if kind == "Registered":
                self.regs.add(f["registration_id"])
            elif kind == "Subscribed":
                self.subs.add(f["subscription_id"])
            elif kind == "Unregistered":
                self.regs.discard(ref)
            elif kind == "Unsubscribed":
                self.subs.discard(ref)
        elif kind == "Error":
            k = next(k for k, c in REQ.items() if c == f["message_type"])
            del self.out[k][rid]
        elif kind == "Invocation":
            self.inv.add(rid)

    def taint(self, kind, rid):
        k = REPLY[kind]
        self.out[k].pop(rid, None)
        self.tainted.add((k, rid))


def choose(pool, i):
    return pool[i % len(pool)]


def resolve(op, m):
    """A concrete list of (direction, kind, fields) for an operation, given the model's state."""
    if op[0] == "steps":
        return op[1]
    out = resolve_plain(op, m)
    if op[0] in ("send", "reply", "invoke", "yield", "any") and (op[1] + op[2]) % 5 == 4:  # with a binary payload
        n = op[1] + 2 * op[2]
        for _, kind, f in out:
            if kind in spec.PAYLOAD_KINDS:
                f.update(zip(("serializer", "payload", "binary"), ((1, b"[]", True), (None, b"x", True), (3, b"", True), (2, None, False), (0, b"\x00", True))[n % 5]))
    return out


def resolve_plain(op, m):
    name, a, b, data = op
    pool = m.pool
    args, kwargs, opts, flag = data
    fresh = lambda k: next(x for x in list(pool[a % len(pool):]) + list(pool) + list(range(100, 5000)) if x not in m.out[k] and (k, x) not in m.tainted)  # noqa: E731
    uri = f"com.x{b % 3}"
    if name == "send":
        kind = choose(tuple(REQ), b)
        f = {"request_id": fresh(kind)}
        if kind == "Unregister":
            f["registration_id"] = choose(sorted(m.regs) or [1], a) if flag else choose(pool, a + b)
        elif kind == "Unsubscribe":
            f["subscription_id"] = choose(sorted(m.subs) or [1], a) if flag else choose(pool, a + b)
        elif kind in ("Call", "Register"):
            f.update(procedure=uri, options=clone(opts))
        else:
            f.update(topic=uri, options=clone(opts))
        if kind in ("Call", "Publish"):
            f.update(args=clone(args), kwargs=clone(kwargs))
        if kind == "Publish" and flag:
            f["options"] = {**(opts or {}), "acknowledge": b % 4 != 3}
        elif kind == "Publish":
            f["options"] = {k: v for k, v in (opts or {}).items() if k != "acknowledge"}
        return [("send", kind, f)]
    if name == "reply":  # a correct reply to something outstanding
        outs = [(k, r) for k in REQ for r in m.out[k]]
        if not outs:
            return []
        k, r = choose(outs, a)
        if b % 3 == 2:
            return [("recv", "Error", {"message_type": REQ[k], "request_id": r, "uri": "wamp.error.x", "args": clone(args), "kwargs": clone(kwargs), "details": clone(opts)})]
        kind = next(x for x, y in REPLY.items() if y == k)
        f = {"request_id": r}
        if kind == "Result":
            f.update(args=clone(args), kwargs=clone(kwargs), details=progress(opts, b, flag))
        elif kind == "Registered":
            f["registration_id"] = choose(pool, b)
        elif kind == "Subscribed":
            f["subscription_id"] = choose(pool, b)
        elif kind == "Published":
            f["publication_id"] = choose(pool, b)
        return [("recv", kind, f)]
    if name == "cross":  # a reply of another kind than what is outstanding, or an ID near it
        outs = [(k, r) for k in REQ for r in m.out[k]] or [("Call", 1)]
        r = choose(outs, a)[1]
        if flag and a % 2:
            r = min(2**53, r + 1)
        kind = choose((*REPLY, "Error", "Invocation", "Event"), b)
        f = {n: r for n in spec.fields_of(kind) if n.endswith("_id")}
        if kind == "Error":
            f.update(message_type=choose((*REQ.values(), 68, 70, 49, 0, -48, 1, 6), a // 3), uri="u")
        return [("recv", kind, f)]
    if name == "any":  # any ID
        kind = choose((*REPLY, "Error", "Invocation", "Event", "Goodbye", "Abort"), b)
        f = {n: choose(pool, a + i) for i, n in enumerate(spec.fields_of(kind)) if n.endswith("_id")}
        if kind == "Error":
            f.update(message_type=choose((*REQ.values(), 68, 70, 0), a // 3), uri="u", args=clone(args), kwargs=clone(kwargs))
        elif kind in ("Goodbye", "Abort"):
            f.update(details=clone(opts) or {}, reason="wamp.close.x")
        elif kind == "Result":
            f.update(details=progress(opts, a, flag), args=clone(args), kwargs=clone(kwargs))
        return [("recv", kind, f)]
    if name == "probe":  # near misses around one ID
        ids = sorted({r for k in REQ for r in m.out[k]} | set(m.inv) | set(pool))
        r = choose(ids, a + b)
        out = []
        codes = [*REQ.values(), 68, 70, 36, 2]
        for c in codes[b % len(codes):] + codes[: b % len(codes)]:
            k = next((k for k, x in REQ.items() if x == c), None)
            if k is None or r not in m.out[k]:
                out.append(("recv", "Error", {"message_type": c, "request_id": r, "uri": "u", "details": clone(opts)}))
        for kind, k in REPLY.items():
            if r not in m.out[k]:
                out.append(("recv", kind, {n: r if n == "request_id" else choose(pool, b) for n in spec.fields_of(kind) if n.endswith("_id")}))
        if r not in m.inv:
            out.append(("send", "Yield", {"request_id": r, "options": progress(opts, b, flag)}))
        if r not in m.subs:
            out.append(("recv", "Event", {"subscription_id": r, "publication_id": 1}))
        if r not in m.regs:
            out.append(("recv", "Invocation", {"request_id": choose(pool, b), "registration_id": r}))
        return out
    if name == "invoke":
        if not m.regs:
            return []
        return [("recv", "Invocation", {"request_id": choose(pool, b), "registration_id": choose(sorted(m.regs), a), "args": clone(args), "kwargs": clone(kwargs), "details": progress(opts, b, flag)})]
    if name == "event":
        if not m.subs:
            return []
        return [("recv", "Event", {"subscription_id": choose(sorted(m.subs), a), "publication_id": choose(pool, b), "args": clone(args), "kwargs": clone(kwargs), "details": clone(opts)})]
    if name == "yield":
        ids = sorted(m.inv) if m.inv and not (flag and a % 3 == 0) else list(pool)
        return [("send", "Yield", {"request_id": choose(ids, a), "args": clone(args), "kwargs": clone(kwargs), "options": progress(opts, b, flag)})]
    if name == "fail":
        ids = sorted(m.inv) if m.inv and not (flag and a % 3 == 0) else list(pool)
        return [("send", "Error", {"message_type": 68 if flag or b % 2 else choose((0, -68, *spec.BY_CODE), a + b), "request_id": choose(ids, a), "uri": "wamp.error.x", "args": clone(args), "kwargs": clone(kwargs), "details": clone(opts)})]
    if name == "wrong":  # kinds a client never sends, or never receives
        direction = "send" if flag else "recv"
        kind = choose(UNSENDABLE if flag else UNRECEIVABLE, b)
        f = {}
        for n, t in spec.TABLE[kind][1]:
            if t in ("id", "int"):
                f[n] = choose(pool, a)
            elif t == "str":
                f[n] = "x"
            elif t == "dict":
                f[n] = {}
            else:
                f["roles"] = {"caller": {}}
        return [(direction, kind, f)]
    if name == "goodbye":
        return [("send", "Goodbye", {"details": clone(opts) or {}, "reason": "wamp.close.normal"})]
    if name == "setup":  # a whole registration or subscription in one go
        out = []
        kind, rep, idn = ("Register", "Registered", "registration_id") if flag else ("Subscribe", "Subscribed", "subscription_id")
        r = fresh(kind)
        out.append(("send", kind, {"request_id": r, "procedure" if flag else "topic": uri, "options": clone(opts)}))
        out.append(("recv", rep, {"request_id": r, idn: choose(pool, b)}))
        return out
    if name == "burst":  # many requests of one kind, answered in another order
        n = a
        kind = choose(("Call", "Register", "Subscribe", "Publish"), b)
        ids = [x for x in range(10_000, 10_000 + n) if x not in m.out[kind]]
        fk = "procedure" if kind in ("Call", "Register") else "topic"
        out = [("send", kind, {"request_id": x, fk: "u", **({"options": {"acknowledge": True}} if kind == "Publish" else {})}) for x in ids]
        rep = next(x for x, y in REPLY.items() if y == kind)
        order = ids if flag else ids[::-1]
        for x in order:
            f = {"request_id": x}
            for nme in spec.fields_of(rep):
                if nme.endswith("_id") and nme != "request_id":
                    f[nme] = 20_000 + x % 97
            out.append(("recv", rep, f))
            if x % 13 == 0:
                out.append(("recv", rep, clone(f)))  # a second time: refused
        return out
    if name == "unserializable":
        kind = choose(("Call", "Publish", "Yield", "Error", "Register", "Subscribe", "Goodbye"), b)
        f = {"request_id": fresh(kind) if kind in REQ else (choose(sorted(m.inv), a) if m.inv else 1)}
        if kind == "Call":
            f.update(procedure=uri, args=[...])
        elif kind == "Publish":
            f.update(topic=uri, kwargs={"k": ...}, options={"acknowledge": True})
        elif kind == "Yield":
            f.update(args=[...], options={"progress": bool(flag)})
        elif kind == "Error":
            f.update(message_type=68, uri="u", args=[1, [...]])
        elif kind == "Register":
            f.update(procedure=uri, options={"x": ...})
        elif kind == "Subscribe":
            f.update(topic=uri, options={"x": ...})
        else:
            f = {"details": {"x": ...}, "reason": "r"}
        return [("send", kind, f)]
    raise AssertionError(name)


def progress(opts, b, flag):
    """Options with a progress flag that is only ever True, False or absent."""
    d = {k: v for k, v in (opts or {}).items() if k != "progress"}
    if b % 3 == 0:
        d["progress"] = True
    elif b % 3 == 1 and flag:
        d["progress"] = False
    elif not d and opts is None:
        return None
    return d


def has_unserializable(v):
    if v is ...:
        return True
    if isinstance(v, list):
        return any(has_unserializable(x) for x in v)
    if isinstance(v, dict):
        return any(has_unserializable(x) for x in v.values())
    return False


def perform(session, ser, direction, kind, f, how):
    """One concrete step; returns what the session answered, as plain data."""
    msg = spec.build(kind, clone(f))
    if direction == "send":
        return session.send_message(msg)
    if how:
        return session.receive_message(msg)
    return session.receive(ser.serialize(msg))


def closing(m, variant=0):
    """Probes, lazily: each sees the model as the ones before left it."""
    pool = [1, 2, 3, 2**53, *m.pool[:4]]
    for i in sorted({*list(m.subs)[:8], *pool}):
        yield "recv", "Event", {"subscription_id": i, "publication_id": 1, "args": [i]}
    held = sorted(m.regs)[:8]
    for n, i in enumerate(sorted({*held, *pool})):
        yield "recv", "Invocation", {"request_id": 500 + n, "registration_id": i, "args": [i]}
    for k in REQ:
        for r in sorted({*list(m.out[k])[:6], *pool}):
            kind = next(x for x, y in REPLY.items() if y == k)
            f = {"request_id": r}
            for n in spec.fields_of(kind):
                if n.endswith("_id") and n != "request_id":
                    f[n] = 77
            if k == "Call" and r % 2:
                yield "recv", "Result", {"request_id": r, "details": {"progress": True}}
            if r not in m.out[k] or r % 3 == 0:
                yield "recv", "Error", {"message_type": REQ[k], "request_id": r, "uri": "u"}
            yield "recv", kind, f
            yield "recv", kind, clone(f)
    if variant % 3 == 0:  # an invocation outlives its registration
        for n, i in enumerate(sorted(m.regs)):
            yield "send", "Unregister", {"request_id": 600 + n, "registration_id": i}
            yield "recv", "Unregistered", {"request_id": 600 + n}
    if variant % 6 == 0:
        for n, i in enumerate(sorted(m.subs)):
            yield "send", "Unsubscribe", {"request_id": 600 + n, "subscription_id": i}
            yield "recv", "Unsubscribed", {"request_id": 600 + n}
    for r in sorted({*list(m.inv)[:8], *pool}):
        yield "send", "Yield", {"request_id": r, "options": {"progress": True}}
        if r % 2:
            yield "send", "Yield", {"request_id": r}
        elif r in m.inv:
            yield "send", "Error", {"message_type": 68, "request_id": r, "uri": "u"}
        yield "send", "Yield", {"request_id": r}
    for i in sorted({77, *list(m.subs)[:8]}):
        yield "recv", "Event", {"subscription_id": i, "publication_id": 1}
    for i in sorted({77, *list(m.regs)[:8]}):
        yield "recv", "Invocation", {"request_id": 900, "registration_id": i}


def run(case, ctx, tags_progress=("C15", "C16"), steps=None):
    """Drive one session along the case, comparing with the model. Returns the concrete steps with their outcome."""
    from wampproto.session import WAMPSession

    name, ops, pool = case
    ser = gen.serializer(name)
    session = WAMPSession(gen.serializer(name))
    m = Model(pool)
    steps = [] if steps is None else steps
    counted = ctx

    def do(direction, kind, f, how):
        ctx = counted
        bad = has_unserializable([*f.values()])
        if bad and direction == "recv":
            return
        want = m.expect(direction, kind, f)
        if want == "either" and kind not in ("Unregistered", "Unsubscribed"):
            return
        s, v = attempt(perform, session, ser, direction, kind, f, how)
        flagged = any((f.get(d) or {}).get("progress") is True for d in ("options", "details"))
        tags = tags_progress if (flagged or kind in ("Result", "Yield")) and ctx.label("progress") is None else None
        where = f"step {len(steps)}: {direction} {kind} {show({k: x for k, x in f.items() if k.endswith('_id') or k in ('message_type', 'options', 'details')})}"
        steps.append((direction, kind, f, how, s, v))
        if bad:
            if want == "no":
                require(s == "err", lambda: f"{where}: accepted", None)
            require(s == "err", lambda: f"{where}: a message that cannot be serialized was sent", None)
            ctx.hit("unserializable")
            return
        if want == "either":
            if s == "err":
                require(isinstance(v, ValueError), lambda: f"{where}: raised {type(v).__name__}: {v}", None)
            m.taint(kind, f["request_id"])
            ctx.label("removal of something not held")
            return
        if want == "no":
            require(s == "err", lambda: f"{where}: was accepted; outstanding: {m.snapshot()}", tags)
            require(isinstance(v, ValueError), lambda: f"{where}: raised {type(v).__name__}: {v}", tags)
            ctx.hit(f"refused {direction} {kind}")
            return
        require(s == "ok", lambda: f"{where}: refused with {type(v).__name__}: {v}; outstanding: {m.snapshot()}", tags)
        if direction == "recv":
            require(spec.kind_of(v) == kind, lambda: f"{where}: handed to the application as {type(v).__name__}", tags)
            exp = spec.roundtripped(kind, f)
            got = spec.read(v)
            if "args" in got and got["args"] is None and exp["args"] == []:
                exp["args"] = None  # not sent over the wire in this step
            if "args" in got and f.get("args") is None and got["args"] == [] and f.get("kwargs") is not None:
                exp["args"] = []
            require(same(got, exp), lambda: f"{where}: handed to the application as {show(got)}, expected {show(exp)}", tags)
        else:
            require(same(gen.ref_loads(name, v), spec.ref_encode(kind, f)), lambda: f"{where}: wrote {show(gen.ref_loads(name, v))}", tags)
        m.apply(direction, kind, f)
        ctx.hit(f"{direction} {kind}")
        if flagged:
            ctx.hit(f"progressive {kind}")

    for i, op in enumerate(ops):
        for j, (direction, kind, f) in enumerate(resolve(op, m)):
            do(direction, kind, f, (i + j) % 2)
    # finally: everything the model says is open or held, and things it says are not
    counted = Ctx(ctx.prop)  # not to the case's credit
    for x in closing(m, len(steps)):
        do(*x, len(steps) % 2)
    return steps, m, session


def scale_cases(tier):
    """Histories of fixed shape with very many requests, registrations, subscriptions or progressive messages."""
    for n in scale_sizes(tier, 8200):
        for shape in range(10):
            yield (shape, n, gen.SERIALIZERS[(shape + n // 128) % 3])


def scale_steps(shape, n):
    ids = list(range(1, n + 1))
    mixed = ids[1::2] + ids[::2][::-1]
    if shape == 0:  # many calls open, answered in the order of the calls
        yield from [("send", "Call", {"request_id": i, "procedure": "p", "args": [i]}) for i in ids]
        for i in ids:
            yield "recv", "Result", {"request_id": i, "args": [i]}
            if i % 64 == 1:
                yield "recv", "Result", {"request_id": i, "args": [i]}
    elif shape == 1:  # in another one, some with errors
        yield from [("send", "Call", {"request_id": 2**53 - i, "procedure": "p"}) for i in ids]
        for i in mixed:
            yield ("recv", "Error", {"message_type": 48, "request_id": 2**53 - i, "uri": "u"}) if i % 3 == 0 else ("recv", "Result", {"request_id": 2**53 - i})
    elif shape == 2:  # many registrations and invocations
        yield from [("send", "Register", {"request_id": i, "procedure": f"p{i}"}) for i in ids]
        yield from [("recv", "Registered", {"request_id": i, "registration_id": 3 * i}) for i in mixed]
        yield from [("recv", "Invocation", {"request_id": 5 * i, "registration_id": 3 * i}) for i in ids]
        yield from [("send", "Yield", {"request_id": 5 * i, "options": {"progress": True}}) for i in ids]
        yield from [("send", "Unregister", {"request_id": i, "registration_id": 3 * i}) for i in ids[::2]]
        yield from [("recv", "Unregistered", {"request_id": i}) for i in ids[::2]]
        yield from [("recv", "Invocation", {"request_id": 5 * i + 1, "registration_id": 3 * i}) for i in ids]
        for i in mixed:
            yield ("send", "Yield", {"request_id": 5 * i}) if i % 3 else ("send", "Error", {"message_type": 68, "request_id": 5 * i, "uri": "u"})
            yield "send", "Yield", {"request_id": 5 * i}
        yield from [("send", "Yield", {"request_id": 5 * i + 1}) for i in ids]
    elif shape == 3:  # many subscriptions
        yield from [("send", "Subscribe", {"request_id": i, "topic": f"t{i}"}) for i in ids]
        yield from [("recv", "Subscribed", {"request_id": i, "subscription_id": 3 * i}) for i in mixed]
        yield from [("recv", "Event", {"subscription_id": 3 * i, "publication_id": i}) for i in ids]
        yield from [("send", "Unsubscribe", {"request_id": i, "subscription_id": 3 * i}) for i in ids[::2]]
        yield from [("recv", "Event", {"subscription_id": 3 * i, "publication_id": i}) for i in ids]
        yield from [("recv", "Unsubscribed", {"request_id": i}) for i in ids[::2]]
        yield from [("recv", "Event", {"subscription_id": 3 * i, "publication_id": i}) for i in ids]
    elif shape == 4:  # many publications
        yield from [("send", "Publish", {"request_id": i, "topic": "t", "options": {"acknowledge": i % 4 != 0}}) for i in ids]
        for i in mixed:
            yield ("recv", "Error", {"message_type": 16, "request_id": i, "uri": "u"}) if i % 3 == 0 else ("recv", "Published", {"request_id": i, "publication_id": i})
    elif shape == 5:  # many, one after the other
        for i in ids:
            yield "send", "Call", {"request_id": i, "procedure": "p"}
            yield "recv", "Result", {"request_id": i}
            yield "send", "Publish", {"request_id": i, "topic": "t", "options": {"acknowledge": True}}
            yield "recv", "Published", {"request_id": i, "publication_id": i}
            yield "recv", "Result", {"request_id": i}
    elif shape == 6:  # one and the same registered and given up again
        for i in ids:
            yield "send", "Register", {"request_id": i, "procedure": "p"}
            yield "recv", "Registered", {"request_id": i, "registration_id": i}
            yield "recv", "Invocation", {"request_id": i, "registration_id": i}
            yield "send", "Unregister", {"request_id": i, "registration_id": i}
            yield "recv", "Unregistered", {"request_id": i}
            if i % 2:
                yield "send", "Yield", {"request_id": i}
            yield "send", "Subscribe", {"request_id": i, "topic": "p"}
            yield "recv", "Subscribed", {"request_id": i, "subscription_id": i}
            yield "send", "Unsubscribe", {"request_id": i, "subscription_id": i}
            yield "recv", "Unsubscribed", {"request_id": i}
        yield from [("send", "Yield", {"request_id": i}) for i in ids]
    elif shape == 7:  # many progressive results, others waiting
        yield from [("send", "Call", {"request_id": i, "procedure": "p", "options": {"receive_progress": True}}) for i in (1, 2, 3)]
        yield from [("recv", "Result", {"request_id": 1 + i // n, "details": {"progress": True}, "args": [i]}) for i in range(2 * n)]
        for i in (1, 2, 3, 1, 2, 3):
            yield "recv", "Result", {"request_id": i}
    elif shape == 8:  # many progressive yields
        yield "send", "Register", {"request_id": 1, "procedure": "p"}
        yield "recv", "Registered", {"request_id": 1, "registration_id": 9}
        yield from [("recv", "Invocation", {"request_id": i, "registration_id": 9, "details": {"receive_progress": True}}) for i in (1, 2, 3)]
        yield from [("send", "Yield", {"request_id": 1 + i // n, "options": {"progress": True}, "args": [i]}) for i in range(2 * n)]
        for i in (1, 2, 3, 1, 2, 3):
            yield "send", "Yield", {"request_id": i}
    else:  # many things of every kind wait, answered by kind
        for i in ids:
            kind = tuple(REQ)[i % 4 if i % 4 < 1 else (0, 1, 3, 4)[i % 4]]
            yield "send", kind, {"request_id": i, **({"procedure": "p"} if kind in ("Call", "Register") else {"topic": "t"}), **({"options": {"acknowledge": True}} if kind == "Publish" else {})}
        for k in (1, 3, 0, 2):
            for i in ids:
                if i % 4 == k:
                    kind = ("Result", "Registered", "Published", "Subscribed")[k]
                    yield "recv", kind, {"request_id": i, **{f: i for f in spec.fields_of(kind) if f.endswith("_id") and f != "request_id"}}


def scale():
    """The relation that runs a session through them."""
    from vf.core import Relation

    def check(case, ctx):
        shape, n, name = case
        run((name, [("steps", list(scale_steps(shape, n)))], ID_POOL), ctx)
        ctx.hit(f"size {n}")

    return Relation("scale", None, check, cases=scale_cases)


WEIGHTED = (
    ["send"] * 6 + ["reply"] * 6 + ["cross"] * 3 + ["any"] * 3 + ["invoke"] * 3 + ["event"] * 2 + ["yield"] * 3 + ["fail"] + ["wrong"] + ["goodbye"] + ["setup"] * 3 + ["probe"] * 2
)
PROGRESS_WEIGHTED = ["send"] * 4 + ["reply"] * 7 + ["cross"] + ["any"] + ["invoke"] * 4 + ["yield"] * 5 + ["fail"] + ["setup"] * 3 + ["probe"]


def coded():
    """Request IDs that, together with the code of some request kind, come to the same number."""
    codes = st.lists(st.sampled_from((16, 32, 34, 48, 64, 66)), min_size=2, max_size=4, unique=True)
    return st.tuples(codes, st.sampled_from((1, 10, 16, 100, 256, 1000, 1024, 65536)), st.integers(1, 4), st.booleans()).map(lambda t: tuple(dict.fromkeys(t[2] + ((66 - c) if t[3] else c) * t[1] for c in t[0])))


def history(weights, ser=None, bursts=True, size=40):
    def per(s):
        opts = st.one_of(st.none(), gen.wamp_options(), st.dictionaries(gen.short_text(), gen.scalar(s), max_size=2))
        data = st.one_of(
            st.just((None, None, None, True)), st.just((None, None, None, False)), st.just(([], {}, {}, True)),
            st.tuples(st.none(), st.none(), gen.wamp_options(), st.booleans()),
            st.tuples(st.lists(gen.scalar(s), max_size=2), st.one_of(st.none(), st.dictionaries(gen.short_text(), gen.scalar(s), max_size=2)), opts, st.booleans()),
        )

        def per_weights(w):
            op = st.tuples(st.sampled_from(w), st.integers(0, 11), st.integers(0, 11), data)
            return gen.ops_list(op, size)

        ops = gen.swarm(weights).flatmap(per_weights)
        if bursts:
            burst = st.tuples(st.just("burst"), gen.sizes(600), st.integers(0, 3), st.just((None, None, None, True)) | st.just((None, None, None, False)))
            ops = st.one_of(ops, ops, ops, ops, ops, ops, ops, st.tuples(ops, burst, ops).map(lambda t: [*t[0][:10], t[1], *t[2][:10]]))
        return st.tuples(st.just(s), ops, st.one_of(*[gen.id_pool(ID_POOL)] * 6, coded()))

    return st.sampled_from(gen.SERIALIZERS).flatmap(per)
