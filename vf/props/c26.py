"""Clients and a router made from the library, on simulated connections with a generated schedule."""
import collections

from hypothesis import strategies as st

from vf import gen, handshake as hs, spec
from vf.core import Relation, Violation, clone, require, same, show

RULE = (
    "a case is 2 to 5 clients (serializer, authentication method, up to 10 application operations each) and a schedule of up to 250 "
    "choices among everything that may happen next (delivery of the next message of a connection, an application's next operation, "
    "a callee's answer), then run to quiescence; non-trivial when a call returned or an event was delivered"
)
PROCS = ("com.p0", "com.p1", "com.p2", "com.none")
TOPICS = ("com.t0", "com.t1", "com.t2")
STEADY = ("com.prog0", "com.prog1")  # held for good: targets of progressive calls


def values():
    s = st.one_of(st.none(), st.booleans(), st.integers(-(2**63), 2**63 - 1), gen.short_text(), st.floats(allow_nan=False, allow_infinity=False))
    return st.recursive(s, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text("abcxyz_", max_size=5), c, max_size=3)), max_leaves=5)


def payload():
    return st.tuples(st.one_of(st.just([]), st.lists(values(), max_size=3)), st.one_of(st.none(), st.dictionaries(st.text("abcxyz_", max_size=5), values(), max_size=2)))


OPS = ["call"] * 6 + ["pcall"] * 3 + ["register"] * 4 + ["unregister"] * 2 + ["subscribe"] * 4 + ["unsubscribe"] * 2 + ["publish"] * 5


def cases():
    quiet = st.just(([], None))
    op = st.tuples(st.sampled_from(OPS), st.integers(0, 5), st.integers(0, 5), st.one_of(quiet, quiet, payload()))
    client = st.tuples(st.sampled_from(gen.SERIALIZERS), st.sampled_from(hs.METHODS), st.one_of(st.lists(op, max_size=10), st.lists(op, min_size=4, max_size=10)), st.booleans())
    schedule = st.lists(st.integers(0, 9), max_size=250)
    small = st.tuples(st.lists(client, min_size=2, max_size=5), schedule, st.integers(0, 3))
    big = st.tuples(st.lists(client, min_size=3, max_size=5), st.lists(st.integers(0, 9), min_size=40, max_size=250), st.integers(0, 3))
    return st.one_of(small, big)


class Client:
    def __init__(self, sim, index, ser, method, ops, leaves):
        from wampproto.acceptor import Acceptor
        from wampproto.idgen import SessionScopeIDGenerator
        from wampproto.joiner import Joiner
        from wampproto.session import WAMPSession

        self.sim, self.i, self.name, self.method = sim, index, ser, method
        cred = {"method": method, "authid": f"user{index}", "extra": None, "ticket": f"t{index}", "secret": f"s{index}", "seed": bytes([index + 1]) * 32}
        self.joiner = Joiner("realm1", gen.serializer(ser), hs.client_authenticator(cred))
        self.acceptor = Acceptor(gen.serializer(ser), sim.authenticator)
        self.session = WAMPSession(gen.serializer(ser))
        self.router_ser = gen.serializer(ser)
        self.ids = SessionScopeIDGenerator()
        self.ops = collections.deque(ops)
        self.leaves = leaves
        self.up, self.down = collections.deque(), collections.deque()
        self.state = "new"
        self.sid = None
        self.router_sid = None
        self.wait = {}  # (kind, request id) -> info
        self.regs = {}  # procedure -> registration id
        self.reg_of = {}  # registration id -> procedure, also of those being removed
        self.subs = {}
        self.topic_of = {}
        self.todo = []  # invocations to answer: [procedure, request id, wants progress, tag, chunks, complete]
        self.events = []
        self.chunks = []  # progressive calls being sent: [request id, procedure, wants, parts left, tag, payload]
        self.busy = 0

    def __repr__(self):
        return f"client {self.i} ({self.name}, {self.method})"

    # -- what the application may do now

    def actions(self):
        out = []
        if self.state == "new":
            return ["hello"]
        if self.up and self.state != "left":
            out.append("up")
        if self.down and self.state != "left":
            out.append("down")
        if self.state == "joined":
            if self.ops:
                out.append("op")
            if self.chunks:
                out.append("chunk")
            if any(t[5] for t in self.todo):
                out.append("answer")
            if any(self.early(t) for t in self.todo):
                out.append("part")
            if self.leaves and self.idle() and not self.ops:
                out.append("leave")
        return out

    def early(self, t):
        """A progressive result before the last part of the call."""
        return t[2] and not t[5] and t[6] < 2

    def idle(self):
        return not self.wait and not self.todo and not self.chunks and not self.reg_of and not self.up and not self.busy

    def send(self, kind, f):
        self.up.append(self.sim.guard(f"{self} sends {kind} {show(f, 120)}", self.session.send_message, spec.build(kind, f)))

    def do(self, action, k):
        if action == "hello":
            self.state = "joining"
            self.up.append(self.sim.guard(f"{self} sends HELLO", self.joiner.send_hello))
        elif action == "up":
            self.sim.router(self, self.up.popleft())
        elif action == "down":
            self.receive(self.down.popleft())
        elif action == "op":
            self.op(self.ops.popleft())
        elif action == "chunk":
            self.send_chunk(self.chunks[k % len(self.chunks)])
        elif action == "answer":
            ready = [t for t in self.todo if t[5]]
            self.answer(ready[k % len(ready)], k)
        elif action == "part":
            ready = [t for t in self.todo if self.early(t)]
            self.answer(ready[k % len(ready)], k)
        elif action == "leave":
            self.send("Goodbye", {"details": {}, "reason": "wamp.close.close_realm"})
            self.state = "leaving"

    def op(self, op):
        name, a, b, (args, kwargs) = op
        r = None
        if name == "call":
            proc = (PROCS + STEADY)[(a + b) % 6]
            r = self.ids.next()
            tag = self.sim.tag()
            self.wait["Call", r] = {"tag": tag, "proc": proc, "wants": b % 2 == 0, "progress": [], "sent": [args, kwargs]}
            self.send("Call", {"request_id": r, "procedure": proc, "args": [tag, *clone(args)], "kwargs": clone(kwargs), "options": {"receive_progress": True} if b % 2 == 0 else None})
        elif name == "pcall":
            proc = STEADY[a % 2]
            r = self.ids.next()
            tag = self.sim.tag()
            self.wait["Call", r] = {"tag": tag, "proc": proc, "wants": b % 2 == 0, "progress": [], "sent": [args, kwargs], "parts": b + 1}
            self.chunks.append([r, proc, b % 2 == 0, b + 1, tag, (args, kwargs)])
        elif name == "register":
            proc = PROCS[a % 3]
            if proc in self.regs or any(k[0] == "Register" and v == proc for k, v in self.wait.items()):
                return
            r = self.ids.next()
            self.wait["Register", r] = proc
            self.send("Register", {"request_id": r, "procedure": proc})
        elif name == "unregister":
            if not self.regs:
                return
            proc = sorted(self.regs)[a % len(self.regs)]
            r = self.ids.next()
            self.wait["Unregister", r] = (proc, self.regs[proc])
            self.send("Unregister", {"request_id": r, "registration_id": self.regs.pop(proc)})
        elif name == "subscribe":
            topic = TOPICS[a % 3]
            if topic in self.topic_of.values() or any(k[0] == "Subscribe" and v == topic for k, v in self.wait.items()):
                return
            r = self.ids.next()
            self.wait["Subscribe", r] = topic
            self.send("Subscribe", {"request_id": r, "topic": topic})
        elif name == "unsubscribe":
            if not self.subs:
                return
            topic = sorted(self.subs)[a % len(self.subs)]
            r = self.ids.next()
            self.wait["Unsubscribe", r] = self.subs[topic]
            self.send("Unsubscribe", {"request_id": r, "subscription_id": self.subs.pop(topic)})
        else:
            topic = TOPICS[a % 3]
            r = self.ids.next()
            tag = self.sim.tag()
            ack = b % 2 == 0
            if ack:
                self.wait["Publish", r] = tag
            self.sim.sent_pub += 1
            self.send("Publish", {"request_id": r, "topic": topic, "args": [tag, *clone(args)], "kwargs": clone(kwargs), "options": {"acknowledge": True} if ack else {"acknowledge": False} if b == 1 else None})
            self.sim.pubs[tag] = {"topic": topic, "args": [tag, *args], "kwargs": kwargs, "to": None}

    def send_chunk(self, c):
        r, proc, wants, left, tag, (args, kwargs) = c
        c[3] -= 1
        o = {"progress": True} if c[3] else {}
        if wants:
            o["receive_progress"] = True
        if not c[3]:
            self.chunks.remove(c)
        self.send("Call", {"request_id": r, "procedure": proc, "args": [tag, *clone(args)], "kwargs": clone(kwargs), "options": o or None})

    def answer(self, t, k):
        proc, r, wants, tag, parts, complete, n = t
        if not complete or (k % 4 == 3 and wants and n < 4):
            t[6] += 1
            self.send("Yield", {"request_id": r, "args": [tag, "part", t[6]], "options": {"progress": True}})
            self.sim.answers.setdefault(tag, []).append(("part", t[6]))
            return
        self.todo.remove(t)
        self.sim.answered.add(tag)
        if k % 5 == 1:
            self.send("Error", {"message_type": 68, "request_id": r, "uri": "com.failed", "args": [tag, self.i], "kwargs": {"n": parts}})
            self.sim.answers.setdefault(tag, []).append(("error", [tag, self.i], {"n": parts}))
        else:
            self.send("Yield", {"request_id": r, "args": [tag, "done", self.i], "kwargs": {"n": parts}})
            self.sim.answers.setdefault(tag, []).append(("done", [tag, "done", self.i], {"n": parts}))

    # -- what arrives

    def receive(self, data):
        if self.state == "joining":
            out = self.sim.guard(f"{self} receives {show(data, 150)} while joining", self.joiner.receive, data)
            if out is not None:
                self.up.append(out)
                return
            d = self.sim.guard(f"{self} reads its session details", self.joiner.get_session_details)
            self.sid = d.session_id
            require(self.sid == self.router_sid, lambda: f"{self} joined as {self.sid}, the router says {self.router_sid}")
            self.state = "joined"
            if self.i < 2:  # the steady procedures
                r = self.ids.next()
                self.wait["Register", r] = STEADY[self.i]
                self.send("Register", {"request_id": r, "procedure": STEADY[self.i]})
            return
        m = self.sim.guard(f"{self} receives {show(data, 150)}", self.session.receive, data)
        kind = spec.kind_of(m)
        f = spec.read(m)
        where = f"{self} received {kind} {show(f)}"
        if kind == "Goodbye":
            self.state = "left"
            return
        if kind == "Invocation":
            proc = self.reg_of.get(f["registration_id"])
            require(proc is not None, lambda: f"{where} for a registration it does not hold")
            tag = f["args"][0]
            t = next((t for t in self.todo if t[1] == f["request_id"]), None)
            more = f["details"].get("progress", False)
            self.sim.invoked(tag, self, proc, f)
            if t is None:
                self.todo.append([proc, f["request_id"], bool(f["details"].get("receive_progress", False)), tag, 1, not more, 0])
            else:
                require(t[3] == tag, lambda: f"{where}: another call under the invocation ID of call {t[3]}")
                t[4] += 1
                t[5] = not more
            return
        if kind == "Event":
            topic = self.topic_of.get(f["subscription_id"])
            require(topic is not None, lambda: f"{where} for a subscription it does not hold")
            self.events.append((f["args"][0], topic))
            p = self.sim.pubs[f["args"][0]]
            require(p["topic"] == topic, lambda: f"{where}, published to {p['topic']} but subscribed was {topic}")
            require(same(f["args"], p["args"]) and same(f["kwargs"], p["kwargs"]), lambda: f"{where}, published {show(p)}")
            self.sim.ctx.hit("event delivered")
            return
        asked = {"Result": "Call", "Registered": "Register", "Unregistered": "Unregister", "Subscribed": "Subscribe", "Unsubscribed": "Unsubscribe", "Published": "Publish"}.get(kind)
        if kind == "Error":
            asked = {48: "Call", 64: "Register", 66: "Unregister", 32: "Subscribe", 34: "Unsubscribe", 16: "Publish"}[f["message_type"]]
        key = (asked, f["request_id"])
        require(key in self.wait, lambda: f"{where}, which answers nothing it asked")
        info = self.wait[key]
        if kind == "Result" and f["details"].get("progress", False):
            require(info["wants"], lambda: f"{where}: progress that was not asked for")
            require(f["args"][0] == info["tag"] and f["args"][1] == "part" and f["args"][2] == len(info["progress"]) + 1, lambda: f"{where} after {info}")
            info["progress"].append(f["args"][2])
            self.sim.ctx.hit("progressive result")
            return
        del self.wait[key]
        if asked == "Call":
            got = self.sim.answers.get(info["tag"], [])
            if kind == "Error" and f["uri"] == "wamp.error.no_such_procedure":
                require(not got and info["tag"] not in self.sim.seen, lambda: f"{where} for a call that was invoked")
                require(info["tag"] in self.sim.nobody, lambda: f"{where} although {info['proc']} was registered")
                self.sim.ctx.label("no such procedure")
                return
            require(got, lambda: f"{where} for call {info}, which nobody answered")
            want = got[-1]
            parts = [x for x in got if x[0] == "part"]
            require(len(info["progress"]) == len(parts), lambda: f"{where}: {len(info['progress'])} of {len(parts)} progressive results arrived before")
            require((kind == "Error") == (want[0] == "error"), lambda: f"{where}, answered was {want}")
            require(same(f["args"], want[1]) and same(f["kwargs"], want[2]), lambda: f"{where}, answered was {want}")
            if kind == "Error":
                require(f["uri"] == "com.failed", lambda: f"{where}, answered was {want}")
            require(f["kwargs"]["n"] == info.get("parts", 1), lambda: f"{where}: the callee got {f['kwargs']['n']} of {info.get('parts', 1)} parts")
            self.sim.ctx.hit("call returned" if kind == "Result" else "call failed")
            if info.get("parts", 1) > 1:
                self.sim.ctx.hit("progressive call returned")
        elif asked == "Register":
            if kind == "Error":
                require(f["uri"] == "wamp.error.procedure_already_exists" and info in self.sim.taken, lambda: f"{where} for {info}")
                self.sim.ctx.label("already registered")
            else:
                self.reg_of[f["registration_id"]] = info
                if info not in STEADY:
                    self.regs[info] = f["registration_id"]
        elif asked == "Unregister":
            require(kind == "Unregistered", lambda: where)
            del self.reg_of[info[1]]
        elif asked == "Subscribe":
            require(kind == "Subscribed", lambda: where)
            self.subs[info] = f["subscription_id"]
            self.topic_of[f["subscription_id"]] = info
        elif asked == "Unsubscribe":
            require(kind == "Unsubscribed", lambda: where)
            del self.topic_of[info]
        else:
            require(kind == "Published", lambda: where)
            self.sim.ctx.label("acknowledged")


class Sim:
    def __init__(self, case, ctx):
        from wampproto.broker import Broker
        from wampproto.dealer import Dealer

        specs, self.schedule, self.mode = case
        self.ctx = ctx
        self.tags = 0
        self.pubs = {}
        self.sent_pub = 0
        self.answers = {}
        self.answered = set()
        self.seen = {}
        self.nobody = set()
        self.taken = set()
        self.authenticator = hs.server_authenticator(self.decide)
        self.broker, self.dealer = Broker(), Dealer()
        self.clients = [Client(self, i, *s) for i, s in enumerate(specs)]
        for c in self.clients[:2]:
            c.leaves = False
        self.by_sid = {}
        # who is subscribed and who holds what, in the order the router handled the messages
        self.subscribed = {t: {} for t in TOPICS}
        self.held = {}

    def tag(self):
        self.tags += 1
        return self.tags

    def decide(self, r):
        from wampproto import auth

        i = int(r.authid[4:])
        method = self.clients[i].method
        if method.startswith("wampcra"):
            if method == "wampcra":
                return auth.WAMPCRAResponse(r.authid, "user", f"s{i}")
            return auth.WAMPCRASaltedResponse(r.authid, "user", hs.cra_key(f"s{i}", "x", 3, 32).decode(), "x", 3, 32)
        if method == "ticket" and r.ticket != f"t{i}":
            raise hs.Refusal("ticket")
        if method == "cryptosign" and r.public_key != hs.nacl_public(bytes([i + 1]) * 32).hex():
            raise hs.Refusal("key")
        return auth.Response(r.authid, "user")

    def guard(self, what, fn, *args):
        try:
            return fn(*args)
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{what}: raised {type(e).__name__}: {e}") from e

    def invoked(self, tag, client, proc, f):
        caller = next(c for c in self.clients if any(isinstance(v, dict) and v.get("tag") == tag for k, v in c.wait.items()))
        info = next(v for v in caller.wait.values() if isinstance(v, dict) and v.get("tag") == tag)
        where = f"{client} was invoked with {show(f)}"
        require(info["proc"] == proc, lambda: f"{where} for {proc}; called was {info['proc']}")
        require(same(f["args"], [tag, *info["sent"][0]]) and same(f["kwargs"], info["sent"][1]), lambda: f"{where}; called with {show(info['sent'])}")
        require(bool(f["details"].get("receive_progress", False)) == info["wants"], lambda: f"{where}; progress wanted: {info['wants']}")
        require(self.seen.setdefault(tag, client) is client, lambda: f"{where}, so was {self.seen[tag]}")
        require(tag not in self.answered, lambda: f"{where} after it answered")

    def deliver(self, sid, msg, why):
        c = self.by_sid.get(sid)
        require(c is not None, lambda: f"the router addressed {show(msg)} to {sid}, who is not there ({why})", ("C26", "C24"))
        c.down.append(self.guard(f"the router serializes {show(msg)} for {c}", c.router_ser.serialize, msg))

    def router(self, c, data):
        if c.router_sid is None:
            out, final = self.guard(f"the router receives {show(data, 150)} from {c}", c.acceptor.receive, data)
            require(out is not None and not c.acceptor.is_aborted(), lambda: f"the router aborted the handshake of {c} after {show(data, 150)}")
            c.down.append(out)
            if final:
                d = self.guard(f"the router reads the session details of {c}", c.acceptor.get_session_details)
                c.router_sid = d.session_id
                self.by_sid[c.router_sid] = c
                self.guard(f"{c} joins the broker", self.broker.add_session, d)
                self.guard(f"{c} joins the dealer", self.dealer.add_session, d)
            return
        sid = c.router_sid
        m = self.guard(f"the router decodes {show(data, 150)} from {c}", c.router_ser.deserialize, data)
        kind = spec.kind_of(m)
        where = f"the router handles {show(m)} from {c}"
        if kind == "Goodbye":
            self.guard(where, self.broker.remove_session, sid)
            self.guard(where, self.dealer.remove_session, sid)
            for t in TOPICS:
                self.subscribed[t].pop(sid, None)
            for p in [p for p, h in self.held.items() if h[0] == sid]:
                del self.held[p]
            self.deliver(sid, spec.build("Goodbye", {"details": {}, "reason": "wamp.close.goodbye_and_out"}), where)
            del self.by_sid[sid]
            self.ctx.label("left")
            return
        if kind == "Publish":
            pub = self.guard(where, self.broker.receive_publish, sid, m)
            self.pubs[m.args[0]]["to"] = sorted(self.by_sid[x].i for x in self.subscribed[m.topic])
            if pub.recipients:
                for x in pub.recipients:
                    self.deliver(x, pub.event, where)
            if pub.ack is not None:
                self.deliver(pub.ack.recipient, pub.ack.message, where)
            return
        if kind in ("Subscribe", "Unsubscribe"):
            out = self.guard(where, self.broker.receive_message, sid, m)
            if kind == "Subscribe":
                self.subscribed[m.topic][sid] = out.message.subscription_id
            else:
                for t in TOPICS:
                    if self.subscribed[t].get(sid) == m.subscription_id:
                        del self.subscribed[t][sid]
        else:
            if kind == "Call" and m.procedure not in self.held:
                self.nobody.add(m.args[0])
            out = self.guard(where, self.dealer.receive_message, sid, m)
            if kind == "Register":
                if m.procedure in self.held:
                    self.taken.add(m.procedure)
                else:
                    self.held[m.procedure] = (sid, getattr(out.message, "registration_id", None))
            elif kind == "Unregister":
                for p in [p for p, h in self.held.items() if h == (sid, m.registration_id)]:
                    del self.held[p]
        if out is not None:
            self.deliver(out.recipient, out.message, where)

    def run(self):
        # the first two hold the steady procedures before anything else
        for c in self.clients[:2]:
            for _ in range(12):
                for a in ("hello", "up", "down"):
                    if a in c.actions():
                        c.do(a, 0)
                        break
            require(c.state == "joined" and not c.wait, lambda: f"{c} did not join: {c.state} {c.wait}")
        for k in self.schedule:
            self.step(k)
        k = 0
        for n in range(20000):
            k += 1 + self.mode
            if not self.step(k):
                break
        else:
            raise Violation("the exchange does not end")
        for c in self.clients:
            if c.state in ("joined", "left"):
                require(not c.wait, lambda: f"{c} never got an answer to {c.wait}")
                require(not c.todo, lambda: f"{c} was never told the rest of {c.todo}")
            else:
                raise Violation(f"{c} never joined: {c.state}")
        for tag, p in self.pubs.items():
            if p["to"] is None:
                raise Violation(f"publication {p} never reached the router")
            got = sorted(c.i for c in self.clients for e in c.events if e[0] == tag)
            # whoever left may have missed it
            gone = {c.i for c in self.clients if c.state == "left"}
            want = [i for i in p["to"] if i not in gone or i in got]
            require(got == want, lambda: f"publication {p} reached clients {got}, subscribed were {p['to']}")

    def step(self, k):
        enabled = [(c, a) for c in self.clients for a in c.actions()]
        if not enabled:
            return False
        c, a = enabled[k % len(enabled)] if k < 8 else enabled[(k * 7 + len(enabled)) % len(enabled)]
        c.do(a, k)
        return True


def check(case, ctx):
    Sim(case, ctx).run()
    ctx.label(f"{len(case[0])} clients")


RELATIONS = [Relation("simulation", cases, check, 3000)]
ASSUMPTIONS = [
    "applications: no request before joining; unregister and unsubscribe only what was confirmed, once; subscribe once per topic",
    "a callee answers a progressive call finally only after its last part, and holds the procedure until then; nobody leaves with requests outstanding",
    "payloads every serializer can represent",
]
