"""Work under way on one object while other objects are worked on: from other threads, and from within callbacks."""
import os
import sys
import threading

from hypothesis import strategies as st

from vf import env, gen, spec
from vf.core import Relation, attempt, clone, require, same, show
from vf.props import c27

RULE = (
    "threads: two or three histories (session, broker, dealer, ID generator, handshake, codec, decoding, signing), each in a thread of its own, and a schedule that "
    "says after how many lines (or bytecodes) of the library which thread runs next; non-trivial when a thread was stopped in the middle of an "
    "operation; moved: one history whose steps are done by different threads in turn; callbacks: one history whose messages, serializer and authenticator are the user's and carry the other history on whenever the library "
    "calls them; non-trivial when they did"
)

LIB = os.path.join(env.REPO, "wampproto") + os.sep


class Scheduler:
    """One thread runs at a time; which, changes only inside the library, as the schedule says.

    A thread that waits for something other than its turn (a lock of the library's, say) stops this: from then on all run freely.
    """

    def __init__(self, n, schedule, fine):
        self.turns = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.schedule, self.at, self.fine = schedule, 0, fine
        self.free, self.ticks, self.switches = False, 0, 0
        self.left = 1

    def choose(self, me):
        """Who runs next, and for how long."""
        lines, who = self.schedule[self.at % len(self.schedule)]
        self.at += 1
        self.left = lines
        others = sorted(self.alive - {me})
        return others[who % len(others)] if others else me

    def hand_over(self, me, to):
        self.turns[to].release()
        if me in self.alive:
            self.wait(me)

    def wait(self, me):
        while not self.free:
            seen = self.ticks
            if self.turns[me].acquire(timeout=1.0):
                return
            if self.ticks == seen and not self.free:
                self.free = True
                for t in self.turns:
                    t.release()

    def tick(self, me):
        self.ticks += 1
        self.left -= 1
        if self.left > 0 or self.free:
            return
        to = self.choose(me)
        if to != me:
            self.switches += 1
            self.hand_over(me, to)

    def tracer(self, me):
        event_name = "opcode" if self.fine else "line"

        def local(frame, event, arg):
            if event == event_name:
                self.tick(me)
            return local

        def enter(frame, event, arg):
            if not frame.f_code.co_filename.startswith(LIB):
                return None
            if self.fine:
                frame.f_trace_opcodes = True
            return local

        return enter

    def run(self, bodies):
        out = [None] * len(bodies)

        def body(i):
            self.wait(i)
            sys.settrace(self.tracer(i))
            try:
                out[i] = ("ok", bodies[i]())
            except BaseException as e:  # noqa: BLE001
                out[i] = ("err", f"{type(e).__name__}: {e}")
            finally:
                sys.settrace(None)
                self.alive.discard(i)
                self.left = 1
                if self.alive and not self.free:
                    self.turns[self.choose(i)].release()

        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(bodies))]
        for t in threads:
            t.start()
        self.turns[0].release()
        for t in threads:
            t.join(60)
        return out, any(t.is_alive() for t in threads)


class SharedCodec(c27.Codec):
    """Serializers hold nothing, so that several threads may use one."""

    def __init__(self, case):
        super().__init__(case)
        self.sers = SHARED


SHARED = {}
PROGRAMS = {**c27.PROGRAMS, "shared codec": SharedCodec}
KINDS = (
    [(k, k) for k in ("session", "broker", "dealer", "handshake")] * 4 + [("codec", "codec"), ("decode", "decode"), ("signing", "signing"), ("shared codec", "shared codec")] * 2
    + [("ids", "ids"), ("session", "dealer"), ("broker", "dealer"), ("handshake", "session"), ("codec", "broker"), ("decode", "session"), ("decode",) * 3, ("signing", "handshake"), ("session",) * 3, ("dealer",) * 3, ("handshake",) * 3, ("broker", "session", "dealer"), ("ids",) * 3]
)


def program(kind):
    if kind == "session":
        return c27.sm.history(c27.sm.WEIGHTED, bursts=False, size=12)
    if kind == "broker":
        return c27.rm.broker_history(size=12)
    if kind == "dealer":
        return c27.rm.dealer_history(size=12)
    return c27.program("codec" if kind == "shared codec" else kind)


def schedules():
    turn = st.tuples(st.one_of(st.integers(1, 4), st.integers(1, 40), st.integers(1, 400)), st.integers(0, 2))
    # a thread stopped at one place or two while another gets far
    far = st.lists(st.tuples(st.one_of(st.integers(1, 30), st.integers(1, 300), st.integers(1, 3000)), st.integers(0, 2)), min_size=1, max_size=3).map(lambda ks: [x for k in ks for x in (k, (100000, 0))])
    return st.one_of(st.lists(turn, min_size=1, max_size=40), far, st.sampled_from(([(1, 0)], [(2, 0)], [(3, 0)], [(7, 0), (11, 0)], [(1, 0), (17, 0)], [(5, 0), (60, 0)])))


def varied(kind, x, i):
    """The same history for the i-th object; where all would do the very same, with other secrets and names."""
    if kind == "signing":
        return [(what, a + i, b, c) for what, a, b, c in x]
    if kind == "handshake":
        name, cred, good, salt = x
        return (name, {**cred, "authid": ("joe", "ann", "eve")[i], "secret": f"s{i}", "ticket": f"t{i}", "seed": bytes([1 + i]) * 32}, good, salt)
    return x


def threads():
    def per(k):
        progs = st.tuples(*map(program, k))
        if len(set(k)) == 1:
            progs = st.one_of(progs, program(k[0]).map(lambda x: tuple(varied(k[0], clone(x), i) for i in range(len(k)))))
        return st.tuples(st.just(k), progs, schedules(), st.sampled_from((False, False, True)))

    return st.sampled_from(KINDS).flatmap(per)


def play(kind, case, steps):
    obj = PROGRAMS[kind](case)
    return [obj.step(clone(x)) for x in steps]


def at_once(progs, schedule, fine):
    SHARED.clear()
    for name in gen.SERIALIZERS:
        SHARED[name] = gen.serializer(name)
    s = Scheduler(len(progs), schedule, fine)
    out, stuck = s.run([lambda p=p: play(*p) for p in progs])
    return out, stuck, s.switches, s.free


def prepared(kinds, cases):
    c27.loaded()
    progs, apart = [], []
    for kind, c in zip(kinds, cases):
        steps = c27.in_child(PROGRAMS[kind].prepare, c)
        progs.append((kind, c, steps))
        apart.append(c27.in_child(play, kind, c, steps))
    return progs, apart


def check_threads(case, ctx):
    kinds, cases, schedule, fine = case
    progs, apart = prepared(kinds, cases)
    out, stuck, switches, free = c27.in_child(at_once, progs, schedule, fine)
    require(not stuck, lambda: f"threads with {kinds} wait for each other forever")
    for i, kind in enumerate(kinds):
        s, got = out[i]
        require(s == "ok", lambda: f"the {kind} history, with {kinds} in threads besides: {got}")
        for j, (x, y) in enumerate(zip(apart[i], got)):
            require(same(x, y), lambda: f"step {j} of the {kind} history, {show(progs[i][2][j])}, gave {show(y)} while other threads work on other objects, {show(x)} alone")
    ctx.label("+".join(kinds), "ran freely" if free else "bytecodes" if fine else "lines")
    if switches:
        ctx.hit("switched")


# --------------------------------------------------------------------------------------------------------------- moved


class Hand:
    """A thread that does one step after the other, when told to."""

    def __init__(self):
        import queue

        self.todo, self.done = queue.SimpleQueue(), queue.SimpleQueue()
        threading.Thread(target=self.work, daemon=True).start()

    def work(self):
        while True:
            fn, args = self.todo.get()
            self.done.put(attempt(fn, *args))

    def do(self, fn, *args):
        self.todo.put((fn, args))
        s, v = self.done.get()
        if s == "err":
            raise v
        return v


def moved():
    kinds = st.sampled_from(["session", "broker", "dealer", "handshake", "ids", "codec", "signing"])
    return kinds.flatmap(lambda k: st.tuples(st.just((k,)), st.tuples(program(k)), st.one_of(st.lists(st.integers(0, 3), min_size=1, max_size=30), st.just([3]), st.just([0, 1]))))


def passed_on(prog, order):
    kind, case, steps = prog
    hands = {i: Hand() for i in {*order, order[-1]} if i != 3}
    do = lambda i, fn, *a: (hands[i] if i != 3 else Hand()).do(fn, *a)  # noqa: E731
    obj = do(order[-1], PROGRAMS[kind], case)
    return [do(order[j % len(order)], obj.step, clone(x)) for j, x in enumerate(steps)]


def check_moved(case, ctx):
    kinds, cases, order = case
    progs, apart = prepared(kinds, cases)
    got = c27.in_child(passed_on, progs[0], order)
    for j, (x, y) in enumerate(zip(apart[0], got)):
        require(same(x, y), lambda: f"step {j} of the {kinds[0]} history, {show(progs[0][2][j])}, gave {show(y)} with the object passed from thread to thread, {show(x)} in one thread")
    ctx.label(kinds[0])
    if len(got) > 1 and len({*order, 3 if order == [3] else order[0]}) > 1 or order == [3]:
        ctx.hit("passed on")


# ----------------------------------------------------------------------------------------------------------- callbacks


class Within:
    """Carries a history on whenever the library calls the user's code, as the schedule says."""

    def __init__(self, prog, schedule):
        self.kind, self.case, self.steps = prog
        self.schedule, self.calls, self.at, self.busy = schedule, 0, 0, False
        self.obj, self.out, self.within = None, [], 0

    def one(self):
        if self.at < len(self.steps):
            self.obj = PROGRAMS[self.kind](self.case) if self.obj is None else self.obj
            self.out.append(self.obj.step(clone(self.steps[self.at])))
            self.at += 1

    def __call__(self):
        if self.busy:
            return
        n = self.schedule[self.calls % len(self.schedule)]
        self.calls += 1
        self.busy = True
        style, spec.STYLE = spec.STYLE, None
        try:
            for _ in range(n):
                self.within += self.at < len(self.steps)
                self.one()
        finally:
            spec.STYLE = style
            self.busy = False


def interrupted(outer, inner, schedule):
    """The outer history with the user's parts, the inner one carried on from within them (inner None: not)."""
    from wampproto.serializers import Serializer

    within = None if inner is None else Within(inner, schedule)
    busy = [False]

    def call():
        if within is not None and not busy[0]:
            within()

    class Between(Serializer):
        def __init__(self, under):
            self.under = under

        def serialize(self, message):
            call()
            data = self.under.serialize(message)
            call()
            return data

        def deserialize(self, data):
            call()
            m = self.under.deserialize(data)
            call()
            return m

    kind, case, steps = outer
    made = gen.serializer
    out = []
    with spec.styled("fresh"):
        spec.HOOK = call
        try:
            if kind in ("session", "handshake"):
                gen.serializer = lambda name: Between(made(name))
            obj = PROGRAMS[kind](case)
            gen.serializer = made
            if kind == "handshake":
                decide = obj.decide

                def asked(r):
                    call()
                    answer = decide(r)
                    call()
                    return answer

                obj.decide = asked
            for x in steps:
                out.append(obj.step(clone(x)))
        finally:
            spec.HOOK = None
            gen.serializer = made
    if within is None:
        return out, None, 0
    while within.at < len(within.steps):
        within.one()
    return out, within.out, within.within


OUTER = ("session", "broker", "dealer", "handshake", "handshake", "codec")
INNER = ("session", "broker", "dealer", "handshake", "codec", "decode", "ids", "signing")


def callbacks():
    def per(k):
        pair = st.tuples(*map(program, k))
        if k[0] == k[1]:
            pair = st.one_of(pair, program(k[0]).map(lambda x: (x, varied(k[0], clone(x), 1))))
        once = st.tuples(st.integers(0, 40), st.integers(1, 12)).map(lambda t: [0] * t[0] + [t[1]] + [0] * 400)
        return st.tuples(st.just(k), pair, st.one_of(st.just([1]), once, once, st.lists(st.integers(0, 3), min_size=1, max_size=30).filter(any)))

    pairs = [(o, i) for o in OUTER for i in (o, o, o, *INNER)]
    return st.sampled_from(pairs).flatmap(per)


def check_callbacks(case, ctx):
    kinds, cases, schedule = case
    progs, apart = prepared(kinds, cases)
    alone = c27.in_child(interrupted, progs[0], None, schedule)[0]
    outer, inner, n = c27.in_child(interrupted, progs[0], progs[1], schedule)
    for name, kind, steps, want, got in (("outer", kinds[0], progs[0][2], alone, outer), ("inner", kinds[1], progs[1][2], apart[1], inner)):
        for j, (x, y) in enumerate(zip(want, got)):
            require(same(x, y), lambda: f"step {j} of the {name} {kind} history, {show(steps[j])}, gave {show(y)} with the inner one carried on from the user's code that the outer one calls, {show(x)} alone")
    ctx.label("in ".join(reversed(kinds)))
    if n:
        ctx.hit("carried on")


RELATIONS = [Relation("moved", moved, check_moved, 500, 8000, fuzz=False), Relation("threads", threads, check_threads, 1200, 20000, fuzz=False), Relation("callbacks", callbacks, check_callbacks, 1000, 20000, fuzz=False)]
ASSUMPTIONS = [
    "each session, router part, generator, handshake side and authenticator is used by one thread at a time (though by one after the other); only serializers and the library's functions are shared by threads",
    "from within a callback only other objects are used, not the one that is calling",
]
