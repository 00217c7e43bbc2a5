import contextlib
import random
import secrets

from hypothesis import strategies as st

from vf import handshake as hs, spec
from vf.core import Relation, require

RULE = (
    "a case is a number of draws from one or several generators (or a sample of session IDs); it is non-trivial when "
    "generators are interleaved, wrap around, or at least 100 IDs are drawn"
)
MAX = 2**53


def check_sequence(case, ctx):
    """Several generators, advanced in the given order and amounts."""
    from wampproto.idgen import SessionScopeIDGenerator

    gens, want = {}, {}
    for who, n in case:
        g = gens.setdefault(who, None)
        if g is None:
            g = gens[who] = SessionScopeIDGenerator()
            want[who] = 0
        for _ in range(n):
            want[who] += 1
            got = g.next()
            require(type(got) is int and got == want[who], lambda: f"generator {who} gave {got!r}, expected {want[who]}")
    if len(gens) > 1:
        ctx.hit("interleaved")
    if sum(n for _, n in case) >= 100:
        ctx.hit("100 or more draws")


def sequences():
    return st.lists(st.tuples(st.integers(0, 3), st.one_of(st.integers(0, 5), st.sampled_from([50, 99, 127, 255, 256, 257, 1000, 1023, 1025, 5000]))), max_size=10)


def check_long(case, ctx):
    from wampproto.idgen import SessionScopeIDGenerator

    (n,) = case
    g = SessionScopeIDGenerator()
    for i in range(1, n + 1):
        got = g.next()
        require(got == i, lambda: f"draw {i} gave {got!r}")
    ctx.hit("long run")


def _ints(g):
    names = set(getattr(g, "__dict__", ()))
    for c in type(g).__mro__:
        slots = getattr(c, "__slots__", ())
        names |= {slots} if isinstance(slots, str) else set(slots)
    return {n: getattr(g, n) for n in names if type(getattr(g, n, None)) is int}


def _positions(g):
    """The generator's own counter, found as the attribute that follows the IDs it gives out (None: not found)."""
    a = g.next()
    before = _ints(g)
    b = g.next()
    after = _ints(g)
    names = [k for k in before if before[k] in (a - 1, a, a + 1) and after.get(k) == before[k] + 1 and b == a + 1]
    return (names[0], before[names[0]] - a) if len(names) == 1 else None


def check_wrap(case, ctx):
    """2^53 draws cannot be made one by one: place the counter shortly before the end and draw across it."""
    from wampproto.idgen import SessionScopeIDGenerator

    back, draws = case
    g = SessionScopeIDGenerator()
    pos = _positions(g)
    if pos is None:
        ctx.label("counter not found")
        return
    name, off = pos
    # only places a counter is sure to come by: just after 2^53 was given it may already have started again.
    back = max(back, 1)
    setattr(g, name, 1000 + off)
    if g.next() != 1001:
        ctx.label("counter not settable")
        return
    last = MAX - back
    setattr(g, name, last + off)
    want = last
    for _ in range(draws):
        want = 1 if want == MAX else want + 1
        got = g.next()
        require(type(got) is int and got == want, lambda: f"after {want - 1 or MAX} the generator gave {got!r}, expected {want}")
    ctx.hit("wrapped" if draws > back else "large")


@contextlib.contextmanager
def extreme_random(pick):
    """Every way of drawing a random integer returns an end of its range.

    Only the first draws do: code that draws again until a value suits must come to an end."""
    saved = {}
    left = [3]

    def put(mod, name, fn):
        real = saved[(mod, name)] = getattr(mod, name)

        def draw(*args, **kwargs):
            left[0] -= 1
            return fn(*args, **kwargs) if left[0] >= 0 else real(*args, **kwargs)

        setattr(mod, name, draw)

    def rr(start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        n = (stop - start + step - 1) // step
        return start + step * (0 if pick == "low" else n - 1)

    put(random, "randint", lambda a, b: a if pick == "low" else b)
    put(random, "randrange", rr)
    put(random, "getrandbits", lambda k: 0 if pick == "low" else (1 << k) - 1)
    put(random, "random", lambda: 0.0 if pick == "low" else 1 - 2**-53)
    put(secrets, "randbelow", lambda n: 0 if pick == "low" else n - 1)
    put(secrets, "randbits", lambda k: 0 if pick == "low" else (1 << k) - 1)
    try:
        yield
    finally:
        for (mod, name), v in saved.items():
            setattr(mod, name, v)


def check_session_ids(case, ctx):
    from wampproto.idgen import generate_session_id

    (seed, n) = case
    random.seed(seed)
    got = [generate_session_id() for _ in range(n)]
    for x in got:
        require(type(x) is int and 1 <= x <= MAX, lambda: f"session ID {x!r}")
    # chance of a repeat among 4000 of 2^53 values: below 1e-9
    require(len(set(got)) == len(got), lambda: f"{len(got) - len(set(got))} of {len(got)} session IDs repeat")
    if n >= 1000:
        # each of 16 equal parts of the range and each value of the low four bits is met; 16*(15/16)^1000 < 1e-26
        require({(x - 1) >> 49 for x in got} == set(range(16)), "session IDs do not cover the whole range")
        for shift in range(0, 53, 4):
            require(len({(x >> shift) & 15 for x in got}) >= (16 if shift <= 48 else 2), lambda: f"bits {shift}.. of session IDs hardly vary")
        require(max(got) > MAX - MAX // 50 and min(got) < MAX // 50, "the ends of the range are never met")
        # 16 equal parts, expected n/16 each: 8 standard deviations away has a chance below 1e-14
        for part in range(16):
            k = sum(1 for x in got if (x - 1) >> 49 == part)
            require(abs(k - n / 16) < 8 * (n * 15 / 256) ** 0.5, lambda: f"{k} of {n} session IDs are in part {part} of 16 of the range, expected about {n // 16}")
        for bit in range(53):
            k = sum(x >> bit & 1 for x in got)
            require(abs(k - n / 2) < 8 * (n / 4) ** 0.5, lambda: f"bit {bit} is set in {k} of {n} session IDs")
        diffs = {b - a for a, b in zip(got, got[1:])}
        require(len(diffs) > n // 2, "session IDs follow a fixed step")
        ctx.hit("1000 or more session IDs")


def check_extremes(case, ctx):
    """At the ends of every underlying random draw the ID is still in range."""
    from wampproto.idgen import generate_session_id

    (pick,) = case
    with extreme_random(pick):
        x = generate_session_id()
    require(type(x) is int and 1 <= x <= MAX, lambda: f"session ID {x!r} at the {pick} end of the random draw")
    ctx.hit("extreme draw")


SEED = bytes(range(32))


def join(method):
    """The WELCOME of a new router-side handshake."""
    from wampproto import auth, messages
    from wampproto.acceptor import Acceptor

    hello = {"realm": "r", "roles": {"caller": {}}}
    if method is None:
        return Acceptor().receive_message(messages.Hello(messages.HelloFields(**hello)))
    grant = (lambda r: auth.WAMPCRAResponse("joe", "user", "secret")) if method == "wampcra" else (lambda r: auth.Response("joe", "user"))
    a = Acceptor(authenticator=hs.server_authenticator(grant))
    extra = {"pubkey": hs.nacl_public(SEED).hex()} if method == "cryptosign" else None
    v = a.receive_message(spec.build("Hello", {**hello, "authid": "joe", "authmethods": [method], "authextra": extra}))
    if method == "anonymous":
        return v
    proof = {"ticket": lambda: "t", "wampcra": lambda: hs.cra_sign(b"secret", v.extra["challenge"]), "cryptosign": lambda: hs.cs_proof(SEED, v.extra["challenge"])}[method]()
    return a.receive_message(spec.build("Authenticate", {"signature": proof, "extra": {}}))


def check_handshake_ids(case, ctx):
    """IDs that routers hand out in WELCOME come from the same range and do not repeat."""
    method, n = case
    seen = set()
    for _ in range(n):
        w = join(method)
        require(type(w.session_id) is int and 1 <= w.session_id <= MAX, lambda: f"WELCOME carries session ID {w.session_id!r}")
        require(w.session_id not in seen, lambda: f"session ID {w.session_id} was given to two sessions")
        seen.add(w.session_id)
    # chance of an empty eighth among 400: below 1e-22
    require(n < 400 or {(x - 1) >> 50 for x in seen} == set(range(8)), "session IDs of handshakes do not cover the range")
    require(n < 200 or max(seen) > MAX // 2, "session IDs of handshakes stay in a narrow range")
    ctx.hit("handshakes")


RELATIONS = [
    Relation("sequence", sequences, check_sequence, 2000),
    Relation("long", None, check_long, cases=lambda tier: [(70000,), (200000,)] + ([(5000000,)] if tier == "thorough" else [])),
    Relation("wrap", lambda: st.tuples(st.one_of(st.integers(0, 6), st.integers(0, 2**53 - 2)), st.integers(1, 12)), check_wrap, 3000),
    Relation("session-ids", None, check_session_ids, cases=lambda tier: [(s, 4000) for s in range(16 if tier == "quick" else 400)]),
    Relation("extremes", None, check_extremes, cases=lambda tier: [("low",), ("high",)]),
    Relation("handshakes", None, check_handshake_ids, cases=lambda tier: [(m, 400) for m in (None, "anonymous", "ticket", "wampcra", "cryptosign")]),
]
ASSUMPTIONS = [
    "the wrap at 2^53 is reached by placing the generator's own counter (found by observing it) shortly before the end",
    "the statistical assertions on session IDs have a false-alarm probability below 1e-9 per run and use a fixed seed of Python's generator",
]
