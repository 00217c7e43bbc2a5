import contextlib
import datetime
import json
import os
import random
import re
import time
import zlib

from hypothesis import strategies as st

from vf import gen, handshake as hs, spec
from vf.core import Relation, require, same, show

RULE = (
    "format: one challenge under a generated identity, time zone and clock; handshake: the challenge of a WAMP-CRA handshake and the WELCOME after it; fresh: several challenges with the default random "
    "generator reset (and clocks stopped) before each; sample: 3000 challenges examined for repeats and structure; non-trivial "
    "when a challenge was issued, distinct by case"
)
REAL = datetime.datetime
ZONES = ("UTC", "America/New_York", "Asia/Tokyo", "Asia/Kolkata", "Pacific/Apia", "XYZ+11:30", "ABC-13", "Europe/Berlin")
CHALLENGERS = ("cryptosign", "wampcra", "acceptor-cryptosign", "acceptor-wampcra")


@contextlib.contextmanager
def zone(name):
    old = os.environ.get("TZ")
    os.environ["TZ"] = name
    time.tzset()
    try:
        yield
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()


@contextlib.contextmanager
def clock(epoch_us):
    """Stop the clock at this instant, for code that asks the datetime or time modules."""
    if epoch_us is None:
        yield
        return
    utc = REAL(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(microseconds=epoch_us)

    class Fake(REAL):
        @classmethod
        def now(cls, tz=None):
            return utc.astimezone(tz) if tz is not None else utc.astimezone().replace(tzinfo=None)

        @classmethod
        def utcnow(cls):
            return utc.replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    saved = {n: getattr(time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns")}
    datetime.datetime = Fake
    for n in saved:
        setattr(time, n, (lambda: epoch_us * 1000) if n.endswith("_ns") else (lambda: epoch_us / 1e6))
    for n in ("gmtime", "localtime"):
        f = saved[n] = getattr(time, n)
        setattr(time, n, lambda s=None, f=f: f(epoch_us // 10**6 if s is None else s))
    strftime = saved["strftime"] = time.strftime
    time.strftime = lambda fmt, t=None: strftime(fmt, time.localtime() if t is None else t)
    try:
        yield
    finally:
        datetime.datetime = REAL
        for n, f in saved.items():
            setattr(time, n, f)


def issue(kind, sid=1, authid="joe", role="user", provider="dynamic"):
    """(challenge text, its random part)"""
    from wampproto import auth
    from wampproto.acceptor import Acceptor

    if kind == "cryptosign":
        c = auth.generate_cryptosign_challenge()
        return c, c
    if kind == "wampcra":
        c = auth.generate_wampcra_challenge(sid, authid, role, provider)
        return c, json.loads(c)["nonce"]
    m = kind.split("-")[1]
    a = Acceptor(gen.serializer("cbor"), hs.server_authenticator(lambda r: auth.WAMPCRAResponse(authid, role, "s")))
    extra = {"pubkey": "ab" * 32} if m == "cryptosign" else None
    v = a.receive_message(spec.build("Hello", {"realm": "r", "roles": {"caller": {}}, "authid": authid, "authmethods": [m], "authextra": extra}))
    c = v.extra["challenge"]
    return c, c if m == "cryptosign" else json.loads(c)["nonce"]


def format_cases():
    instant = st.one_of(
        st.none(), st.none(), st.integers(0, 4_000_000_000_000_000),
        st.tuples(st.integers(0, 4_000_000_000), st.sampled_from([0, 1, 999, 1000, 999_999, 999_000, 1_500, 999_500, 500_000, 99_999, 9_000])).map(lambda t: t[0] * 10**6 + t[1]),
    )
    name = st.one_of(gen.text(), gen.text(), gen.text(), st.tuples(gen.short_text(), st.sampled_from(("\ud800", "\udfff", "\udc80\udc80", "\ud83d")), gen.short_text()).map("".join))
    return st.tuples(gen.ids(), name, name, name, st.sampled_from(ZONES), instant)


def check_format(case, ctx):
    from wampproto import auth

    sid, authid, role, provider, tz, instant = case
    with zone(tz):
        t0 = time.time()
        with clock(instant):
            text, _ = issue("wampcra", sid, authid, role, provider)
            cs = auth.generate_cryptosign_challenge()
        t1 = time.time()
    require(type(cs) is str and re.fullmatch(r"[0-9a-f]{64}", cs), lambda: f"cryptosign challenge {cs!r}")
    d = json.loads(text)
    require(type(d) is dict, lambda: f"challenge {text!r}")
    want = {"authprovider": provider, "authid": authid, "authrole": role, "authmethod": "wampcra", "session": sid}
    require({*d} == {*want, "nonce", "timestamp"}, lambda: f"challenge has the keys {sorted(d)}")
    for k, v in want.items():
        require(same(d[k], v), lambda: f"challenge has {k}={d[k]!r}, given {v!r}")
    require(type(d["nonce"]) is str and re.fullmatch(r"[0-9a-f]{32}", d["nonce"]), lambda: f"nonce {d['nonce']!r}")
    m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)\.(\d{3})Z", d["timestamp"]) if type(d["timestamp"]) is str else None
    require(m, lambda: f"timestamp {d['timestamp']!r}")
    p = [int(x) for x in m.groups()]
    got = REAL(*p[:6], p[6] * 1000, tzinfo=datetime.timezone.utc).timestamp()
    now = t0 - 0.002 <= got <= t1 + 0.002
    stopped = instant is not None and abs(got - instant / 1e6) <= 0.001
    require(now or stopped, lambda: f"timestamp {d['timestamp']!r} ({got}) with TZ={tz}; the time was {t0} to {t1}" + (f", or {instant / 1e6} by the stopped clock" if instant is not None else ""))
    ctx.hit("clock stopped" if stopped else "real time", tz)


def handshake_cases():
    return st.tuples(st.sampled_from(gen.SERIALIZERS), gen.short_text(), hs.names(), hs.names(), hs.names(), hs.secrets(), st.one_of(st.none(), hs.salting()), st.booleans())


def check_handshake(case, ctx):
    """The WAMP-CRA challenge of a handshake is about the session it leads to."""
    from wampproto import auth
    from wampproto.acceptor import Acceptor

    ser, realm, asked, authid, role, secret, salt, wire = case

    def grant(r):
        if salt is None:
            return auth.WAMPCRAResponse(authid, role, secret)
        return auth.WAMPCRASaltedResponse(authid, role, secret, *salt)

    a = Acceptor(gen.serializer(ser), hs.server_authenticator(grant))
    s = gen.serializer(ser)

    def tell(m):
        return s.deserialize(a.receive(s.serialize(m))[0]) if wire else a.receive_message(m)

    c = tell(spec.build("Hello", {"realm": realm, "roles": {"caller": {}}, "authid": asked, "authmethods": ["wampcra"]}))
    require(spec.kind_of(c) == "Challenge", lambda: f"HELLO was answered with {show(c)}")
    d = json.loads(c.extra["challenge"])
    w = tell(spec.build("Authenticate", {"signature": hs.cra_sign(secret.encode(), c.extra["challenge"]), "extra": {}}))
    require(spec.kind_of(w) == "Welcome", lambda: f"the right signature was answered with {show(w)}")
    want = {"session": w.session_id, "authid": authid, "authrole": role, "authmethod": "wampcra"}
    for k, v in want.items():
        require(same(d.get(k), v), lambda: f"the challenge of session {w.session_id} ({authid!r}, {role!r}) has {k}={d.get(k)!r}")
    ctx.hit("handshake")


def fresh_cases():
    return st.tuples(st.sampled_from(CHALLENGERS), st.integers(0, 2**40), st.integers(2, 6), st.sampled_from(("seed", "state", "same-seed")), st.one_of(st.none(), st.integers(0, 2 * 10**15)))


def check_fresh(case, ctx):
    kind, seed, n, how, instant = case
    keep = random.getstate()
    try:
        random.seed(seed)
        state = random.getstate()
        seen = []
        for i in range(n):
            if how == "state":
                random.setstate(state)
            else:
                random.seed(seed)
            with clock(instant):
                seen.append(issue(kind))
        require(len({c for c, _ in seen}) == n, lambda: f"{kind}: with the random generator reset the challenges are {seen[:3]}")
        require(len({r for _, r in seen}) == n, lambda: f"{kind}: with the random generator reset the nonces are {[r for _, r in seen[:3]]}")
        # what someone who knows the state would predict
        random.setstate(state)
        raw = [bytes.fromhex(r) for _, r in seen]
        guess = set()
        for size in (16, 32):
            random.setstate(state)
            guess |= {random.randbytes(size) for _ in range(8)}
            random.setstate(state)
            guess |= {random.getrandbits(size * 8).to_bytes(size, "big") for _ in range(4)}
            random.setstate(state)
            guess |= {bytes(random.choices(range(256), k=size)), bytes(random.getrandbits(8) for _ in range(size))}
        require(not guess & set(raw), lambda: f"{kind}: a challenge was foretold from the state of the random generator")
    finally:
        random.setstate(keep)
    ctx.hit(kind, how)


def check_sample(case, ctx):
    kind, n = case
    seen = [issue(kind) for _ in range(n)]
    require(len({c for c, _ in seen}) == n and len({r for _, r in seen}) == n, lambda: f"{kind}: {n - len({r for _, r in seen})} of {n} challenges repeat")
    raw = [bytes.fromhex(r) for _, r in seen]
    size = len(raw[0])
    require(all(len(r) == size for r in raw) and size == (32 if kind.endswith("cryptosign") else 16), lambda: f"{kind}: sizes {sorted({len(r) for r in raw})}")
    for bit in range(size * 8):
        ones = sum(r[bit // 8] >> (bit % 8) & 1 for r in raw)
        require(abs(ones - n / 2) < 5 * n**0.5, lambda: f"{kind}: bit {bit} is set in {ones} of {n} challenges")
    for i in range(size):
        for j in range(i):
            eq = sum(r[i] == r[j] for r in raw)
            require(eq < n / 20, lambda: f"{kind}: bytes {j} and {i} are equal in {eq} of {n} challenges")
    blob = b"".join(raw)
    packed = len(zlib.compress(blob, 9))
    require(packed > 0.99 * len(blob), lambda: f"{kind}: {len(blob)} random bytes compress to {packed}")
    halves = {r[k:k + 8] for r in raw for k in range(0, size, 8)}
    require(len(halves) == n * size // 8, lambda: f"{kind}: parts of challenges repeat")
    ctx.hit(f"sample {kind}")


def check_fork(case, ctx):
    """Processes forked from one router do not issue each other's challenges."""
    (kind,) = case
    issue(kind)
    got = []
    for _ in range(3):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.write(w, issue(kind)[1].encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            got.append(f.read().decode())
        os.waitpid(pid, 0)
    got += [issue(kind)[1] for _ in range(3)]
    require(len(set(got)) == len(got), lambda: f"{kind}: challenges of forked processes repeat: {got}")
    ctx.hit(f"fork {kind}")


RELATIONS = [
    Relation("format", format_cases, check_format, 5000),
    Relation("handshake", handshake_cases, check_handshake, 2000),
    Relation("fresh", fresh_cases, check_fresh, 3000),
    Relation("sample", None, check_sample, cases=lambda tier: [(k, 3000 if tier == "quick" else 20000) for k in CHALLENGERS for _ in range(2 if tier == "quick" else 8)]),
    Relation("fork", None, check_fork, cases=lambda tier: [(k,) for k in CHALLENGERS for _ in range(4)]),
]
ASSUMPTIONS = ["unpredictability is tested against knowledge of the default generator's state and by statistics, not proved"]
