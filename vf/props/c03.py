import itertools

from hypothesis import strategies as st

from vf import gen, spec
from vf.core import Relation, attempt, clone, require, same, show

RULE = (
    "a case is one decoded array offered to the message parser (directly, through its message class, and through every "
    "serializer that can carry it), whose verdict is compared with an independent validator's; it is non-trivial when the "
    "array names a known kind and differs from a valid one in at least one position, or is valid"
)

JUNK = [
    None, True, False, 0, 1, -1, 2, 2**53, 2**53 + 1, 2**53 - 1, 2**63, 2**64, -(2**63), 1.0, 0.0, 1.5, float("inf"), "", "x", "1", "wamp.x",
    [], [1], ["x"], {}, {"a": 1}, {"roles": {}}, {"roles": {"caller": {}}}, b"", b"x", [[]], {"": None}, "caller", 48, 16,
    {1: 2}, {"a": 1, 2: 3, None: 4, b"b": {5: 6}}, {"a": 1, "b": 2, 1.5: 3},
]
HUGE = [10**30, -(10**30)]
DETAIL_JUNK = [None, True, False, 0, 1, 0.5, "", "x", [], ["x"], [None], [1], {}, {"a": 1}, {1: 2}, {"a": 1, None: {2: 3}}, b"x"]
ROLE_JUNK = [
    None, {}, [], "caller", 0, True, {"caller": None}, {"Caller": {}}, {"caller": {}, "x": {}}, {"x": {}}, {"": {}}, {1: {}}, {None: {}},
    {b"caller": {}}, {"caller ": {}}, {"callee": {}, "caller": {}, "publisher": {}, "subscriber": {}}, {"dealer": {"features": {}}, "broker": {}},
    {"router": {}}, {"client": {}}, {"CALLER": {}}, ["caller"], {"caller": {}, "dealer": {}, "broker": {}, "CALLEE": {}},
]
# every number of good roles with one bad at every place among them
MANY_ROLES = [dict.fromkeys([*spec.ROLES[:at], bad, *spec.ROLES[at:n]], {}) for n in range(2, len(spec.ROLES) + 1) for at in range(n + 1) for bad in ("x", 1, None)]

SAMPLE = {
    "id": 7, "int": 48, "str": "com.x", "dict": {},
    "hello": {"roles": {"caller": {}}}, "welcome": {"roles": {"dealer": {}}},
}


def verdict(fn, arg, want, what, ctx):
    st_, v = attempt(fn, arg)
    if want is None:
        require(st_ == "err", lambda: f"{what} accepted the ill-formed {show(arg)} as {show(v)}")
        require(isinstance(v, (ValueError, TypeError)), lambda: f"{what} refused {show(arg)} with {type(v).__name__}: {v}")
        return
    if st_ == "err":
        require(False, lambda: f"{what} refused the well-formed {show(arg)}: {type(v).__name__}: {v}")
    kind, f = want
    require(spec.kind_of(v) == kind, lambda: f"{what} took {show(arg)} for {type(v).__name__}")
    require(same(spec.read(v), f), lambda: f"{what} read {show(spec.read(v))} from {show(arg)}")


def check_array(arr, ctx):
    from wampproto import messages
    from wampproto.serializers.serializer import to_message

    want = spec.ref_validate(arr)
    verdict(to_message, clone(arr), want, "to_message", ctx)
    code = arr[0] if isinstance(arr, list) and arr else None
    kind = spec.BY_CODE.get(code) if type(code) is int else None
    if kind:
        verdict(getattr(messages, kind).parse, clone(arr), want, f"{kind}.parse", ctx)
        ctx.hit(kind, "valid" if want else "ill-formed")
        # another class's parse never takes it
        other = spec.KINDS[(spec.KINDS.index(kind) + 1 + len(arr)) % len(spec.KINDS)]
        if other != kind:
            verdict(getattr(messages, other).parse, clone(arr), None, f"{other}.parse", ctx)
    else:
        ctx.label("no known kind")
    for name in gen.SERIALIZERS:
        s, data = attempt(gen.ref_dumps, name, arr)
        if s == "err":
            continue
        s, obj = attempt(gen.ref_loads, name, data)
        if s == "err":
            continue
        w = spec.ref_validate(obj)
        ser = gen.serializer(name)
        s, v = attempt(ser.deserialize, data)
        if w is None:
            require(s == "err", lambda: f"{name}: accepted the ill-formed {show(obj)} as {show(v)}")
            require(isinstance(v, (ValueError, TypeError)), lambda: f"{name}: refused {show(obj)} with {type(v).__name__}: {v}")
        else:
            require(s == "ok", lambda: f"{name}: refused the well-formed {show(obj)}: {type(v).__name__}: {v}")
            require(same(spec.read(v), w[1]), lambda: f"{name}: read {show(spec.read(v))} from {show(obj)}")


# exhaustive: every kind x every position x every junk value, every length, every detail key x junk
def table_cases(tier):
    out = [[], None, 5, "x", {}, {0: 1}, [None], [[]], ["1"], [1.0], [True], [False], [True, 7], [48.0, 1, {}, "p"], ["48", 1, {}, "p"], [b"0"]]
    out += [[c] for c in range(-3, 300)] + [[c] + [1] * n for c in range(0, 80) for n in (1, 2, 3, 4, 5, 6, 7)]
    for kind, (code, layout, payload) in spec.TABLE.items():
        base = [code] + [clone(SAMPLE[t]) for _, t in layout]
        out.append(base)
        full = base + ([[1, "x"], {"k": None}] if payload else [])
        for n in range(len(full) + 1):
            out.append(clone(full[:n]))
        for extra in ([1], {"a": 1}, None, "x"):
            out.append(clone(full) + [extra])
            out.append(clone(base) + [extra])
        for arr in (base, full):
            for pos in range(len(arr)):
                for j in JUNK + HUGE:
                    a = clone(arr)
                    a[pos] = clone(j)
                    out.append(a)
        for arr in (base, full):
            for bad in itertools.product((False, True), repeat=len(arr) - 1):
                for j in (None, 1.5, b"x"):
                    out.append([code, *[clone(j) if b else clone(x) for x, b in zip(arr[1:], bad)]])
        if payload:
            for a, k in itertools.product(JUNK, JUNK):
                if isinstance(a, (list, type(None), dict, str, bytes)) or isinstance(k, (list, type(None), dict, str, bytes)):
                    out.append(clone(base) + [clone(a), clone(k)])
            out += [clone(base) + [clone(a)] for a in JUNK]
        for pos, (n, t) in enumerate(layout):
            if t in ("hello", "welcome"):
                for r in ROLE_JUNK + MANY_ROLES + [{x: {}} for x in spec.ROLES]:
                    out.append([code, *[clone(SAMPLE[u]) if i != pos else {"roles": clone(r)} for i, (_, u) in enumerate(layout)]])
                for k in ("authid", "authrole", "authmethod", "authmethods", "authextra", "other", "Authid"):
                    for j in DETAIL_JUNK:
                        out.append([code, *[clone(SAMPLE[u]) if i != pos else {"roles": {"caller": {}}, k: clone(j)} for i, (_, u) in enumerate(layout)]])
                        out.append([code, *[clone(SAMPLE[u]) if i != pos else {"roles": {}, k: clone(j)} for i, (_, u) in enumerate(layout)]])
                # several wrong at once: every subset of the details, and every subset of the fields
                keys = ("authid", "authrole", "authmethod", "authmethods", "authextra", "roles")
                for bad in itertools.product((False, True), repeat=len(keys)):
                    for j in (7, [], {}, "x"):
                        d = {k: clone(j) for k, b in zip(keys, bad) if b}
                        d = d if bad[-1] else {**d, "roles": {"caller": {}}}
                        out.append([code, *[clone(SAMPLE[u]) if i != pos else clone(d) for i, (_, u) in enumerate(layout)]])
            if t == "id":
                for v in sorted({1 << k for k in range(0, 66)} | {(1 << k) - 1 for k in range(0, 66)} | {(1 << 53) + d for d in range(-3, 4)} | {-(1 << k) for k in range(0, 66, 5)}):
                    a = clone(base)
                    a[1 + pos] = v
                    out.append(a)
    return out


def junk(ser="cbor"):
    return st.one_of(st.sampled_from(JUNK), gen.value(ser), gen.ids(), gen.ints("cbor"), gen.strdict(ser), st.sampled_from(ROLE_JUNK), gen.text(), gen.args(ser))


def near():
    """A valid array with a few positions or details altered."""

    def mutate(t):
        (kind, f), muts = t
        arr = clone(spec.ref_encode(kind, f))
        for op, pos, key, val in muts:
            val = clone(val)
            if op == 0 and arr:
                arr[pos % len(arr)] = val
            elif op == 1 and arr:
                del arr[pos % len(arr)]
            elif op == 2:
                arr.insert(pos % (len(arr) + 1), val)
            elif op == 3:
                arr.append(val)
            elif op == 4:
                for x in arr:
                    if isinstance(x, dict):
                        x[key] = val
                        break
            elif op == 5 and arr and isinstance(arr[-1], dict) and isinstance(arr[-1].get("roles"), dict):
                arr[-1]["roles"][key] = val
            elif op == 6 and arr:
                arr[0] = val
            elif op == 7 and arr:
                arr[0] = sorted(spec.BY_CODE)[pos % 24]
        return arr

    return st.tuples(
        gen.message("cbor"),
        st.lists(
            st.tuples(
                st.integers(0, 7),
                st.integers(0, 6),
                st.one_of(st.sampled_from(("authid", "authrole", "authmethod", "authmethods", "authextra", "roles", *spec.ROLES, "x", "")), gen.short_text()),
                junk(),
            ),
            max_size=3,
        ),
    ).map(mutate)


def free():
    return st.tuples(st.sampled_from(sorted(spec.BY_CODE) + [0, 7, 9, -1, 99]), st.lists(junk(), max_size=7)).map(lambda t: [t[0], *t[1]])


RELATIONS = [
    Relation("table", None, check_array, cases=table_cases),
    Relation("near", near, check_array, 6000),
    Relation("free", free, check_array, 3000),
]
EXHAUSTIVE_NOTE = "relation 'table': every kind x position x junk value, every length, every handshake detail x junk value, IDs around every power of two"
