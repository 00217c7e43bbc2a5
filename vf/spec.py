"""The WAMP message formats, written from the specification and independent of the code under test: the reference
encoder, the reference validator, and helpers to build and read the library's message objects."""
import inspect

MIN_ID, MAX_ID = 1, 2**53
ROLES = ("callee", "caller", "publisher", "subscriber", "dealer", "broker")
XPS = "x_payload_serializer"

# kind -> (code, fields in wire order, takes args/kwargs)
TABLE = {
    "Hello": (1, [("realm", "str"), ("details", "hello")], False),
    "Welcome": (2, [("session_id", "id"), ("details", "welcome")], False),
    "Abort": (3, [("details", "dict"), ("reason", "str")], True),
    "Challenge": (4, [("authmethod", "str"), ("extra", "dict")], False),
    "Authenticate": (5, [("signature", "str"), ("extra", "dict")], False),
    "Goodbye": (6, [("details", "dict"), ("reason", "str")], False),
    "Error": (8, [("message_type", "int"), ("request_id", "id"), ("details", "dict"), ("uri", "str")], True),
    "Publish": (16, [("request_id", "id"), ("options", "dict"), ("topic", "str")], True),
    "Published": (17, [("request_id", "id"), ("publication_id", "id")], False),
    "Subscribe": (32, [("request_id", "id"), ("options", "dict"), ("topic", "str")], False),
    "Subscribed": (33, [("request_id", "id"), ("subscription_id", "id")], False),
    "Unsubscribe": (34, [("request_id", "id"), ("subscription_id", "id")], False),
    "Unsubscribed": (35, [("request_id", "id")], False),
    "Event": (36, [("subscription_id", "id"), ("publication_id", "id"), ("details", "dict")], True),
    "Call": (48, [("request_id", "id"), ("options", "dict"), ("procedure", "str")], True),
    "Cancel": (49, [("request_id", "id"), ("options", "dict")], False),
    "Result": (50, [("request_id", "id"), ("details", "dict")], True),
    "Register": (64, [("request_id", "id"), ("options", "dict"), ("procedure", "str")], False),
    "Registered": (65, [("request_id", "id"), ("registration_id", "id")], False),
    "Unregister": (66, [("request_id", "id"), ("registration_id", "id")], False),
    "Unregistered": (67, [("request_id", "id")], False),
    "Invocation": (68, [("request_id", "id"), ("registration_id", "id"), ("details", "dict")], True),
    "Interrupt": (69, [("request_id", "id"), ("options", "dict")], False),
    "Yield": (70, [("request_id", "id"), ("options", "dict")], True),
}
KINDS = tuple(TABLE)
BY_CODE = {v[0]: k for k, v in TABLE.items()}
HELLO_KEYS = ("authid", "authmethods", "authextra")
WELCOME_KEYS = ("authid", "authrole", "authmethod", "authextra")
# kinds whose option/detail dictionary defaults to {} in the library's constructors
OPTIONAL_DICT = {
    "Challenge": "extra", "Authenticate": "extra", "Error": "details", "Publish": "options", "Subscribe": "options",
    "Event": "details", "Call": "options", "Cancel": "options", "Result": "details", "Register": "options",
    "Invocation": "details", "Interrupt": "options", "Yield": "options",
}
PAYLOAD_KINDS = {"Call": "options", "Yield": "options", "Invocation": "details", "Result": "details"}
DETAIL_TYPES = {"authid": str, "authrole": str, "authmethod": str, "authmethods": list, "authextra": dict}


def fields_of(kind):
    """Names of the fields a message of this kind has."""
    names = []
    for n, t in TABLE[kind][1]:
        if t == "hello":
            names += ["roles", *HELLO_KEYS]
        elif t == "welcome":
            names += ["roles", *WELCOME_KEYS]
        else:
            names.append(n)
    if TABLE[kind][2]:
        names += ["args", "kwargs"]
    return names


def ref_encode(kind, f):
    """The array the specification prescribes for a message with fields `f` (missing or None: absent)."""
    code, layout, payload = TABLE[kind]
    out = [code]
    for n, t in layout:
        if t in ("hello", "welcome"):
            d = {"roles": f["roles"]}
            for k in HELLO_KEYS if t == "hello" else WELCOME_KEYS:
                if f.get(k) is not None:
                    d[k] = f[k]
            if t == "welcome" and "authextra" not in d:
                d["authextra"] = {}
            out.append(d)
        elif t == "dict":
            d = dict(f[n]) if f.get(n) is not None else {}
            if PAYLOAD_KINDS.get(kind) == n and f.get("serializer") is not None:
                d[XPS] = f["serializer"]
            out.append(d)
        else:
            out.append(f[n])
    if payload:
        if f.get("args") is not None:
            out.append(f["args"])
        elif f.get("kwargs") is not None:
            out.append([])
        if f.get("kwargs") is not None:
            out.append(f["kwargs"])
    return out


def _is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def ref_validate(arr):
    """(kind, fields) of a well-formed WAMP array, or None."""
    if not isinstance(arr, list) or not arr or not _is_int(arr[0]):
        return None
    kind = BY_CODE.get(arr[0])
    if kind is None:
        return None
    _, layout, payload = TABLE[kind]
    low = 1 + len(layout)
    if not low <= len(arr) <= low + (2 if payload else 0):
        return None
    f = {}
    for v, (n, t) in zip(arr[1:], layout):
        if t == "id":
            if not _is_int(v) or not MIN_ID <= v <= MAX_ID:
                return None
        elif t == "int":
            if not _is_int(v):
                return None
        elif t == "str":
            if not isinstance(v, str):
                return None
        else:
            if not isinstance(v, dict):
                return None
        if t in ("hello", "welcome"):
            roles = v.get("roles")
            if not isinstance(roles, dict) or not roles:
                return None
            for r in roles:
                if not isinstance(r, str) or r not in ROLES:
                    return None
            checked = ("authid", "authrole", "authmethods", "authextra")
            if t == "welcome":
                checked = ("authid", "authrole", "authmethod", "authextra")
            for k in checked:
                if v.get(k) is not None and not isinstance(v[k], DETAIL_TYPES[k]):
                    return None
            f["roles"] = roles
            for k in HELLO_KEYS if t == "hello" else WELCOME_KEYS:
                f[k] = v.get(k)
            if t == "welcome" and f["authextra"] is None:
                f["authextra"] = {}
        else:
            f[n] = v
    if payload:
        f["args"] = f["kwargs"] = None
        if len(arr) > low:
            if not isinstance(arr[low], list):
                return None
            f["args"] = arr[low]
        if len(arr) > low + 1:
            if not isinstance(arr[low + 1], dict):
                return None
            f["kwargs"] = arr[low + 1]
    return kind, f


def roundtripped(kind, f):
    """Field values expected after a round trip of a message built with fields `f`."""
    out = {n: f.get(n) for n in fields_of(kind)}
    opt = OPTIONAL_DICT.get(kind)
    if opt and out[opt] is None:
        out[opt] = {}
    if kind in PAYLOAD_KINDS and f.get("serializer") is not None:
        out[opt] = {**out[opt], XPS: f["serializer"]}
    if kind == "Welcome" and out["authextra"] is None:
        out["authextra"] = {}
    if TABLE[kind][2] and out["kwargs"] is not None and out["args"] is None:
        out["args"] = []
    return out


STYLE = None  # how build() makes a message's fields: None for the library's own, else one of STYLES
STYLES = ("stored", "fresh", "constant", "override")


def build(kind, f):
    """The library's message object with these fields (None: not given, where the constructor has a default)."""
    from wampproto import messages

    kw = {k: v for k, v in f.items() if v is not None}
    if STYLE == "derived types":
        return getattr(messages, kind)(getattr(messages, kind + "Fields")(**{k: v if k == "serializer" else derived(v) for k, v in kw.items()}))
    fields = getattr(messages, kind + "Fields")(**kw)
    return getattr(messages, kind)(fields if STYLE is None else foreign(fields, STYLE))


HOOK = None  # called whenever a field that is worked out is read


def called(v):
    if HOOK is not None:
        HOOK()
    return v


def ignored(self, value):
    """What the class derived from sets, this one does not keep."""


def foreign(fields, style):
    """An object of a class of our own implementing the interface of the library's `fields`, with the same values."""
    from vf.core import clone

    own = type(fields)
    interface = next(c for c in own.__mro__ if c.__name__ == "I" + own.__name__)
    names = [n for n in dir(interface) if not n.startswith("_")]
    values = {n: getattr(fields, n) for n in names if n != "payload_is_binary"}
    binary = fields.payload_is_binary() if "payload_is_binary" in names else None
    members = {"__len__": lambda self: 0}
    if binary is not None:
        members["payload_is_binary"] = lambda self: binary
    if style == "constant":  # plain attributes of the class
        return type("Constant", (interface,), {**members, **values})()
    for n, v in values.items():
        if style == "stored":
            members[n] = property(lambda self, n=n: self.kept[n], ignored)
        else:  # worked out again whenever it is read
            members[n] = property(lambda self, v=v: called(clone(v)), ignored)
    if style != "override":
        out = type("Foreign", (interface,), members)()
        out.kept = values
        return out
    # a class derived from the library's own, that answers for itself
    takes = inspect.signature(own.__init__).parameters
    base = {k: None if v is None else type(v)() for k, v in values.items() if k in takes}
    return type("Derived", (own,), members)(**base)


class styled:
    """While this is entered, build() makes fields in that style."""

    def __init__(self, style):
        self.style = style

    def __enter__(self):
        global STYLE
        STYLE = self.style

    def __exit__(self, *_):
        global STYLE
        STYLE = None


class Text(str):
    __slots__ = ()


class Number(int):
    __slots__ = ()


class Seq(list):
    __slots__ = ()


class Map(dict):
    __slots__ = ()


def derived(v):
    """The value in classes derived from the built-in ones, as an enumeration's members or an ordered dictionary are."""
    t = type(v)
    if t is list:
        return Seq(derived(x) for x in v)
    if t is dict:
        return Map((derived(k), derived(x)) for k, x in v.items())
    return Text(v) if t is str else Number(v) if t is int else v


def plain(v):
    t = type(v)
    if t in (list, Seq):
        return [plain(x) for x in v]
    if t in (dict, Map):
        return {plain(k): plain(x) for k, x in v.items()}
    return str(v) if t is Text else int(v) if t is Number else v


def kind_of(msg):
    n = type(msg).__name__
    return n if n in TABLE else None


def read(msg):
    """The message's fields, through its public properties."""
    f = {n: getattr(msg, n) for n in fields_of(type(msg).__name__)}
    return plain(f) if STYLE == "derived types" else f
