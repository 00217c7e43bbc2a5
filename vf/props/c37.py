"""Nothing depends on how the interpreter was started."""
import atexit

from hypothesis import strategies as st

from vf import elsewhere
from vf.core import Ctx, HarnessError, Relation, Violation, attempt
from vf.props import c02, c03, c05, c06, c13, c25, c29, c30, c33, c35

RULE = (
    "settings: a case of another property - a history, handshake, simulation, message or frame, the tables of C03 and C29 - passes its oracle, then is played again by an "
    "interpreter with other settings (optimisation, hash seed, locale, time zone, garbage collection, ...); non-trivial when it passed at first"
)


LOCALE = "C locale, no UTF-8 mode"
ONES = {
    name: c35.of(mod, rel)
    for name, mod, rel in (
        ("sent", c02, "outbound"), ("received", c02, "inbound"), ("near", c03, "near"), ("free", c03, "free"), ("handshake bytes", c06, "write"), ("lengths", c06, "lengths"),
        ("numbers", c25, "sequence"), ("wrap", c25, "wrap"), ("validator", c29, "random"), ("details", c30, "details"), ("text", c30, "text"), ("hello", c33, "hello"), ("cra signing", c13, "wampcra-sign"), ("cs signing", c13, "cryptosign-sign"), ("shape", c05, "shape"), ("raw payload", c05, "raw"),
    )
} | {k: c35.JUDGES[k] for k in ("message", "bytes", "payload", "garbage", "frames", "cryptosign", "wampcra", "refusal")}
TABLES = {f"{m.__name__[-3:]} table": (next(r for r in m.RELATIONS if r.name == "table").cases, next(r for r in m.RELATIONS if r.name == "table").check) for m in (c03, c29)}
JUDGES = {**c35.JUDGES, **ONES, **TABLES}


@atexit.register
def end():
    for p in elsewhere.children.values():
        attempt(elsewhere.stop, p)


def settings():
    weighted = [*elsewhere.CONFIGS, *["-O", "-OO", LOCALE] * 4]
    return st.sampled_from(c35.WEIGHTS).flatmap(lambda w: st.tuples(st.sampled_from(weighted), st.just(w), c35.JUDGES[w][0]()))


def ones():
    weighted = [*elsewhere.CONFIGS, *["-O", "-OO", LOCALE] * 4]
    return st.sampled_from([*ONES, "near", "near"]).flatmap(lambda w: st.tuples(st.sampled_from(weighted), st.just(w), ONES[w][0]()))


def tables(tier):
    """The tables of C03 and C29 without assertions."""
    return [("-O", w, x) for w in TABLES for x in TABLES[w][0](tier)]


def asked(config, who, inner, fresh):
    p = elsewhere.child(config, fresh)
    try:
        return elsewhere.ask(p, who, inner)
    except (EOFError, BrokenPipeError) as e:
        elsewhere.children.pop(config, None)
        if fresh:
            raise HarnessError(f"an interpreter with {config} died: {e}") from None
        return f"died: {e}"
    finally:
        if fresh:
            elsewhere.stop(p)


def check_settings(case, ctx):
    config, who, inner = case
    judge = JUDGES[who][1]
    if attempt(judge, inner, Ctx("C37"))[0] == "err":
        return ctx.label("fails anyway")  # which other properties report
    if asked(config, who, inner, False) is not None:
        # once more, with nothing gone before; what depends on chance is not about the settings
        if attempt(lambda: [judge(inner, Ctx("C37")) for _ in range(3)])[0] == "err":
            return ctx.label("fails anyway")
        wrong = asked(config, who, inner, True)
        if wrong is not None:
            raise Violation(f"{who} is right by default, but in an interpreter with other settings ({config}): {wrong}")
    ctx.hit(who, config)


RELATIONS = [Relation("settings", settings, check_settings, 4000, 60000), Relation("ones", ones, check_settings, 5000, 60000), Relation("tables", None, check_settings, cases=tables)]
ASSUMPTIONS = [
    "deprecation warnings are not turned into errors: the library calls datetime.utcnow, which the interpreter deprecates",
    "the harness's own judges run in the other interpreter too; they judge by exceptions of their own, not by assert statements",
]
