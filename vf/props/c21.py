from vf import router_machine as rm
from vf.core import Relation

RULE = (
    "a case is a history of joins, leaves, registrations, calls (plain and progressive) and answers (up to 45 operations, with "
    "bursts of up to 300) on one dealer, every answer judged against the reference model; non-trivial when an answer was refused or a second one attempted"
)
WANT = {"refused"}


def check(case, ctx):
    rm.run_dealer(case, ctx)
    ctx.nontrivial = bool(ctx.labels & WANT)


def kinds(tier):
    """An ERROR about anything but an invocation, from the very session that could answer an open one."""
    codes = [*range(-3, 130), -68, 2**8 + 68, 2**16 + 68, 2**32 + 68, 2**53, 68 << 8, 680, 6800]
    for code in codes:
        for others in (0, 3):
            for progress in (False, True):
                yield (code, others, progress)


def check_kinds(case, ctx):
    code, others, progress = case
    opts = {"receive_progress": True, "progress": True} if progress else {}
    ops = [("join", 1), ("join", 2), ("msg", 1, "Register", {"request_id": 1, "procedure": "p"})]
    ops += [("msg", 2, "Call", {"request_id": i + 1, "procedure": "p", "options": dict(opts)}) for i in range(others + 1)]
    steps = []
    rm.run_dealer(([("steps", ops)], rm.SIDS, rm.URIS, rm.REQS), ctx, steps)
    ids = [v[3]["request_id"] for step, s, v in steps if step[:3] == ("msg", 2, "Call") and s == "ok" and v[2] == "Invocation"]
    for inv in ids[:others + 1]:
        again = [*ops, ("msg", 1, "Error", {"message_type": code, "request_id": inv, "uri": "u", "args": [1]})]
        rm.run_dealer(([("steps", again)], rm.SIDS, rm.URIS, rm.REQS), ctx)
    ctx.hit("refused")


RELATIONS = [
    Relation("history", rm.dealer_history, check, 4000),
    Relation("progressive", lambda: rm.dealer_history(rm.PROGRESS_OPS), check, 1000),
    Relation("streams", rm.dealer_streams, check, 1000),
    Relation("kinds", None, check_kinds, cases=kinds),
    rm.dealer_scale(),
]
ASSUMPTIONS = [
    "progress flags are True, False or absent; all parts of a progressive call name the same procedure",
    "a caller does not start a progressive call under a request ID it still has a plain call open for",
]
