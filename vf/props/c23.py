from vf import router_machine as rm
from vf.core import Relation

RULE = (
    "a case is a history of joins, leaves, registrations, calls (plain and progressive) and answers (up to 45 operations, with "
    "bursts of up to 300) on one dealer, every answer judged against the reference model; non-trivial when a progressive call was continued or a progressive result forwarded"
)
WANT = {"call continued", "call continued by its final part", "progressive result"}


def check(case, ctx):
    rm.run_dealer(case, ctx)
    ctx.nontrivial = bool(ctx.labels & WANT)


RELATIONS = [
    Relation("history", rm.dealer_history, check, 1500),
    Relation("progressive", lambda: rm.dealer_history(rm.PROGRESS_OPS), check, 3000),
    Relation("streams", rm.dealer_streams, check, 3000),
    rm.dealer_scale(),
]
ASSUMPTIONS = [
    "progress flags are True, False or absent; all parts of a progressive call name the same procedure",
    "a caller does not start a progressive call under a request ID it still has a plain call open for",
]
