from vf import router_machine as rm
from vf.core import Relation

RULE = (
    "a case is a history on one broker or dealer, every answer judged against the reference model; non-trivial when a "
    "session left while subscribed, registered, calling or called, rejoined under the same ID, or an outsider was refused"
)
WANT = {
    "left while subscribed", "left while registered", "callee left with a call open", "caller left with a call open",
    "rejoined with the same ID", "answer for a departed caller", "refused",
}


def check_broker(case, ctx):
    rm.run_broker(case, ctx)
    ctx.nontrivial = bool(ctx.labels & WANT)


def check_dealer(case, ctx):
    rm.run_dealer(case, ctx)
    ctx.nontrivial = bool(ctx.labels & WANT)


LEAVING = ["join"] * 5 + ["leave"] * 3 + ["leave-busy"] * 4 + ["reg"] * 4 + ["unreg"] + ["call"] * 5 + ["pcall"] * 2 + ["chunk"] * 2 + ["yield"] * 4 + ["fail"] * 2 + ["yield-any"] * 3 + ["fail-any"] * 2

RELATIONS = [
    Relation("broker", rm.broker_history, check_broker, 3000),
    Relation("dealer", lambda: rm.dealer_history(LEAVING), check_dealer, 4000),
    rm.broker_scale(),
    rm.dealer_scale(),
]
ASSUMPTIONS = ["the answer to a call whose caller left may be refused with ValueError or dropped, but is addressed to nobody"]
