from vf import router_machine as rm
from vf.core import Relation

RULE = (
    "a case is a history of joins, leaves, subscribes, unsubscribes and publishes (up to 40 operations, with bursts of up to "
    "300) on one broker, every answer judged against the reference model; non-trivial when a subscription was shared, removed or refused"
)


WANT = {"shared subscription", "unsubscribed", "refused"}


def check(case, ctx):
    rm.run_broker(case, ctx)
    ctx.nontrivial = bool(ctx.labels & WANT)


RELATIONS = [
    Relation("history", rm.broker_history, check, 5000),
    rm.broker_scale(),
]
ASSUMPTIONS = ["the acknowledge option is True, False or absent"]
