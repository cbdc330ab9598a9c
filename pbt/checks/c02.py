"""C02: voucher redemption conserves value under failures, retries and restarts."""

from hypothesis import strategies as st

from ..core import Check
from ..redeem import RedemptionWorld, cases

CHECK = Check(
    "C02",
    rule=(
        "Generated schedules of submissions, scripted issuer outcomes per attempt,"
        " delayed replies, retry ticks, process restarts and crashes at a chosen"
        " database step while storing a result.  Non-trivial: some attempt failed and"
        " some group was stored.  The same with a database which fails for a while"
        " (full, locked, unreadable): some step failed and some group was stored."
    ),
    assumptions=[
        "The issuer answers a repeated request with the same tokens idempotently.",
        "The number of groups does not change during a voucher's life.",
    ],
)


@CHECK.test(lambda: cases(st.integers(0, 3), True), quick=1500)
def redemption_schedule(case, ctx):
    w = RedemptionWorld(case, ctx)
    w.run()
    if w.failures and w.deliveries:
        ctx.nontrivial()
    if w.partial_then_failed:
        ctx.event("failure after partial success")


@CHECK.test(lambda: cases(st.integers(0, 3), True, trouble=True), quick=700)
def redemption_with_a_failing_database(case, ctx):
    w = RedemptionWorld(case, ctx)
    w.run()
    if w.troubled and w.deliveries:
        ctx.nontrivial()
