"""C03: passes signed with keys that are not allowed are sequestered."""

from hypothesis import strategies as st

from ..core import Check
from ..redeem import RedemptionWorld, cases

CHECK = Check(
    "C03",
    rule=(
        "Redemption schedules as for C02 in which every group is signed with a"
        " generated key, allowed or not, with spending and restarts in between."
        "  Non-trivial: both sequestered and spendable passes were stored."
    ),
    assumptions=["The configured set of allowed keys does not change."],
)


@CHECK.test(lambda: cases(st.integers(0, 3), False), quick=1200)
def sequestration_schedule(case, ctx):
    w = RedemptionWorld(case, ctx)
    w.run()
    if w.sequestered and any(s for (_, _, s) in w.group_keys):
        ctx.nontrivial()
