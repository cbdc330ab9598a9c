"""C07: leases last the documented period and are only created when paid for."""

from hypothesis import strategies as st

from ..core import Check
from ..storage import World, programs, specs
from ..zk import weighted

CHECK = Check(
    "C07",
    rule=(
        "Generated histories of allocations, uploads, mutable writes, lease additions,"
        " reads, listings, refused requests and clock advances around the lease"
        " period; after each step every lease of every share on disk is compared with"
        " a model.  Non-trivial: a lease was added or a share with an expired lease"
        " was written."
    ),
)


@CHECK.test(
    lambda: programs(
        weighted((2, st.just("client")), (3, specs())),
        weights={"read": 2, "stat": 2, "advance": 8, "lease": 6},
    ),
    quick=2400,
)
def lease_history(case, ctx):
    w = World(ctx, case["pass_value"], {"leases"}, wallet=600)
    seen = set()
    event = ctx.event

    def watch(label):
        seen.add(label)
        event(label)

    ctx.event = watch
    w.run(case["ops"])
    if seen & {"lease paid for", "write to a share with an expired lease"}:
        ctx.nontrivial()
