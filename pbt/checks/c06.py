"""C06: client and server agree on the price of every operation."""

from hypothesis import strategies as st

from ..core import Check
from ..storage import World, programs, specs
from ..zk import weighted

CHECK = Check(
    "C06",
    rule=(
        "Generated histories in which an honest client (the real"
        " ZKAPAuthorizerStorageClient over the real server) and other paying clients"
        " allocate, write mutables and add leases while leases expire.  Before each"
        " operation the server is offered one pass less than the price.  Non-trivial:"
        " the honest client paid for at least two operations."
    ),
    assumptions=["Client and server clocks agree."],
)


@CHECK.test(
    lambda: programs(
        weighted((4, st.just("client")), (1, specs())), weights={"newlen": 0, "read": 0}
    ),
    quick=2000,
)
def honest_client(case, ctx):
    w = World(ctx, case["pass_value"], {"agree"}, wallet=600)
    w.run(case["ops"])
    if len(w.wallet.having("spent")) and w.accepted >= 2:
        ctx.nontrivial()
