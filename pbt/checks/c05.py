"""C05: the storage server performs no paid operation without enough valid passes."""

from ..core import Check
from ..storage import World, programs, specs

CHECK = Check(
    "C05",
    rule=(
        "Generated histories of allocations, uploads, mutable writes and lease"
        " additions over several storage indexes, each accompanied by a generated mix"
        " of valid and invalid passes at generated positions, with clock advances and"
        " disconnections in between.  Non-trivial: at least one paid request was"
        " accepted and one refused."
    ),
    assumptions=["The underlying Tahoe-LAFS storage server behaves as documented."],
)


@CHECK.test(lambda: programs(specs(malformed=True)), quick=2400)
def paid_requests(case, ctx):
    w = World(ctx, case["pass_value"], {"gate", "data"})
    w.run(case["ops"])
    if w.accepted and w.rejected:
        ctx.nontrivial()
