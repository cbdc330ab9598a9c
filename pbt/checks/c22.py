"""C22: spending records and metrics equal the passes the server accepted."""

from ..core import Check
from ..storage import World, programs, specs

CHECK = Check(
    "C22",
    rule=(
        "Generated histories of paid, underpaid, free and failing requests with mixes"
        " of valid and invalid passes; the spent-pass recorder and the metrics"
        " registry are compared with a model after each history and after each"
        " refused request.  Non-trivial: passes were recorded and a request refused."
    ),
    assumptions=[
        "For a request accompanied by more valid passes than it needs either number"
        " is accepted in the metrics.",
    ],
)


@CHECK.test(lambda: programs(specs(), weights={"read": 1}), quick=2400)
def request_history(case, ctx):
    w = World(ctx, case["pass_value"], {"books"})
    w.run(case["ops"], after=lambda o: w.check_books())
    if w.expected_spent and w.rejected:
        ctx.nontrivial()
