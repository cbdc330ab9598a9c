"""C10: a replica always recovers to the source database."""

import os

from hypothesis import strategies as st

from .. import zk
from ..core import Check, check
from ..replica import STORE_OPS, World

CHECK = Check(
    "C10",
    rule=(
        "Generated histories of wallet operations and raw transactions (all value"
        " types, bulk statements, failures and rollbacks) through the replicating"
        " connection, interleaved step by step with the uploads, links, listings and"
        " unlinks of the replication service, clean restarts and moves to a recovered"
        " database.  Non-trivial: an event stream was uploaded after a snapshot and"
        " the database changed while a grid operation was outstanding."
    ),
    assumptions=[
        "sqlite3 itself is trusted; text contains no NUL (sqlite's own dump truncates it).",
        "The grid keeps what it accepted.",
    ],
)

OPS = zk.weighted(
    *STORE_OPS,
    (8, zk.op("step")),
    (3, zk.op("steps", st.integers(1, 8))),
    (3, zk.op("drain")),
    (1, zk.op("restart")),
    (1, zk.op("compare")),
    (1, zk.op("enable")),
    (1, zk.op("move")),
)


class Fidelity(World):
    busy_change = False

    def op_step(self):
        self.step("go")

    def op_steps(self, n):
        for i in range(n):
            self.step("go")

    def op_drain(self):
        self.drain()

    def op_restart(self):
        self.stop()
        self.start()

    def op_compare(self):
        if self.enabled:
            self.catch_up()
            self.check_caught_up("in the middle")

    def op_enable(self):
        self.enable()

    def op_move(self):
        """
        The node is lost: carry on with the recovered database, replicating
        it to a new directory.
        """
        if not self.enabled or self.generation == 2:
            return
        self.catch_up()
        path = self.check_caught_up("before moving")
        self.stop()
        self.generation += 1
        new = os.path.join(self.dir, f"db-{self.generation}")
        os.rename(path, new)
        self.path = new
        self.new_directory()
        self.ctx.event("moved")
        self.start()


@CHECK.test(
    st.fixed_dictionaries(
        {
            "enable_after": st.sampled_from([0, 0, 0, 1, 3, 8]),
            "policy": st.lists(st.booleans(), min_size=1, max_size=5),
            "ops": zk.program(OPS, 1, 40),
        }
    ),
    quick=1200,
)
def replicated_history(case, ctx):
    w = Fidelity(case, ctx)
    w.start()
    for i, o in enumerate(case["ops"]):
        if i == case["enable_after"]:
            w.enable()
        before = len(w.states)
        busy = bool(w.gates)
        w.run_op(o)
        if busy and len(w.states) > before:
            w.busy_change = True
    w.enable()
    w.catch_up()
    w.check_caught_up("at the end")
    if w.n_uploads["event-stream"] and w.busy_change:
        ctx.nontrivial()
    if w.n_uploads["snapshot"] > 1:
        ctx.event("second snapshot")
    if w.n_unlinks:
        ctx.event("pruned")
