"""C11: crashes and upload failures never lose acknowledged replicated state."""

from hypothesis import strategies as st

from .. import zk
from ..core import Check, Violation, check
from ..replica import STORE_OPS, World, difference

CHECK = Check(
    "C11",
    rule=(
        "Generated histories as for C10 in which the process also stops right before"
        " or after a chosen database step (statement, commit, prune) or grid operation,"
        " and grid operations fail with or without taking effect.  The replica is"
        " recovered after every change of its contents and compared with the history of"
        " committed states.  Non-trivial: a crash or failure while replication had work"
        " in progress, after the first snapshot was in place."
    ),
    assumptions=[
        "sqlite3 commits are atomic and durable.",
        "The grid applies each operation atomically or not at all.",
        "After a failed operation replication may wait, but not for more than a day,"
        " before it goes on.",
    ],
)

MODE = st.sampled_from(["go", "go", "go", "hold", "fail", "fail-after"])

OPS = zk.weighted(
    *STORE_OPS,
    (6, zk.op("step", MODE)),
    (4, zk.op("steps", st.integers(1, 6))),
    (3, zk.op("drain")),
    (2, zk.op("wait", st.sampled_from([0.5, 5, 300, 90000]))),
    (2, zk.op("restart")),
    (2, zk.op("crash")),
    (4, zk.op("arm", st.integers(0, 25))),
    (1, zk.op("compare")),
)


class Crashing(World):
    interesting = False

    def __init__(self, case, ctx):
        super().__init__(case, ctx)
        self.on_effect = self.check_replica

    def check_replica(self):
        """
        What is in the replica at this moment recovers to some state not older
        than the last completed upload.
        """
        if not self.has_snapshot():
            check(self.floor is None or self.floor < 0, "the snapshot is gone")
            return
        contents = self.replica_contents()
        if contents == self.checked_contents:
            return
        self.checked_contents = contents
        got, path = self.recover()
        floor = self.floor or 0
        if got in self.states[floor:]:
            return
        if got in self.states:
            raise Violation(
                f"the replica recovers to state {self.states.index(got)}, older than"
                f" what was uploaded before (state {floor})"
            )
        raise Violation(
            "the replica recovers to a state the source never was in; compared with"
            f" the current one: {difference(got, self.current())}"
        )

    def completed(self, gate):
        # Only what has been uploaded once there is a snapshot is recoverable.
        if self.has_snapshot():
            super().completed(gate)

    def note(self):
        if self.gates and self.has_snapshot():
            self.interesting = True

    def op_step(self, mode):
        if mode != "go":
            self.note()
        self.step(mode)

    def op_steps(self, n):
        for i in range(n):
            self.step("go")

    def op_drain(self):
        plan = self.proc.plan
        faults = plan.faults
        self.drain()
        if self.proc.dead_loop or plan.crashed or plan.faults > faults or not self.enabled:
            return
        if self.important_index is not None and self.has_snapshot():
            check(
                self.floor is not None and self.floor >= self.important_index,
                "replication is idle but the important change of state {} is not uploaded (only up to {})",
                self.important_index,
                self.floor,
            )

    def op_wait(self, seconds):
        self.note()
        self.wait(seconds)
        if seconds > 24 * 60 * 60:
            self.proc.dead_loop = False

    def op_restart(self):
        self.stop()
        self.start()

    def op_crash(self):
        self.note()
        self.crash()

    def op_arm(self, n):
        self.note()
        self.proc.plan.arm(n)

    def op_compare(self):
        self.proc.plan.disarm()
        self.catch_up()
        self.check_caught_up("after catching up")


@CHECK.test(
    st.fixed_dictionaries(
        {
            "policy": st.lists(st.booleans(), min_size=1, max_size=5),
            "warm": st.booleans(),
            "patient": st.booleans(),
            "rude": st.booleans(),
            "ops": zk.program(OPS, 1, 40),
        }
    ),
    quick=900,
)
def crashing_history(case, ctx):
    w = run_history(case, ctx)
    if w.interesting and (w.n_crashes or w.n_failures):
        ctx.nontrivial()


TROUBLED_OPS = zk.weighted(
    *STORE_OPS,
    (6, zk.op("step", st.sampled_from(["go", "go", "go", "hold"]))),
    (4, zk.op("steps", st.integers(1, 6))),
    (3, zk.op("drain")),
    (2, zk.op("wait", st.sampled_from([0.5, 5, 300, 90000]))),
    (1, zk.op("restart")),
    (
        8,
        zk.op(
            "trouble",
            st.sampled_from(["full", "locked", "unreadable"]),
            st.integers(0, 20),
            st.integers(1, 20),
        ),
    ),
    (1, zk.op("compare")),
)


@CHECK.test(
    st.fixed_dictionaries(
        {
            "policy": st.lists(st.booleans(), min_size=1, max_size=5),
            "warm": st.just(True),
            "patient": st.booleans(),
            "rude": st.just(False),
            "ops": zk.program(TROUBLED_OPS, 1, 40),
        }
    ),
    quick=300,
)
def history_with_a_failing_database(case, ctx):
    w = run_history(case, ctx)
    if w.n_faults and w.has_snapshot():
        ctx.nontrivial()


def run_history(case, ctx):
    w = Crashing(case, ctx)
    w.start()
    w.enable()
    if case["warm"]:
        w.drain()
    for o in case["ops"]:
        w.run_op(o)
    w.proc.plan.disarm()
    w.catch_up()
    w.check_caught_up("at the end")
    for name in ("n_crashes", "n_failures", "n_unlinks"):
        if getattr(w, name):
            ctx.event(name)
    if w.n_uploads["snapshot"] > 1:
        ctx.event("second snapshot")
    return w
