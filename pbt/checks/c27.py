"""C27: the replica stays bounded and is refreshed when worthwhile."""

import re
from io import BytesIO

from hypothesis import strategies as st

from .. import zk
from ..core import Check, Violation, check, check_equal
from ..replica import STORE_OPS, World, dump
from ..storage import ceil_div

CHECK = Check(
    "C27",
    rule=(
        "Generated histories of wallet use, steps of the replication service and clean"
        " restarts against a replica directory which also holds foreign files and"
        " directories, with a scripted or the real cost-based snapshot policy."
        " Non-trivial: the policy asked for a new snapshot while event streams existed"
        " and the unlinking was observed."
    ),
    assumptions=[
        "Foreign entries of the directory do not carry the name of a replica object.",
        "The grid does not fail (C11 has failures).",
    ],
)

FOREIGN = [
    ("file", "notes"),
    ("file", "snapshot.old"),
    ("file", "my-event-stream-3"),
    ("file", "Event-stream-1"),
    ("dir", "event-stream-dir"),
    ("dir", "snapshots"),
    ("file", "event-stream"),
]

OPS = zk.weighted(
    *STORE_OPS,
    (8, zk.op("step")),
    (4, zk.op("steps", st.integers(1, 8))),
    (4, zk.op("drain")),
    (2, zk.op("restart")),
    (2, zk.op("bulk", st.integers(0, 3000))),
)
STREAM = re.compile(r"event-stream-([0-9]+)")


def is_replica_object(name):
    return name == "snapshot" or STREAM.fullmatch(name) is not None


class Bounded(World):
    def __init__(self, case, ctx):
        super().__init__(case, ctx)
        self.foreign = {}
        for i in case["foreign"]:
            kind, name = FOREIGN[i]
            cap = (
                zk.sync(self.raw_client.upload(lambda: BytesIO(b"x" * 300)))
                if kind == "file"
                else zk.sync(self.raw_client.make_directory())
            )
            self.grid.link(self.cap, name, cap)
            self.foreign[name] = cap
        self.expected_snapshots = 0
        self.unasked = False  # an event upload the policy was not asked about yet
        self.covers = 0  # highest event in the last completed snapshot
        self.uploading_seq = None
        self.fresh_size = None
        self.streams = {}  # number -> its events are beyond the last snapshot
        self.true_answers = 0
        self.pruned_something = False

    def local_sequence(self):
        rows = zk.raw_rows(
            self.path, "SELECT [seq] FROM [sqlite_sequence] WHERE [name] = 'event-stream'"
        )
        return rows[0][0] if rows else 0

    def start_service(self):
        if not self.has_snapshot():
            self.expected_snapshots += 1
        # What the policy was to be asked died with the process.
        self.unasked = False
        super().start_service()

    def snapshot_size(self):
        from _zkapauthorizer.replicate import snapshot

        return len(snapshot(self.proc.rconn))

    def arrive(self, gate):
        if gate.what == "list":
            self.fresh_size = self.snapshot_size()
        elif gate.what == "upload":
            self.uploading_seq = self.local_sequence()
        elif gate.what == "link":
            (name,) = gate.args
            check(is_replica_object(name), "unexpected object {!r} linked", name)
            if name != "snapshot":
                check_equal(
                    int(STREAM.fullmatch(name).group(1)),
                    self.uploading_seq,
                    "number in the event stream's name",
                )
            gate.seq = self.uploading_seq
        elif gate.what == "unlink":
            (name,) = gate.args
            m = STREAM.fullmatch(name)
            check(
                m is not None and int(m.group(1)) <= self.covers,
                "{!r} removed from the replica although the snapshot covers events up to {} only",
                name,
                self.covers,
            )
            self.pruned_something = True
        return super().arrive(gate)

    def completed(self, gate):
        super().completed(gate)
        if gate.what == "link":
            if gate.args[0] == "snapshot":
                self.covers = gate.seq
            else:
                self.unasked = True

    # -- the policy

    def ask(self, snapshot_size, replica_sizes):
        self.unasked = False
        entries = self.grid.list_directory(self.cap.reader)
        want = sorted(e.size for n, e in entries.items() if is_replica_object(n))
        check_equal(sorted(replica_sizes), want, "sizes of the replica's objects")
        check(
            snapshot_size in (self.fresh_size, self.snapshot_size()),
            "size of a fresh snapshot given as {}, it is {}",
            snapshot_size,
            self.fresh_size,
        )
        if self.case["cost"] is None:
            answers = self.case["policy"]
            answer = answers[self.policy_used % len(answers)]
            self.policy_used += 1
        else:
            answer = cost_policy(self.case["cost"], snapshot_size, replica_sizes)
        if answer:
            self.expected_snapshots += 1
            self.true_answers += 1
            self.pruned_something = False
        return answer

    # -- operations

    def op_step(self):
        self.step("go")

    def op_steps(self, n):
        for i in range(n):
            self.step("go")

    def op_drain(self):
        self.drain()
        self.check_idle()

    def op_restart(self):
        # Finish first so that it is known what was asked for.
        self.drain()
        self.check_idle()
        self.stop()
        self.start()

    def op_bulk(self, n):
        rconn = self.proc.rconn
        with rconn:
            cur = rconn.cursor()
            cur.execute("BEGIN IMMEDIATE TRANSACTION")
            cur.execute("CREATE TABLE IF NOT EXISTS [bulk] ([v])", ())
            cur.execute("DELETE FROM [bulk]", ())
            with cur.important():
                cur.execute("INSERT INTO [bulk] VALUES (?)", ("x" * n,))
            cur.close()

    def check_idle(self):
        check(not self.unasked, "an event stream was uploaded but the policy was not asked")
        check_equal(
            self.n_uploads["snapshot"], self.expected_snapshots, "snapshots uploaded so far"
        )
        entries = self.replica_contents()
        check("snapshot" in entries, "no snapshot although replication is idle")
        for name in self.foreign:
            check(name in entries, "foreign object {!r} was removed", name)
        for name in entries:
            m = STREAM.fullmatch(name)
            if m is not None:
                check(
                    int(m.group(1)) > self.covers,
                    "{} is still there although the snapshot covers events up to {}",
                    name,
                    self.covers,
                )
        extra = set(entries) - set(self.foreign) - {n for n in entries if is_replica_object(n)}
        check_equal(extra, set(), "unexpected objects in the replica")


def cost_policy(cost, snapshot_size, replica_sizes):
    from _zkapauthorizer._plugin import _CostBasedPolicy
    from _zkapauthorizer.tahoe import ShareEncoding

    per_pass, needed, extra, factor = cost
    total = needed + extra
    policy = _CostBasedPolicy(per_pass, ShareEncoding(needed, total), factor)
    got = policy.should_snapshot(snapshot_size, list(replica_sizes))

    def price(size):
        return total * ceil_div(ceil_div(size, needed), per_pass)

    want = price(snapshot_size) * factor < sum(map(price, replica_sizes))
    check_equal(
        bool(got), want, f"cost based policy for a snapshot of {snapshot_size} and a replica of {replica_sizes}"
    )
    return want


COST = st.tuples(
    st.sampled_from([1, 50, 700, 1000, 4096]),
    st.integers(1, 5),
    st.integers(0, 4),
    st.sampled_from([0.2, 0.5, 1, 1.5, 2, 3]),
)


@CHECK.test(
    st.fixed_dictionaries(
        {
            "policy": st.lists(st.booleans(), min_size=1, max_size=5),
            "cost": st.one_of(st.none(), COST),
            "foreign": st.lists(st.integers(0, len(FOREIGN) - 1), unique=True, max_size=4),
            "ops": zk.program(OPS, 1, 40),
        }
    ),
    quick=1200,
)
def bounded_replica(case, ctx):
    w = Bounded(case, ctx)
    w.start()
    w.enable()
    for o in case["ops"]:
        w.run_op(o)
    w.drain()
    w.check_idle()
    w.catch_up()
    w.check_idle()
    if w.true_answers and w.n_unlinks:
        ctx.nontrivial()
    if case["cost"] and w.true_answers:
        ctx.event("cost based policy asked for a snapshot")
    if case["foreign"]:
        ctx.event("foreign objects")


@CHECK.test(
    st.fixed_dictionaries(
        {
            "cost": st.tuples(
                st.integers(1, 2000), st.integers(1, 20), st.integers(0, 20),
                st.sampled_from([0.1, 0.5, 1, 2, 10, 10.5]),
            ),
            "snapshot": st.integers(0, 30000),
            "replica": st.lists(st.integers(0, 60000), max_size=20),
        }
    ),
    quick=4000,
)
def cost_based_policy(case, ctx):
    r = cost_policy(case["cost"], case["snapshot"], case["replica"])
    ctx.event(f"policy says {r}")
    if case["replica"] and case["snapshot"]:
        ctx.nontrivial()
