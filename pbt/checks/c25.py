"""C25: records of lease maintenance spending."""

from hypothesis import strategies as st

from .. import node, zk
from ..core import Check, HarnessError, Violation, check, check_equal
from ..crashdb import CrashConnection, CrashPlan
from .c01 import World as Wallet

CHECK = Check(
    "C25",
    rule=(
        "Generated histories of maintenance runs (some overlapping), observations,"
        " completions, wallet operations, restarts and crashes at a chosen database"
        " step, with the reported run compared with a model after every step, in the"
        " store and over HTTP.  Non-trivial: two runs finished, one was abandoned and"
        " some count is at least two."
    ),
    assumptions=[
        "The clock does not go backwards; of runs finished at the very same time any"
        " may be reported.",
    ],
)


class Run:
    def __init__(self, started):
        self.started = started
        self.count = 0
        self.finished = None
        self.obj = None


def ceil_div(a, b):
    return -(-a // b)


class World(Wallet):
    def __init__(self, case, ctx):
        super().__init__(case, ctx)
        self.runs = []
        self.live = []
        self.unsure = None
        self.abandoned = 0
        self.now.advance(case["offset"])

    def open(self):
        from _zkapauthorizer.model import VoucherStore
        from _zkapauthorizer.replicate import with_replication
        from _zkapauthorizer.resource import from_configuration
        from _zkapauthorizer.spending import SpendingController
        from twisted.internet.task import Clock

        if self.close is not None:
            self.close()
        real = zk.connect(self.path)
        self.plan = CrashPlan()
        conn = CrashConnection(real, self.plan)
        self.close = conn.close
        self.ctx.cleanup(self.close)
        self.store = VoucherStore.from_connection(
            self.case["pass_value"],
            self.now,
            with_replication(conn, self.case["replicate"]),
        )
        self.spending = SpendingController.for_store(self.tokens_to_passes, self.store)
        self.reserved.clear()
        self.abandoned += len(self.live)
        self.live.clear()

        def unused(*a):
            raise HarnessError("unexpected call")

        clock = Clock()
        root = from_configuration(
            node.make_config(
                self.ctx.tempdir(), {"redeemer": "non", "allowed-public-keys": "pbt-key"}
            ), self.store, unused, unused, None, clock
        )
        self.site = node.make_site(root, clock)

    def took(self, *a):
        super().took(*a)
        self.reserved_once = False

    def run(self):
        self.open()
        self.invariant()
        for o in self.case["ops"]:
            self.ctx.event("op:" + o[0])
            try:
                getattr(self, "op_" + o[0].replace("-", "_"))(*o[1:])
            except Exception:
                if not self.plan.crashed:
                    raise
            if self.plan.crashed:
                self.ctx.event("crashed")
                self.op_restart(False)
                self.resolve()
            self.plan.disarm()
            self.unsure = None
            self.invariant()
        self.op_restart(False)
        self.invariant()
        done = [r for r in self.runs if r.finished is not None]
        if len(done) >= 2 and self.abandoned and any(r.count >= 2 for r in done):
            self.ctx.nontrivial()

    # -- operations

    def op_tick(self, seconds):
        self.now.advance(seconds)

    def op_start(self, crash):
        self.arm(crash)
        obj = self.store.start_lease_maintenance()
        r = Run(self.now())
        r.obj = obj
        self.runs.append(r)
        self.live.append(r)

    def arm(self, crash):
        if crash is not None:
            self.plan.arm(crash)

    def choose(self, i):
        return self.live[i % len(self.live)] if self.live else None

    def op_observe(self, i, sizes, crash):
        r = self.choose(i)
        if r is None:
            return
        sizes = [
            max(0, k * self.case["pass_value"] + d) for (k, d) in sizes
        ]
        self.arm(crash)
        given = list(sizes)
        r.obj.observe(given)
        check_equal(given, sizes, "the sizes given")
        r.count += sum(ceil_div(s, self.case["pass_value"]) for s in sizes)

    def op_finish(self, i, crash):
        r = self.choose(i)
        if r is None:
            return
        self.arm(crash)
        self.unsure = r
        r.obj.finish()
        self.live.remove(r)
        r.finished = self.now()

    def resolve(self):
        """
        A crash while finishing: that the run is finished is as good as that
        it is not.
        """
        r, self.unsure = self.unsure, None
        if r is None:
            return
        a = self.store.get_latest_lease_maintenance_activity()
        if a is not None and a.finished == self.now() and a.started == r.started:
            r.finished = self.now()

    # -- oracle

    def invariant(self):
        super().invariant()
        done = [r for r in self.runs if r.finished is not None]
        got = self.store.get_latest_lease_maintenance_activity()
        r = node.request(self.site, "GET", "/lease-maintenance")
        check_equal(r.status, 200, "status of the lease maintenance report")
        check_equal(r.headers.get("content-type"), ["application/json"], "content type")
        web = r.json()
        check_equal(sorted(web), ["spending", "total"], "keys of the report")
        check_equal(web["total"], len(self.avail), "passes available, as reported")
        if not done:
            check(got is None, "a run was reported though none has finished: {}", got)
            check_equal(web["spending"], None, "spending reported")
            return
        last = max(r.finished for r in done)
        candidates = [(r.started, r.count, r.finished) for r in done if r.finished == last]
        check(got is not None, "no finished run is reported, there are {}", len(done))
        got = (got.started, got.passes_required, got.finished)
        if got not in candidates:
            raise Violation(f"reported run is {got}, expected {candidates}")
        check_equal(
            web["spending"],
            {"when": got[2].isoformat(), "count": got[1]},
            "spending reported over HTTP",
        )


crash = zk.weighted((6, st.none()), (1, st.integers(0, 6)))
sizes = st.lists(
    st.tuples(st.integers(0, 6) | st.integers(0, 2**20), st.integers(-2, 2)), max_size=6
)
OPS = zk.weighted(
    (5, zk.op("start", crash)),
    (7, zk.op("observe", st.integers(0, 2), sizes, crash)),
    (5, zk.op("finish", st.integers(0, 2), crash)),
    (3, zk.op("tick", st.sampled_from([0.000001, 0.5, 1, 1, 60, 86400, 26 * 86400]))),
    (2, zk.op("restart", st.booleans())),
    (1, zk.op("redeem", st.integers(0, 3), st.integers(0, 9), st.booleans())),
    (1, zk.op("get", st.integers(0, 6))),
    (1, zk.op("spend", st.integers(0, 3))),
    (1, zk.op("reset", st.integers(0, 3))),
    (1, zk.op("reject", st.integers(0, 3), st.just("bad"))),
)


@CHECK.test(
    st.fixed_dictionaries(
        {
            "pass_value": st.integers(1, 10) | st.sampled_from([1000, 1024 * 1024, 2**33]),
            "offset": st.sampled_from([0, 0.5, 0.000001, 86399.999999]),
            "replicate": st.booleans(),
            "interface": st.sampled_from(["groups", "store"]),
            "ops": zk.program(OPS, 1, 30),
        }
    ),
    quick=1600,
)
def spending_records(case, ctx):
    World(case, ctx).run()
