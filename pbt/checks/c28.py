"""C28: changes are uploaded when they are worth it, and no sooner."""

from hypothesis import strategies as st

from .. import zk
from ..core import Check, HarnessError, check
from ..replica import World

CHECK = Check(
    "C28",
    rule=(
        "Generated histories of transactions whose statements have generated sizes"
        " around fractions and multiples of the documented 570,000 bytes, marked"
        " important or not, committed or rolled back, with replication enabled at a"
        " generated moment, uploads completed at generated moments, snapshots by a"
        " scripted policy, restarts and crashes.  Whenever replication is idle what is"
        " still only local must be minor and less than a batch, and in a history where"
        " nothing overlaps every event upload needs a reason.  Non-trivial: a batch"
        " became full by minor changes alone, in more than one transaction."
    ),
    assumptions=[
        "The size of a change lies between the length of its statement and the length"
        " of its statement and arguments and 100 bytes.",
        "What a process finds when it starts may be counted until its first upload.",
    ],
)

FULL = 570000

# Sizes of statements, from negligible to more than a batch.
SIZE = zk.weighted(
    (4, st.sampled_from([100, 1000, 40000])),
    (4, st.integers(60000, 300000)),
    (2, st.sampled_from([190000, 189900, 284900, 285000, 285100, 114000])),
    (1, st.sampled_from([569000, 569899, 570000, 570001, 600000])),
)
STATEMENTS = st.lists(st.tuples(SIZE, st.booleans()), min_size=1, max_size=3)

OPS = zk.weighted(
    (
        14,
        zk.op(
            "change",
            STATEMENTS,
            st.sampled_from(["minor"] * 8 + ["important", "rollback", "partly important"]),
            st.booleans(),
        ),
    ),
    (1, zk.op("voucher")),
    (2, zk.op("drain")),
    (2, zk.op("step")),
    (1, zk.op("restart")),
    (1, zk.op("crash")),
    (1, zk.op("enable")),
)


class Batches(World):
    """
    Counts what has been committed and not yet uploaded.
    """

    full_of_minor = False

    def __init__(self, case, ctx):
        super().__init__(case, ctx)
        self.low = self.high = self.transactions = 0
        self.important = False
        self.tidy = True
        # All changes up to this one have to be uploaded.
        self.wanted = 0
        self.reason = False

    # -- what is there

    def outstanding(self):
        """
        :return: (size of the statements, is any important) of what is local.
        """
        rows = zk.raw_rows(
            self.path, "SELECT length([statement]), [important] FROM [event-stream]"
        )
        return sum(n for n, _ in rows), any(i for _, i in rows)

    def start(self):
        super().start()
        self.begin()

    def begin(self):
        if not self.enabled:
            return
        # The start itself is a reason to look at everything that is left.
        rows = zk.raw_rows(
            self.path,
            "SELECT length([statement]), length([serialized_arguments]), [important] FROM [event-stream]",
        )
        self.high = sum(a + b + 100 for a, b, _ in rows) + 100
        self.important = any(i for _, _, i in rows)
        self.transactions = len(rows)
        self.reason = self.important or self.high >= FULL
        self.inherited = self.reason

    def count(self, sizes, important):
        """
        A transaction is committed.
        """
        if not self.enabled:
            return
        self.high += sum(s + 400 for s in sizes)
        self.low += sum(sizes)
        self.transactions += 1
        self.important = self.important or important
        if important:
            ((self.wanted,),) = zk.raw_rows(
                self.path, "SELECT [seq] FROM [sqlite_sequence] WHERE [name] = 'event-stream'"
            )
        if self.important or self.high >= FULL:
            self.reason = True

    def settle(self):
        """
        Replication gets all it needs from the grid.
        """
        self.drain()
        if not self.enabled or self.proc.dead_loop:
            return
        size, important = self.outstanding()
        ((first,),) = zk.raw_rows(self.path, "SELECT min([sequence-number]) FROM [event-stream]")
        important = important or (first is not None and first <= self.wanted)
        check(not important, "replication is idle with an important change not uploaded")
        check(
            size < FULL,
            "replication is idle with {} bytes of changes not uploaded, a batch is {}",
            size,
            FULL,
        )

    def effect(self, gate):
        super().effect(gate)
        if gate.what == "link" and gate.args != ("snapshot",):
            self.ctx.event("event upload")
            if self.tidy:
                check(
                    self.reason,
                    "an upload though only {} bytes of minor changes are new since the"
                    " last one, a batch is {}",
                    self.high,
                    FULL,
                )
                if not self.important and self.transactions > 1 and self.low >= FULL:
                    self.full_of_minor = True
                    self.ctx.event("a batch of minor changes")
            if self.inherited:
                # It may be that the reason stays until the next change.
                self.inherited = False
            else:
                self.low = self.high = self.transactions = 0
                self.important = self.reason = False

    # -- operations

    def op_change(self, statements, kind, wait):
        if self.gates:
            # Which upload is for what can not be told.
            self.tidy = False

        class Oops(Exception):
            pass

        sizes = []
        rconn = self.proc.rconn
        try:
            with rconn:
                cur = rconn.cursor()
                cur.execute("BEGIN IMMEDIATE TRANSACTION")
                for i, (size, many) in enumerate(statements):
                    head = "INSERT INTO [invalid-unblinded-tokens] VALUES (?, ?) /* "
                    sql = head + "x" * (size - len(head) - 3) + " */"
                    arguments = (f"token-{self.fresh()}", "because")
                    if kind == "important" or (kind == "partly important" and i == 0):
                        with cur.important():
                            self.one(cur, sql, arguments, many)
                    else:
                        self.one(cur, sql, arguments, many)
                    sizes.append(len(sql))
                cur.close()
                if kind == "rollback":
                    raise Oops()
        except Oops:
            return
        self.count(sizes, "important" in kind)
        self.raise_problem()
        if wait:
            self.settle()

    def one(self, cur, sql, arguments, many):
        if many:
            cur.executemany(sql, [arguments])
        else:
            cur.execute(sql, arguments)

    def op_voucher(self):
        if self.gates:
            self.tidy = False
        # Its transaction may be followed by the upload right away.
        if self.enabled:
            self.important = self.reason = True
        self.voucher(self.fresh(), 1)
        self.count([1000], True)
        self.settle()

    def op_drain(self):
        self.settle()

    def op_step(self):
        self.step("go")

    def op_restart(self):
        self.stop()
        self.tidy = True
        self.start()
        self.settle()

    def op_crash(self):
        self.tidy = True
        self.crash()
        self.settle()

    def op_enable(self):
        if not self.enabled:
            self.enable()
            self.begin()
            self.settle()


@CHECK.test(
    st.fixed_dictionaries(
        {
            "policy": st.lists(st.booleans(), min_size=1, max_size=5),
            "enabled": st.sampled_from([True, True, True, False]),
            "ops": zk.program(OPS, 1, 25),
        }
    ),
    quick=320,
)
def batches(case, ctx):
    w = Batches(case, ctx)
    w.start()
    if case["enabled"]:
        w.op_enable()
    for o in case["ops"]:
        ctx.event("op:" + o[0])
        getattr(w, "op_" + o[0])(*o[1:])
    w.settle()
    if w.full_of_minor:
        ctx.nontrivial()
