"""C01: the wallet's passes versus a model of available/reserved/spent/rejected."""

import os
from sqlite3 import OperationalError

from hypothesis import strategies as st

from .. import zk
from ..core import Check, Violation, check, check_equal, short
from ..crashdb import CrashConnection, CrashPlan

CHECK = Check(
    "C01",
    rule=(
        "Generated histories of redeem/get/reset/spend/reject/split/expand/count/"
        "restart operations on a file-backed wallet, compared with a set model after"
        " every step.  Non-trivial: at least one successful non-empty reservation and"
        " a later reset, spend, reject or restart."
    ),
    assumptions=[
        "One process at a time uses the database file.",
        "sqlite3 itself is trusted.",
    ],
)

small = st.integers(0, 7)
ref = st.integers(0, 30)

OPS = zk.weighted(
    (4, zk.op("redeem", st.integers(0, 3), st.integers(0, 9), st.booleans())),
    (1, zk.op("redeem-dup", st.integers(0, 3), st.integers(1, 4))),
    (1, zk.op("redeem-unknown", st.integers(1, 4))),
    (8, zk.op("get", st.integers(0, 6))),
    (2, zk.op("get-all", st.sampled_from([-1, 0, 1]))),
    (1, zk.op("get-huge", st.sampled_from([2**31, 2**62, 2**63 - 1, 2**63, 2**64, 2**80]))),
    (3, zk.op("reset", ref)),
    (4, zk.op("spend", ref)),
    (4, zk.op("reject", ref, st.text(max_size=8))),
    (3, zk.op("split", ref, st.lists(small, max_size=5))),
    (2, zk.op("expand", ref, st.integers(0, 5))),
    (2, zk.op("restart", st.booleans())),
)


@CHECK.test(
    st.fixed_dictionaries(
        {
            "replicate": st.booleans(),
            "interface": st.sampled_from(["groups", "store"]),
            "initial": st.integers(0, 25),
            "ops": zk.program(OPS, 1, 40),
        }
    ),
    quick=1200,
)
def wallet_history(case, ctx):
    World(case, ctx).run()


TROUBLE = zk.op(
    "trouble",
    st.sampled_from(["full", "locked", "unreadable"]),
    st.integers(0, 12),
    st.integers(1, 6),
)


@CHECK.test(
    st.fixed_dictionaries(
        {
            "replicate": st.booleans(),
            "interface": st.sampled_from(["groups", "store"]),
            "initial": st.integers(0, 25),
            "ops": zk.program(zk.weighted((3, OPS), (1, TROUBLE)), 1, 40),
        }
    ),
    quick=500,
)
def wallet_with_a_failing_database(case, ctx):
    """
    An operation that the database fails is reported and has no effect at all.
    """
    World(case, ctx).run()


class World:
    def __init__(self, case, ctx):
        self.case = case
        self.ctx = ctx
        self.path = os.path.join(ctx.tempdir(), "db")
        self.now = zk.Now()
        self.store = None
        self.close = None
        self.n_tokens = 0
        # the model
        self.avail = set()
        self.reserved = {}  # index -> (group, set)
        self.gone = set()
        self.invalid = {}
        self.sequestered = set()
        self.counters = {}
        self.next_group = 0
        self.reserved_once = False
        self.plan = CrashPlan()

    def open(self):
        from _zkapauthorizer.spending import SpendingController

        if self.close is not None:
            self.close()
        self.plan.calm()
        self.store, self.close = zk.open_voucher_store(
            self.path,
            self.now,
            replicate=self.case["replicate"],
            wrap=lambda conn: CrashConnection(conn, self.plan),
        )
        self.ctx.cleanup(self.close)
        self.spending = SpendingController.for_store(self.tokens_to_passes, self.store)
        self.reserved.clear()

    def tokens_to_passes(self, message, tokens):
        from _zkapauthorizer.model import Pass

        return [
            Pass(t.unblinded_token[:88], t.unblinded_token[40:128]) for t in tokens
        ]

    def run(self):
        self.open()
        self.op_redeem(0, self.case["initial"], True)
        for o in self.case["ops"]:
            self.ctx.event("op:" + o[0])
            self.attempt(getattr(self, "op_" + o[0].replace("-", "_")), o[1:])
            with self.plan.undisturbed():
                self.invariant()
        # And once more after a final restart.
        before = set(self.avail) | set().union(*[s for (_, s) in self.reserved.values()], set())
        self.avail = before
        self.open()
        self.invariant()
        got = [t.unblinded_token for t in self.store.get_unblinded_tokens(len(before))]
        check_equal(sorted(got), sorted(before), "spendable passes after restart")
        rows = {
            t.encode(): r
            for (t, r) in zk.raw_rows(
                self.path, "SELECT [token], [reason] FROM [invalid-unblinded-tokens]"
            )
        }
        check_equal(rows, self.invalid, "record of rejected passes")

    def attempt(self, f, args):
        faults = self.plan.faults
        before = (
            set(self.avail),
            dict(self.reserved),
            set(self.gone),
            dict(self.invalid),
            set(self.sequestered),
            dict(self.counters),
        )
        try:
            f(*args)
        except OperationalError:
            if self.plan.faults == faults:
                raise
            (
                self.avail,
                self.reserved,
                self.gone,
                self.invalid,
                self.sequestered,
                self.counters,
            ) = before
            self.ctx.event("failed by the database")
            if self.reserved:
                self.ctx.nontrivial()

    def op_trouble(self, kind, after, count):
        self.plan.disturb(kind, after, count)

    def invariant(self):
        stored = {
            t.encode()
            for (t,) in zk.raw_rows(self.path, "SELECT [token] FROM [unblinded-tokens]")
        }
        held = set().union(*[s for (_, s) in self.reserved.values()], self.avail, self.sequestered)
        check_equal(stored, held, "stored passes")
        check_equal(
            self.store.count_unblinded_tokens(), len(self.avail), "available count"
        )

    # -- operations

    def new_tokens(self, n):
        from _zkapauthorizer.model import UnblindedToken

        r = [
            UnblindedToken(zk.unblinded_token_bytes(self.n_tokens + i))
            for i in range(n)
        ]
        self.n_tokens += n
        return r

    def add_voucher(self, v):
        from _zkapauthorizer.model import RandomToken

        number = zk.voucher_number(v)
        counter = self.counters.get(v, 0)
        self.store.add(
            number,
            100,
            counter,
            lambda: [
                RandomToken(zk.random_token_bytes((v * 100 + counter) * 10 + i))
                for i in range(2)
            ],
        )
        return number

    def op_redeem(self, v, n, spendable):
        number = self.add_voucher(v)
        tokens = self.new_tokens(n)
        self.store.insert_unblinded_tokens_for_voucher(
            number, "key", tokens, completed=False, spendable=spendable
        )
        self.counters[v] = self.counters.get(v, 0) + 1
        texts = {t.unblinded_token for t in tokens}
        (self.avail if spendable else self.sequestered).update(texts)

    def op_redeem_dup(self, v, n):
        """An insertion that must fail as a whole."""
        from _zkapauthorizer.model import UnblindedToken

        existing = sorted(self.avail)
        if not existing:
            return
        number = self.add_voucher(v)
        tokens = self.new_tokens(n) + [UnblindedToken(existing[0])]
        try:
            self.store.insert_unblinded_tokens_for_voucher(
                number, "key", tokens, completed=False, spendable=True
            )
        except Exception:
            self.ctx.event("failed insertion")
        else:
            raise Violation("the same pass was stored twice without an error")

    def op_redeem_unknown(self, n):
        tokens = self.new_tokens(n)
        try:
            self.store.insert_unblinded_tokens_for_voucher(
                zk.voucher_number(99), "key", tokens, completed=False, spendable=True
            )
        except Exception:
            pass
        else:
            raise Violation("passes stored for an unknown voucher without an error")

    def op_get(self, n):
        from _zkapauthorizer.model import NotEnoughTokens

        try:
            if self.case["interface"] == "groups":
                group = self.spending.get(b"message", n)
                tokens = group.unblinded_tokens
                check_equal(len(group.passes), n, "passes in a group")
            else:
                group = tokens = self.store.get_unblinded_tokens(n)
        except NotEnoughTokens:
            check(
                n > len(self.avail),
                "request for {} refused with {} available",
                n,
                len(self.avail),
            )
            self.ctx.event("refused")
            return
        check(n <= len(self.avail), "request for {} granted with {} available", n, len(self.avail))
        self.took(tokens, n, group)

    def took(self, tokens, n, group):
        texts = [t.unblinded_token for t in tokens]
        check_equal(len(texts), n, "number of passes handed out")
        check_equal(len(set(texts)), n, "number of distinct passes handed out")
        bad = set(texts) - self.avail
        if bad:
            t = sorted(bad)[0]
            where = (
                "spent" if t in self.gone
                else "rejected" if t in self.invalid
                else "sequestered" if t in self.sequestered
                else "reserved" if any(t in s for (_, s) in self.reserved.values())
                else "unknown"
            )
            raise Violation(f"handed out a {where} pass {t!r}")
        self.avail -= set(texts)
        self.reserved[self.next_group] = (group, set(texts))
        self.next_group += 1
        if n:
            self.reserved_once = True
            self.ctx.event("reserved some")

    def op_get_all(self, delta):
        n = len(self.avail) + delta
        if n >= 0:
            self.op_get(n)

    def op_get_huge(self, n):
        self.op_get(n)

    def pick(self, r):
        if not self.reserved:
            return None
        return sorted(self.reserved)[r % len(self.reserved)]

    def tokens_of(self, group):
        return group.unblinded_tokens if self.case["interface"] == "groups" else group

    def settle(self, r, groups, store):
        k = self.pick(r)
        if k is None:
            return None
        group, texts = self.reserved.pop(k)
        if self.case["interface"] == "groups":
            groups(group)
        else:
            store(group)
        if self.reserved_once and texts:
            self.ctx.nontrivial()
        return texts

    def op_reset(self, r):
        texts = self.settle(r, lambda g: g.reset(), lambda t: self.store.reset_unblinded_tokens(t))
        self.avail |= texts or set()

    def op_spend(self, r):
        texts = self.settle(r, lambda g: g.mark_spent(), lambda t: self.store.discard_unblinded_tokens(t))
        self.gone |= texts or set()

    def op_reject(self, r, reason):
        texts = self.settle(
            r,
            lambda g: g.mark_invalid(reason),
            lambda t: self.store.invalidate_unblinded_tokens(reason, t),
        )
        self.invalid.update({t: reason for t in texts or ()})

    def op_split(self, r, idx):
        if self.case["interface"] != "groups":
            return
        k = self.pick(r)
        if k is None:
            return
        group, texts = self.reserved.pop(k)
        order = [t.unblinded_token for t in group.unblinded_tokens]
        a, b = group.split(idx)
        got_a = [t.unblinded_token for t in a.unblinded_tokens]
        got_b = [t.unblinded_token for t in b.unblinded_tokens]
        check_equal(got_a, [t for i, t in enumerate(order) if i in idx], "selected part")
        check_equal(got_b, [t for i, t in enumerate(order) if i not in idx], "other part")
        for g, got in ((a, got_a), (b, got_b)):
            self.reserved[self.next_group] = (g, set(got))
            self.next_group += 1

    def op_expand(self, r, n):
        from _zkapauthorizer.model import NotEnoughTokens

        if self.case["interface"] != "groups":
            return
        k = self.pick(r)
        if k is None:
            return
        group, texts = self.reserved[k]
        order = [t.unblinded_token for t in group.unblinded_tokens]
        try:
            bigger = group.expand(n)
        except NotEnoughTokens:
            check(n > len(self.avail), "expansion by {} refused with {} available", n, len(self.avail))
            return
        got = [t.unblinded_token for t in bigger.unblinded_tokens]
        check_equal(got[: len(order)], order, "expanded group keeps its passes")
        extra = got[len(order):]
        check_equal(len(extra), n, "number of added passes")
        check(set(extra) <= self.avail and len(set(extra)) == n, "added passes were not available: {}", short(extra))
        self.avail -= set(extra)
        self.reserved[k] = (bigger, set(got))

    def op_restart(self, spare):
        if self.reserved:
            self.ctx.event("restart with reservations")
            if self.reserved_once:
                self.ctx.nontrivial()
        for _, texts in self.reserved.values():
            self.avail |= texts
        self.open()
