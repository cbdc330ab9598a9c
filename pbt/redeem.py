"""A world with a wallet, a redemption controller and a scripted issuer."""

import os
from base64 import b64decode, b64encode
from hashlib import sha512

from hypothesis import strategies as st
from twisted.internet.defer import Deferred
from twisted.internet.task import Clock
from zope.interface import implementer

from . import zk
from .core import HarnessError, Violation, check, check_equal, short
from .crashdb import Crash, CrashConnection, CrashPlan


def unblind(random_token):
    raw = b64decode(random_token)
    return b64encode(sha512(raw).digest() + sha512(b"2" + raw).digest()[:32])


def fair_split(total, groups):
    q, r = divmod(total, groups)
    return [q + (1 if i < r else 0) for i in range(groups)]


KEYS = ["key-%d" % i for i in range(4)]


class Issuer:
    """The issuer and the money: shared by all incarnations of the client."""

    def __init__(self, world):
        self.world = world
        self.first_tokens = {}  # (voucher, counter) -> tokens first seen
        self.script = []
        self.recovered = False
        self.fresh = 0

    def next_outcome(self):
        if self.recovered or not self.script:
            return ["ok", 0]
        return self.script.pop(0)


class Attempt:
    def __init__(self, voucher, counter, tokens, d, proc):
        self.voucher = voucher
        self.counter = counter
        self.tokens = tokens
        self.d = d
        self.proc = proc


def make_redeemer(world, proc):
    from _zkapauthorizer.controller import IRedeemer
    from _zkapauthorizer.model import Pass, RandomToken

    @implementer(IRedeemer)
    class ScriptedRedeemer:
        def random_tokens_for_voucher(self, voucher, counter, count):
            # Different tokens each time, as the real thing.
            r = []
            for i in range(count):
                r.append(RandomToken(zk.random_token_bytes(world.issuer.fresh)))
                world.issuer.fresh += 1
            return r

        def redeemWithCounter(self, voucher, counter, random_tokens):
            return world.attempt(proc, voucher, counter, random_tokens)

        def tokens_to_passes(self, message, unblinded_tokens):
            return [
                Pass(t.unblinded_token[:88], t.unblinded_token[40:128])
                for t in unblinded_tokens
            ]

    return ScriptedRedeemer()


class VoucherModel:
    def __init__(self, number, expected):
        self.number = number
        self.expected = expected
        self.done = 0
        self.finished = None
        self.spent = None
        self.last = None  # ("unpaid"|"error", time, details)
        self.spendable = 0
        # An effect the process was asked to make durable: it has happened
        # when the process gets to its next step, and may or may not have
        # happened if the process dies first.
        self.effect = None
        self.possible_new = False
        # The database failed since the last attempt.
        self.disturbed = False


class Proc:
    """One incarnation of the client process."""


class RedemptionWorld:
    """
    :ivar case: dict with groups, default, allowed (list of key indexes), ops,
        script
    """

    def __init__(self, case, ctx):
        self.case = case
        self.ctx = ctx
        self.path = os.path.join(ctx.tempdir(), "db")
        self.now = zk.Now()
        self.issuer = Issuer(self)
        self.issuer.script = [list(o) for o in case["script"]]
        self.groups = case["groups"]
        self.allowed = {KEYS[i] for i in case["allowed"]}
        self.vouchers = {}
        self.available = set()
        self.sequestered = set()
        self.group_keys = []  # (voucher, key, spendable)
        self.pending = []
        self.proc = None
        self.partial_then_failed = False
        self.failures = 0
        self.deliveries = 0
        self.troubled = 0

    # -- process life cycle

    def start(self, default):
        from _zkapauthorizer.controller import PaymentController
        from _zkapauthorizer.model import VoucherStore
        from _zkapauthorizer.replicate import with_replication

        p = Proc()
        p.plan = CrashPlan()
        p.real = zk.connect(self.path)
        self.ctx.cleanup(lambda: None if p.plan.crashed else p.real.close())
        p.conn = CrashConnection(p.real, p.plan)
        p.store = VoucherStore.from_connection(
            1000, self.now, with_replication(p.conn, self.case.get("replicate", False))
        )
        p.clock = Clock()
        p.default = default
        self.proc = p
        for v in self.vouchers.values():
            v.last = None
        p.redeemer = make_redeemer(self, p)
        try:
            p.controller = PaymentController(
                p.clock,
                p.store,
                p.redeemer,
                default_token_count=default,
                allowed_public_keys=set(self.allowed),
                num_redemption_groups=self.groups,
            )
        except Crash:
            if not p.plan.crashed:
                raise

    def stop(self):
        p = self.proc
        self.proc = None
        self.pending = []
        if not p.plan.crashed:
            p.plan.crashed = True
            p.real.close()

    def restart(self, default):
        self.stop()
        self.resync()
        self.start(default)

    def resync(self):
        """
        After a crash the last database transaction may or may not have
        happened; learn which from the file, accepting only those two.
        """
        rows = dict(
            (n.encode(), (c, s))
            for (n, c, s) in zk.raw_rows(
                self.path, "SELECT [number], [counter], [state] FROM [vouchers]"
            )
        )
        for v in list(self.vouchers.values()):
            if v.number not in rows:
                check(
                    v.possible_new,
                    "recorded voucher {} is gone after a restart",
                    v.number,
                )
                del self.vouchers[v.number]
                continue
            v.possible_new = False
            counter, state = rows[v.number]
            if v.effect is not None:
                kind = v.effect[0]
                if kind == "stored" and counter == v.done + 1:
                    self.apply(v)
                elif kind == "spent" and state == "double-spend":
                    self.apply(v)
            v.effect = None
            check_equal(counter, v.done, f"completed groups of {v.number!r} after a restart")
            check_equal(
                state,
                "double-spend"
                if v.spent
                else "redeemed"
                if v.done == self.groups
                else "pending",
                f"state of {v.number!r} after a restart",
            )

    # -- the issuer's side

    def attempt(self, proc, voucher, counter, random_tokens):
        number = voucher.number
        tokens = [t.token_value for t in random_tokens]
        if proc is not self.proc:
            raise HarnessError("a dead process made a redemption attempt")
        self.settle()
        v = self.vouchers.get(number)
        if v is not None:
            v.disturbed = False
        if v is None:
            raise Violation(f"redemption attempted for an unsubmitted voucher {number!r}")
        check(
            not any(a.voucher == number for a in self.pending),
            "two redemption attempts at once for {}",
            number,
        )
        check(v.spent is None, "redemption of a voucher known to be double-spent")
        check_equal(counter, v.done, f"group attempted for {number!r}")
        check(counter < self.groups, "attempt for group {} of {}", counter, self.groups)
        check_equal(
            len(tokens),
            fair_split(v.expected, self.groups)[counter],
            f"number of tokens in group {counter} of {self.groups}, total {v.expected}",
        )
        check_equal(len(set(tokens)), len(tokens), "distinct random tokens in a group")
        first = self.issuer.first_tokens.setdefault((number, counter), tokens)
        check_equal(
            tokens, first, f"random tokens on a repeated attempt for group {counter}"
        )
        for other, toks in self.issuer.first_tokens.items():
            if other != (number, counter):
                check(
                    not set(toks) & set(tokens),
                    "random tokens shared between groups {} and {}",
                    other,
                    (number, counter),
                )
        # The tokens must already be durable when the issuer sees them.
        durable = {
            t.encode()
            for (t,) in zk.raw_rows(
                self.path,
                "SELECT [text] FROM [tokens] WHERE [voucher] = ? AND [counter] = ?",
                (number.decode(), counter),
            )
        }
        check_equal(
            sorted(durable), sorted(tokens), "random tokens durable before redemption"
        )
        d = Deferred()
        a = Attempt(number, counter, tokens, d, proc)
        kind, arg = self.issuer.next_outcome()
        self.ctx.event("outcome:" + kind)
        if kind.startswith("later"):
            self.pending.append(a)
        elif kind == "crash-in-db":
            # The reply arrives but the process dies while storing it.
            proc.plan.arm(arg % 14)
            self.reply(a, "ok", 0)
        else:
            self.reply(a, kind, arg)
        return d

    def reply(self, a, kind, arg):
        from _zkapauthorizer.controller import (
            AlreadySpent,
            RedemptionResult,
            Unpaid,
            UnexpectedResponse,
        )
        from _zkapauthorizer.model import UnblindedToken

        v = self.vouchers[a.voucher]
        proc = a.proc
        if kind == "ok":
            key = KEYS[arg % len(KEYS)]
            if self.case.get("only_allowed"):
                key = sorted(self.allowed)[arg % len(self.allowed)]
            unblinded = [unblind(t) for t in a.tokens]
            v.effect = ("stored", self.now(), key, unblinded)
            self.deliveries += 1
            a.d.callback(
                RedemptionResult([UnblindedToken(t) for t in unblinded], key)
            )
            return
        self.failures += 1
        if v.done > 0 and kind != "spent":
            self.partial_then_failed = True
        if kind == "spent":
            v.effect = ("spent", self.now())
            a.d.errback(AlreadySpent(a.voucher))
        elif kind == "unpaid":
            v.last = ("unpaid", self.now(), None)
            a.d.errback(Unpaid(a.voucher))
        elif kind == "error":
            v.last = ("error", self.now(), "problem-%d" % arg)
            a.d.errback(Exception("problem-%d" % arg))
        elif kind == "unexpected":
            v.last = ("error", self.now(), "")
            a.d.errback(UnexpectedResponse(500, b"oops"))
        else:
            raise HarnessError(kind)

    def settle(self):
        """Everything asked of the live process so far has happened."""
        if self.proc.plan.faults and not self.proc.plan.crashed:
            self.proc.plan.faults = 0
            self.ctx.event("database failed")
            self.troubled += 1
            self.resync()
            for v in self.vouchers.values():
                v.disturbed = True
        for v in self.vouchers.values():
            v.possible_new = False
            if v.effect is not None:
                self.apply(v)

    def apply(self, v):
        effect, v.effect = v.effect, None
        if effect[0] == "spent":
            v.spent = effect[1]
            return
        _, when, key, unblinded = effect
        spendable = key in self.allowed
        v.done += 1
        if v.done == self.groups:
            v.finished = when
        self.group_keys.append((v.number.decode(), key, int(spendable)))
        if spendable:
            v.spendable += len(unblinded)
            self.available.update(unblinded)
        else:
            self.sequestered.update(unblinded)

    # -- the program

    def run(self):
        self.start(self.case["default"])
        for o in self.case["ops"]:
            self.ctx.event("op:" + o[0])
            getattr(self, "op_" + o[0])(*o[1:])
            self.survive()
            self.invariant()
        self.recover()

    def survive(self):
        while self.proc.plan.crashed:
            self.ctx.event("crashed")
            self.stop()
            self.resync()
            # Each crash used up an entry of the script, so this ends.
            self.start(self.case["default"])
        self.proc.plan.disarm()
        self.settle()

    def op_trouble(self, kind, after, count):
        self.proc.plan.disturb(kind, after, count)

    def op_relief(self):
        self.proc.plan.calm()

    def op_submit(self, i, tokens):
        number = zk.voucher_number(i)
        if number not in self.vouchers:
            expected = self.proc.default if tokens is None else max(tokens, self.groups)
            v = VoucherModel(number, expected)
            v.possible_new = True
            self.vouchers[number] = v
        if tokens is not None:
            tokens = max(tokens, self.groups)
        box = zk.outcome(self.proc.controller.redeem(number, tokens))
        if self.proc.plan.crashed or self.proc.plan.faults:
            return
        if box:
            from twisted.python.failure import Failure

            if isinstance(box[0], Failure):
                e = box[0].value
                raise Violation(f"submitting a voucher failed: {e!r}\n{box[0].getTraceback()[-1500:]}")

    def op_tick(self, seconds):
        self.now.advance(seconds)
        self.proc.clock.advance(seconds)

    def op_deliver(self, i, kind, arg):
        if not self.pending:
            return
        a = self.pending.pop(i % len(self.pending))
        self.reply(a, kind, arg)

    def op_restart(self, default):
        self.settle()
        self.restart(max(default, self.groups))

    def op_view(self, i):
        pass

    def op_spend(self, n):
        """Use up some of the wallet in the meantime."""
        n = min(n, len(self.available))
        with self.proc.plan.undisturbed():
            tokens = self.proc.store.get_unblinded_tokens(n)
            self.handed_out(tokens, n)
            self.proc.store.discard_unblinded_tokens(tokens)
        self.available -= {t.unblinded_token for t in tokens}

    def handed_out(self, tokens, n):
        texts = [t.unblinded_token for t in tokens]
        check_equal(len(texts), n, "passes handed out")
        bad = set(texts) & self.sequestered
        check(not bad, "handed out passes signed with a key that is not allowed: {}", short(bad))
        bad = set(texts) - self.available
        check(not bad, "handed out unknown passes {}", short(bad))

    # -- oracles

    def invariant(self):
        with self.proc.plan.undisturbed():
            self.check_everything()

    def check_everything(self):
        for v in self.vouchers.values():
            self.check_state(v)
        check_equal(
            self.proc.store.count_unblinded_tokens(),
            len(self.available),
            "available passes",
        )
        listed = {v.number for v in self.proc.store.list()}
        check_equal(sorted(listed), sorted(self.vouchers), "vouchers recorded")

    def check_state(self, v):
        from _zkapauthorizer import model as m

        got = self.proc.controller.get_voucher(v.number)
        check_equal(got.expected_tokens, v.expected, "expected tokens")
        state = got.state
        active = any(a.voucher == v.number for a in self.pending)
        if v.spent is not None:
            want = m.DoubleSpend(finished=v.spent)
        elif v.done == self.groups:
            want = m.Redeemed(finished=v.finished, token_count=v.spendable)
        elif active:
            check(
                isinstance(state, m.Redeeming),
                "state of a voucher being redeemed is {}",
                state,
            )
            check_equal(state.counter, v.done, "counter of redeeming state")
            return
        elif v.disturbed:
            # Whether that counts as an error of the redemption is left open.
            check(
                isinstance(state, (m.Unpaid, m.Error)) or state == m.Pending(counter=v.done),
                "state after database trouble with {} groups redeemed is {}",
                v.done,
                state,
            )
            return
        elif v.last is None:
            want = m.Pending(counter=v.done)
        elif v.last[0] == "unpaid":
            want = m.Unpaid(finished=v.last[1])
        else:
            check(
                isinstance(state, m.Error)
                and state.finished == v.last[1]
                and v.last[2] in state.details,
                "state after {} is {}",
                v.last,
                state,
            )
            return
        check_equal(state, want, f"state of a voucher with {v.done} of {self.groups} groups, last failure {v.last}")

    def recover(self):
        """The issuer works from now on: everything must finish by itself."""
        self.issuer.recovered = True
        self.proc.plan.calm()
        for a in list(self.pending):
            self.pending.remove(a)
            self.reply(a, "ok", 0)
            self.settle()
        for _ in range(90):
            if all(
                v.spent or v.done == self.groups for v in self.vouchers.values()
            ):
                break
            self.op_tick(1)
            self.settle()
        for v in self.vouchers.values():
            if not v.spent:
                check(
                    v.done == self.groups,
                    "voucher is not redeemed although the issuer and the database"
                    " work again: {} of {} groups, last failure {}{}",
                    v.done,
                    self.groups,
                    v.last,
                    ", database trouble" if v.disturbed else "",
                )
        self.invariant()
        want = sorted(self.available)
        self.restart(self.case["default"])
        self.invariant()
        self.settle()
        got = self.proc.store.get_unblinded_tokens(len(want))
        self.handed_out(got, len(want))
        groups = zk.raw_rows(
            self.path, "SELECT [voucher], [public-key], [spendable] FROM [redemption-groups]"
        )
        check_equal(sorted(groups), sorted(self.group_keys), "recorded groups and their keys")
        self.stop()


def cases(ok_keys, only_allowed, trouble=False):
    outcome = zk.weighted(
        (6, st.tuples(st.just("ok"), ok_keys)),
        (3, st.tuples(st.just("error"), st.integers(0, 9))),
        (1, st.tuples(st.just("unexpected"), st.just(0))),
        (3, st.tuples(st.just("unpaid"), st.just(0))),
        (1, st.tuples(st.just("spent"), st.just(0))),
        (3, st.tuples(st.just("later"), st.just(0))),
        (2, st.tuples(st.just("crash-in-db"), st.integers(0, 13))),
    )
    reply = st.sampled_from(["ok", "ok", "ok", "error", "unpaid", "spent"])
    ops = zk.weighted(
        (5, zk.op("submit", st.integers(0, 2), st.none() | st.integers(1, 40))),
        (4, zk.op("tick", st.sampled_from([0.25, 0.5, 1, 1, 2, 60]))),
        (5, zk.op("deliver", st.integers(0, 3), reply, ok_keys)),
        (2, zk.op("restart", st.integers(1, 60))),
        (1, zk.op("spend", st.integers(0, 10))),
        *(
            [
                (
                    5,
                    zk.op(
                        "trouble",
                        st.sampled_from(["full", "locked", "unreadable"]),
                        st.integers(0, 12),
                        st.integers(1, 30),
                    ),
                ),
                (2, zk.op("relief")),
            ]
            if trouble
            else []
        ),
    )

    @st.composite
    def build(draw):
        groups = draw(st.sampled_from([1, 2, 3, 3, 4, 5, 16]))
        return {
            "groups": groups,
            "default": groups + draw(st.integers(0, 30)),
            "allowed": draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True)),
            "only_allowed": only_allowed,
            "replicate": draw(st.booleans()),
            "script": draw(zk.program(outcome, 0, 24)),
            "ops": draw(zk.program(ops, 1, 24)),
        }

    return build()
