"""C04: the storage client accounts for every pass it reserves for an operation."""

from base64 import b64encode

from hypothesis import strategies as st

from ..core import Check, HarnessError, check, check_equal
from ..storage import (
    LABELS,
    START,
    Wallet,
    cancel_secret,
    ceil_div,
    make_canary,
    message,
    renew_secret,
    storage_index,
    write_enabler,
)
from ..zk import op, program, stretch, weighted

CHECK = Check(
    "C04",
    rule=(
        "Generated schedules of concurrent client operations against a scripted server:"
        " every call stays open until the schedule answers it with success, arbitrary"
        " rejected positions, price disagreement, errors, lost connections, nonsense or"
        " until the caller cancels it.  Non-trivial: passes were rejected and replaced,"
        " or an operation failed after passes had been presented."
    ),
    assumptions=[
        "The server's answer names only what the protocol lets it name.",
        "Turning tokens into passes does not fail.",
    ],
)


def pass_for(n, msg):
    from _zkapauthorizer.model import Pass

    return Pass(
        b64encode(stretch("pre", n, 64)),
        b64encode(stretch("sig" + msg.decode("ascii"), n, 64)),
    )


class Operation:
    def __init__(self, kind, i):
        self.kind = kind
        self.i = i
        self.phase = None
        self.box = []
        self.outstanding = None  # (deferred, name, args)
        self.presented = []  # token numbers of the outstanding call
        self.required = None
        self.expect = None  # None, ("ok", value) or ("error", exception or type)


class Schedule:
    def __init__(self, case, ctx):
        from twisted.internet.task import Clock

        from _zkapauthorizer._storage_client import ZKAPAuthorizerStorageClient

        self.ctx = ctx
        self.pv = case["pass_value"]
        self.wallet = Wallet(case["wallet"])
        self.clock = Clock()
        self.clock.advance(START)
        self.calls = []
        self.ops = []
        self.by_pass = {}
        self.rejections = self.failures = 0

        def tokens_to_passes(msg, tokens):
            out = []
            for t in tokens:
                n = self.wallet.number(t)
                p = pass_for(n, msg)
                self.by_pass[p.pass_bytes] = (n, msg)
                out.append(p)
            return out

        self.controller = self.wallet.controller(tokens_to_passes)
        self.remote = self._remote()
        self.client = ZKAPAuthorizerStorageClient(
            self.pv, lambda: self.remote, self.controller.get, self.clock
        )
        # What the wallet should look like.
        self.expected = dict(self.wallet.state)

    def _remote(self):
        from foolscap.referenceable import Referenceable
        from twisted.internet.defer import Deferred
        from zope.interface import implementer

        from _zkapauthorizer.foolscap import RIPrivacyPassAuthorizedStorageServer
        from _zkapauthorizer.tests.foolscap import LocalRemote

        schedule = self

        @implementer(RIPrivacyPassAuthorizedStorageServer)
        class Nothing(Referenceable):
            pass

        class Scripted(LocalRemote):
            def callRemote(self, _name, *args, **kwargs):
                if kwargs:
                    raise HarnessError("keyword arguments")
                d = Deferred()
                schedule.calls.append((d, _name, args))
                return d

        return Scripted(Nothing())

    # -- starting operations -------------------------------------------------

    def start(self, o, begin, expected_call):
        from twisted.internet.defer import Deferred

        del self.calls[:]
        d = begin()
        if not isinstance(d, Deferred):
            d = Deferred.fromCoroutine(d)
        o.d = d
        d.addBoth(o.box.append)
        self.ops.append(o)
        self.expected_call = expected_call
        return o

    def take_call(self, o, name):
        """The operation must just have made exactly this call."""
        check_equal([c[1] for c in self.calls], [name], f"calls made for {o.kind}")
        o.outstanding = self.calls.pop()
        return o.outstanding[2]

    def paid_call(self, o):
        """
        The operation wants to present passes: either it does, or the wallet
        has too few.
        """
        names = {
            "alloc": "allocate_buckets",
            "lease": "add_lease",
            "write": "slot_testv_and_readv_and_writev",
        }
        kept = list(o.presented)
        new = o.required - len(kept)
        free = [n for n, s in self.expected.items() if s == "free"]
        if new > len(free):
            from _zkapauthorizer.model import NotEnoughTokens

            check_equal([c[1] for c in self.calls], [], "calls made without passes")
            for n in kept:
                self.expected[n] = "free"
            self.finish(o, ("error", NotEnoughTokens))
            self.ctx.event("wallet too small")
            if kept:
                self.failures += 1
            return
        args = self.take_call(o, names[o.kind])
        presented = args[0]
        check_equal(len(presented), o.required, f"passes presented for {o.kind}")
        numbers = []
        for p in presented:
            check(p in self.by_pass, "presented something that is no pass of ours")
            n, msg = self.by_pass[p]
            check_equal(
                msg, message(o.kind, storage_index(o.i)), "message a pass is bound to"
            )
            numbers.append(n)
        check_equal(len(set(numbers)), len(numbers), "number of distinct passes")
        check(
            set(kept) <= set(numbers),
            "accepted passes {} were not presented again: {}",
            kept,
            numbers,
        )
        for n in set(numbers) - set(kept):
            check_equal(self.expected[n], "free", f"condition of pass {n} when chosen")
            self.expected[n] = "reserved"
        check_equal(args[1], storage_index(o.i), "storage index of the call")
        check_equal(args[2:], o.rest, "arguments of the call")
        o.presented = numbers
        o.phase = "paid"

    def finish(self, o, expect):
        o.phase = "done"
        o.outstanding = None
        o.presented = []
        o.expect = expect

    def do_alloc(self, i, sharenums, size, secret):
        o = Operation("alloc", i)
        canary = make_canary()
        o.size = size
        o.sharenums = set(sharenums)
        o.required = len(o.sharenums) * ceil_div(size, self.pv)
        o.rest = (
            renew_secret(secret),
            cancel_secret(secret),
            o.sharenums,
            size,
            canary,
        )
        self.start(
            o,
            lambda: self.client.allocate_buckets(
                storage_index(i),
                renew_secret(secret),
                cancel_secret(secret),
                o.sharenums,
                size,
                canary,
            ),
            None,
        )
        self.paid_call(o)

    def do_lease(self, i, secret):
        o = Operation("lease", i)
        o.rest = (renew_secret(secret), cancel_secret(secret))
        self.start(
            o,
            lambda: self.client.add_lease(
                storage_index(i), renew_secret(secret), cancel_secret(secret)
            ),
            None,
        )
        check_equal(
            self.take_call(o, "share_sizes"), (storage_index(i), None), "size query"
        )
        o.phase = "query"

    def do_write(self, i, secret, shares, readv):
        o = Operation("write", i)
        secrets = (write_enabler(0), renew_secret(secret), cancel_secret(secret))
        vectors = {}
        server_vectors = {}
        o.writes = {}
        for shnum, testv, writes in shares:
            testv = [(off, len(spec), spec) for off, spec in testv]
            datav = [(off, b"d" * n) for off, n in writes]
            vectors[shnum] = (testv, datav, None)
            server_vectors[shnum] = (
                [(off, n, b"eq", spec) for off, n, spec in testv],
                datav,
                None,
            )
            if datav:
                o.writes[shnum] = max(off + len(d) for off, d in datav)
        readv = [tuple(r) for r in readv]
        o.rest = (secrets, server_vectors, readv)
        self.start(
            o,
            lambda: self.client.slot_testv_and_readv_and_writev(
                storage_index(i), secrets, vectors, readv
            ),
            None,
        )
        if o.writes:
            check_equal(
                self.take_call(o, "stat_shares"), ([storage_index(i)],), "share query"
            )
            o.phase = "query"
        else:
            o.required = 0
            self.paid_call(o)

    def do_free(self, which, i):
        o = Operation("free", i)
        si = storage_index(i)
        name, begin, args = {
            "readv": (
                "slot_readv",
                lambda: self.client.slot_readv(si, [0], [(0, 1)]),
                (si, [0], [(0, 1)]),
            ),
            "buckets": ("get_buckets", lambda: self.client.get_buckets(si), (si,)),
            "version": ("get_version", lambda: self.client.get_version(), ()),
            "stat": ("stat_shares", lambda: self.client.stat_shares([si]), ([si],)),
            "advise": (
                "advise_corrupt_share",
                lambda: self.client.advise_corrupt_share(b"mutable", si, 1, b"bad"),
                (b"mutable", si, 1, b"bad"),
            ),
        }[which]
        o.which = which
        self.start(o, begin, None)
        check_equal(self.take_call(o, name), args, f"arguments of {name}")
        o.phase = "free"

    # -- answers -----------------------------------------------------------

    def open_ops(self):
        return [o for o in self.ops if o.outstanding is not None]

    def do_answer(self, pick, answer):
        ops = self.open_ops()
        if not ops:
            return
        self.answer(ops[pick % len(ops)], answer)

    def answer(self, o, answer):
        from twisted.python.failure import Failure

        d = o.outstanding[0]
        how = answer[0]
        del self.calls[:]
        if how == "error":
            e = self.exception(answer[1])
            o.outstanding = None
            self.fails(o, e)
            d.errback(Failure(e))
        elif o.phase == "query":
            self.answer_query(o, d, answer)
        elif o.phase == "free":
            self.answer_free(o, d, answer)
        else:
            self.answer_paid(o, d, answer)

    def fails(self, o, expect):
        if o.phase == "paid":
            for n in o.presented:
                self.expected[n] = "free"
            self.failures += 1
            self.ctx.event("failed after presenting passes")
        self.finish(o, ("error", expect))

    def exception(self, which):
        from foolscap.ipb import DeadReferenceError
        from foolscap.tokens import Violation as FViolation
        from foolscap.tokens import RemoteException
        from twisted.internet.error import ConnectionDone, ConnectionLost
        from twisted.python.failure import Failure

        from _zkapauthorizer.model import NotEnoughTokens

        return {
            0: lambda: RuntimeError("it does not work"),
            1: lambda: DeadReferenceError("gone"),
            2: lambda: ConnectionLost(),
            3: lambda: ConnectionDone(),
            4: lambda: FViolation("schema"),
            5: lambda: RemoteException(Failure(ValueError("remote"))),
            6: lambda: NotEnoughTokens(),
            7: lambda: KeyError(1),
        }[which % 8]()

    def answer_query(self, o, d, answer):
        from _zkapauthorizer.foolscap import ShareStat

        _, ok_data, positions, nonsense = answer[0], answer[1], answer[2], answer[3]
        o.outstanding = None
        if answer[0] == "nonsense":
            value = [None, 5, [], [[]], [{}, {}], {b"x": 1}, [{b"x": 1}], {1: b"x"}][
                nonsense % 8
            ]
            # Some of these happen to be fine answers for one kind of query.
            fine = (o.kind == "lease" and value == {}) or (
                o.kind == "write" and value == [{}]
            )
            if fine:
                raise HarnessError("not nonsense")
            self.finish(o, ("error", Exception))
            d.callback(value)
            return
        shares = ok_data
        if o.kind == "lease":
            sizes = {shnum: size for shnum, size, _ in shares}
            o.required = sum(ceil_div(s, self.pv) for s in sizes.values())
            if o.required > 40:
                shares, sizes, o.required = [], {}, 0
            d.callback(sizes)
        else:
            stats = {
                shnum: ShareStat(size, int(self.clock.seconds()) + rel)
                for shnum, size, rel in shares
            }
            o.required = 0
            for shnum, end in o.writes.items():
                stat = stats.get(shnum, ShareStat(0, 0))
                active = stat.lease_expiration > self.clock.seconds()
                o.required += ceil_div(max(stat.size, end), self.pv)
                if active:
                    o.required -= ceil_div(stat.size, self.pv)
            d.callback([stats])
        self.paid_call(o)

    def answer_free(self, o, d, answer):
        from _zkapauthorizer.foolscap import ShareStat

        value = {
            "readv": {0: [b"data"]},
            "buckets": {0: object(), 3: object()},
            "version": {b"a": {b"b": 1}},
            "stat": [{0: ShareStat(7, 8)}],
            "advise": None,
        }[o.which]
        self.finish(o, ("ok", value))
        d.callback(value)

    def answer_paid(self, o, d, answer):
        from twisted.python.failure import Failure

        from _zkapauthorizer.storage_common import MorePassesRequired

        how, data, positions, nonsense = answer
        o.outstanding = None
        presented = o.presented
        if how == "nonsense":
            if o.kind == "lease":
                # Any answer says it is done.
                how = "ok"
            else:
                values = [None, 5, (), (1, 2, 3), "x", object()]
                if o.kind == "write":
                    values += [(None, {}), (True, []), (True, {b"x": []}), (True, {1: [2]})]
                self.fails(o, Exception)
                d.callback(values[nonsense % len(values)])
                return
        if how == "reject":
            # Positions the group has, and perhaps some it does not have.
            chosen = {p if p > 30 else p % max(1, len(presented)) for p in positions}
            if not presented:
                chosen = {p for p in chosen if p > 30}
            e = MorePassesRequired(
                len(presented) - len(chosen), o.required, frozenset(chosen)
            )
            if not chosen:
                self.fails(o, e)
                d.errback(Failure(e))
                return
            kept = []
            for pos, n in enumerate(presented):
                if pos in chosen:
                    self.expected[n] = "rejected"
                    self.rejections += 1
                else:
                    kept.append(n)
            o.presented = kept
            d.errback(Failure(e))
            self.ctx.event("rejected passes replaced")
            self.paid_call(o)
            return
        if how == "price":
            e = MorePassesRequired(len(presented), o.required + nonsense, frozenset())
            self.fails(o, e)
            self.ctx.event("price disagreement")
            d.errback(Failure(e))
            return
        # It worked.
        if o.kind == "alloc":
            wanted = sorted(o.sharenums)
            have = {s for k, s in enumerate(wanted) if k in positions}
            # It may not have the room for all of the rest.
            room = [s for s in wanted if s not in have and not (nonsense >> 2) >> s & 1]
            also = {7} if nonsense & 2 else set()
            value = (have | also, {s: object() for s in room})
            spent = len(room) * ceil_div(o.size, self.pv)
            if len(room) + len(have) < len(wanted):
                self.ctx.event("no room for some shares")
            # Which of the group are spent is the server's rule: the first ones.
            for k, n in enumerate(presented):
                self.expected[n] = "spent" if k < spent else "free"
            if have and presented:
                self.ctx.event("only some shares allocated")
        else:
            value = None if o.kind == "lease" else (bool(nonsense % 2), {0: [b"a"], 2: []})
            for n in presented:
                self.expected[n] = "spent"
        if presented:
            self.ctx.event("spent")
        self.finish(o, ("ok", value))
        d.callback(value)

    def do_cancel(self, pick):
        from twisted.internet.defer import CancelledError

        ops = self.open_ops()
        if not ops:
            return
        o = ops[pick % len(ops)]
        call = o.outstanding[0]
        del self.calls[:]
        o.d.cancel()
        if o.box:
            self.ctx.event("cancelled")
            self.fails(o, CancelledError)
            # A late answer makes no difference.
            if not call.called:
                call.callback(None)

    def do_advance(self, seconds):
        self.clock.advance(seconds)

    # -- checking ------------------------------------------------------------

    def check_state(self):
        from twisted.python.failure import Failure

        check_equal(self.wallet.state, self.expected, "conditions of the passes")
        for o in self.ops:
            if o.phase != "done":
                check_equal(o.box, [], f"result of the unfinished {o.kind}")
                continue
            check(o.box, "{} never finished", o.kind)
            [got] = o.box
            how, value = o.expect
            if how == "ok":
                check_equal(got, value, f"result of {o.kind}")
            else:
                check(
                    isinstance(got, Failure),
                    "{} succeeded with {!r} when it failed with {!r}",
                    o.kind,
                    got,
                    value,
                )
                if isinstance(value, type):
                    check(
                        isinstance(got.value, value),
                        "{} failed with {!r}, not {}",
                        o.kind,
                        got.value,
                        value,
                    )
                else:
                    check(
                        got.value is value,
                        "{} failed with {!r}, not with the server's {!r}",
                        o.kind,
                        got.value,
                        value,
                    )

    def run(self, steps):
        for s in steps:
            getattr(self, "do_" + s[0])(*s[1:])
            self.check_state()
        # Let everything come to an end.
        for k in range(1000):
            ops = self.open_ops()
            if not ops:
                break
            self.answer(ops[0], ["error", k] if k % 2 else ["ok", [], [], k])
            self.check_state()
        else:
            raise HarnessError("operations do not end")
        check_equal(self.wallet.having("reserved"), set(), "passes left reserved")
        for n, reason in self.wallet.reasons.items():
            check_equal(reason, "signature check failed", "reason of rejection")


@st.composite
def cases(draw):
    pv = draw(st.sampled_from([1, 2, 5, 10]))
    index = st.integers(0, 3)
    size = st.one_of(st.integers(0, 4 * pv), st.integers(0, 3).map(lambda n: n * pv))
    secret = st.integers(0, 1)
    shnum = st.integers(0, 4)
    ok_data = st.lists(
        st.tuples(shnum, size, st.sampled_from([-100, -1, 0, 1, 100])),
        max_size=4,
        unique_by=lambda t: t[0],
    )
    positions = st.lists(
        weighted((8, st.integers(0, 12)), (1, st.integers(31, 40))),
        max_size=6,
        unique=True,
    )
    answer = weighted(
        (5, st.tuples(st.just("ok"), ok_data, positions, st.integers(0, 127))),
        (4, st.tuples(st.just("reject"), ok_data, positions, st.just(0))),
        (1, st.tuples(st.just("price"), ok_data, positions, st.integers(-3, 3))),
        (1, st.tuples(st.just("nonsense"), ok_data, positions, st.integers(0, 20))),
        (1, st.tuples(st.just("error"), st.integers(0, 7))),
    )
    shares = st.lists(
        st.tuples(
            shnum,
            st.lists(st.tuples(size, st.binary(max_size=3)), max_size=1),
            st.lists(st.tuples(size, size), max_size=2),
        ),
        max_size=3,
        unique_by=lambda s: s[0],
    )
    step = weighted(
        (3, op("alloc", index, st.lists(shnum, max_size=4, unique=True), size, secret)),
        (2, op("lease", index, secret)),
        (3, op("write", index, secret, shares, st.lists(st.tuples(size, size), max_size=1))),
        (1, op("free", st.sampled_from(["readv", "buckets", "version", "stat", "advise"]), index)),
        (10, op("answer", st.integers(0, 5), answer)),
        (1, op("cancel", st.integers(0, 5))),
        (1, op("advance", st.integers(0, 200))),
    )
    return {
        "pass_value": pv,
        "wallet": draw(st.one_of(st.integers(0, 12), st.integers(20, 80))),
        "steps": draw(program(step, 1, 24)),
    }


@CHECK.test(cases, quick=3000)
def adversarial_server(case, ctx):
    s = Schedule(case, ctx)
    s.run(case["steps"])
    if s.rejections or s.failures:
        ctx.nontrivial()


class Unrecorded(Schedule):
    """
    One operation after the other while the wallet sometimes cannot record what
    became of the passes.
    """

    def perform(self, kind, i, sizes, answers, trouble):
        """
        :param sizes: the sizes of the shares to allocate, renew or write.
        """
        from twisted.internet.defer import Deferred
        from twisted.python.failure import Failure

        from _zkapauthorizer.foolscap import ShareStat
        from _zkapauthorizer.model import NotEnoughTokens
        from _zkapauthorizer.storage_common import MorePassesRequired

        si = storage_index(i)
        secrets = (renew_secret(0), cancel_secret(0))
        shares = {n: size for n, size in enumerate(sizes)}
        size = max(sizes, default=0)
        if kind == "alloc":
            price = len(shares) * ceil_div(size, self.pv)
            begin = lambda: self.client.allocate_buckets(
                si, *secrets, set(shares), size, make_canary()
            )
        elif kind == "lease":
            price = sum(ceil_div(s, self.pv) for s in sizes)
            begin = lambda: self.client.add_lease(si, *secrets)
        else:
            price = sum(ceil_div(s, self.pv) for s in sizes if s)
            vectors = {n: ([], [(0, b"d" * s)] if s else [], None) for n, s in shares.items()}
            begin = lambda: self.client.slot_testv_and_readv_and_writev(
                si, (write_enabler(0), *secrets), vectors, []
            )
        self.wallet.trouble = list(trouble)
        troubled = self.wallet.unrecorded
        del self.calls[:]
        box = []
        d = begin()
        if not isinstance(d, Deferred):
            d = Deferred.fromCoroutine(d)
        d.addBoth(box.append)
        answers = list(answers)
        accepted = None
        failure = None
        while not box:
            [(call, name, args)] = self.calls
            del self.calls[:]
            if name == "share_sizes":
                call.callback(dict(shares))
                continue
            if name == "stat_shares":
                call.callback([{}])
                continue
            presented = [self.by_pass[p][0] for p in args[0]]
            check_equal(len(presented), price, f"passes presented for {kind}")
            check_equal(len(set(presented)), price, "distinct passes presented")
            again = set(presented) & self.charged
            check(not again, "passes {} were presented again after they were spent", again)
            how, positions = answers.pop(0) if answers else ("ok", [])
            positions = {p % price for p in positions} if price else set()
            if how == "reject" and positions:
                call.errback(
                    Failure(
                        MorePassesRequired(price - len(positions), price, frozenset(positions))
                    )
                )
            elif how == "error":
                failure = RuntimeError("no")
                call.errback(Failure(failure))
            else:
                spent = price
                if kind == "alloc":
                    have = {n for n in shares if n in positions}
                    spent = (len(shares) - len(have)) * ceil_div(size, self.pv)
                    accepted = (have, {n: object() for n in shares if n not in have})
                elif kind == "lease":
                    accepted = None
                else:
                    accepted = (True, {})
                self.charged.update(presented[:spent])
                failure = "none"
                call.callback(accepted)
        check_equal(self.calls, [], "calls made after the operation was over")
        [got] = box
        if failure == "none":
            check(
                not isinstance(got, Failure),
                "the server did it but the caller is told {!r}",
                got,
            )
            check_equal(got, accepted, f"result of {kind}")
            self.successes += 1
        else:
            check(isinstance(got, Failure), "{} succeeded with {!r}", kind, got)
            if self.wallet.unrecorded == troubled and failure is not None:
                check(got.value is failure, "failed with {!r}, not {!r}", got.value, failure)
        self.wallet.trouble = []
        for n in self.charged:
            check(
                self.wallet.state[n] in ("spent", "reserved"),
                "pass {} was spent and is {} now",
                n,
                self.wallet.state[n],
            )
        if self.wallet.unrecorded == 0:
            check_equal(self.wallet.having("reserved"), set(), "passes left reserved")
        if self.wallet.unrecorded > troubled:
            self.ctx.event(f"unrecorded in {kind}")
            if failure == "none":
                self.ctx.event("unrecorded success")
                self.ctx.nontrivial()


@st.composite
def unrecorded_cases(draw):
    pv = draw(st.sampled_from([1, 2, 5]))
    answer = st.tuples(
        st.sampled_from(["ok", "ok", "reject", "error"]),
        st.lists(st.integers(0, 9), max_size=3),
    )
    step = op(
        "perform",
        st.sampled_from(["alloc", "lease", "write"]),
        st.integers(0, 3),
        st.lists(st.integers(0, 3 * pv), max_size=3),
        st.lists(answer, max_size=3),
        st.lists(st.booleans(), max_size=4),
    )
    return {"pass_value": pv, "wallet": draw(st.integers(0, 40)), "steps": draw(program(step, 1, 8))}


@CHECK.test(unrecorded_cases, quick=800)
def unrecorded_outcomes(case, ctx):
    s = Unrecorded(case, ctx)
    s.charged = set()
    s.successes = 0
    for step in case["steps"]:
        s.perform(*step[1:])
