"""C14: recovery fills only an empty wallet, happens once and is reported truthfully."""

import json
import os
from contextlib import contextmanager
from io import BytesIO

import cbor2
from hypothesis import strategies as st
from twisted.internet.defer import Deferred
from twisted.python.filepath import FilePath
from zope.interface import implementer

from .. import zk
from ..core import Check, Violation, check, check_equal, short
from ..crashdb import CrashConnection, CrashPlan
from ..replica import STORE_OPS, GridError, World, difference, dump, fresh_database

CHECK = Check(
    "C14",
    rule=(
        "Generated local states, replicas (intact or damaged in a chosen way) and"
        " schedules of recovery requests from several watchers over the websocket"
        " protocol objects, malformed requests, disconnections, outcomes of each grid"
        " operation, use of the wallet while a recovery downloads, and restarts."
        " Non-trivial: a recovery got past the emptiness check and something else"
        " (another watcher, a failure, a change of the wallet, damage or a restart) happened."
    ),
    assumptions=[
        "Watchers speak through autobahn's server protocol object; its framing is trusted"
        " and replaced by recording sendMessage and sendClose.",
        "A watcher asks once.",
    ],
)

FINAL = ("succeeded", "download_failed", "import_failed")
RANK = {
    "started": 0,
    "inspect_replica": 1,
    "downloading": 2,
    "importing": 3,
    "succeeded": 4,
    "download_failed": 4,
    "import_failed": 4,
}

DAMAGE = [
    "no snapshot",
    "snapshot is garbage",
    "snapshot version",
    "snapshot statement",
    "snapshot statement type",
    "snapshot foreign key",
    "snapshot truncated",
    "event stream garbage",
    "event stream statement",
    "event stream version",
]

BAD_REQUESTS = [
    b"",
    b"\xff\xfe",
    b"[]",
    b"{}",
    b"null",
    b'"URI:DIR2-RO:aaaa"',
    b'{"recovery-capability": 3}',
    b'{"recovery-capability": null}',
    b'{"recovery-capability": ["x"]}',
    b'{"recovery-capability": "URI:DIR2-RO:xx"}',
    b'{"recovery-capability": "hello"}',
    ("extra key",),
    ("write capability",),
    ("file capability",),
    ("other key",),
]

FATE = st.sampled_from(["pending", "redeemed", "double spent", "set aside", "used up"])
cap = st.sampled_from([0, 0, 0, 0, 1])
OPS = zk.weighted(
    (6, zk.op("ask", cap)),
    (2, zk.op("bad", st.integers(0, len(BAD_REQUESTS) - 1))),
    (2, zk.op("leave", st.integers(0, 5))),
    (10, zk.op("grid", st.sampled_from(["go"] * 7 + ["fail"]))),
    (2, zk.op("grid-all")),
    (2, zk.op("voucher", st.integers(0, 3), FATE)),
    (1, zk.op("maintenance", st.integers(0, 10**5))),
    (1, zk.op("restart", st.booleans())),
    (1, zk.op("read")),
    (
        2,
        zk.op(
            "trouble",
            st.sampled_from(["full", "locked", "unreadable"]),
            st.one_of(st.integers(0, 8), st.integers(0, 80)),
            st.sampled_from([1, 2, 80]),
        ),
    ),
)

REPLICA = st.fixed_dictionaries(
    {
        "ops": st.lists(
            zk.weighted(*STORE_OPS, (4, zk.op("drain")), (2, zk.op("step"))), max_size=8
        ),
        "policy": st.lists(st.booleans(), min_size=1, max_size=3),
    }
)


class Source(World):
    def op_drain(self):
        self.drain()

    def op_step(self):
        self.step("go")


def build_replica(spec, ctx):
    w = Source(spec, ctx)
    w.start()
    w.enable()
    for o in spec["ops"]:
        w.run_op(o)
    w.drain()
    w.catch_up()
    return w


class Recovery:
    def __init__(self, cap):
        self.cap = cap
        self.refused = False
        self.failed_grid = False
        self.voucher_added = False
        self.database_failed = False
        self.messages = None
        self.settled = False


class Watcher:
    def __init__(self, world):
        self.messages = []
        self.closes = []
        self.left = False
        self.proto = world.factory.buildProtocol(None)
        self.proto.sendMessage = self._message
        self.proto.sendClose = self._close

    def _message(self, payload, isBinary=False, *a, **kw):
        check(isinstance(payload, bytes), "a message which is not bytes: {!r}", payload)
        check(not isBinary, "a status update marked as binary")
        if not self.closes and not self.left:
            self.messages.append(payload)

    def _close(self, code=None, reason=None):
        self.closes.append(code)

    @property
    def open(self):
        return not self.left


class Wallet:
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.case = case
        self.dir = ctx.tempdir()
        self.sources = [build_replica(case["replicas"][0], ctx)]
        self.grid = self.sources[0].grid
        self.raw = self.grid.client(FilePath(os.path.join(self.dir, "node")))
        self.caps = [self.sources[0].cap.reader]
        self.caps.append(self.second_replica())
        self.want = [self.sources[0].current(), None]
        self.damaged = [False, True]
        if case["damage"] is not None:
            self.damage(DAMAGE[case["damage"]])
        self.path = fresh_database(self.dir)
        self.now = zk.Now()
        self.serial = 5000
        self.gates = []
        self.events = set()
        self.recoveries = []
        self.trouble = None
        self.store = None
        self.start()

    def second_replica(self):
        """Another directory, it happens to be empty."""
        self.cap_b = self.grid.make_directory()
        return self.cap_b.reader

    # -- damage

    def damage(self, how):
        world = self.sources[0]
        d = world.cap
        contents = world.replica_contents()
        snapshot = self.grid.download(contents["snapshot"])
        streams = sorted(
            (n for n in contents if n.startswith("event-stream-")),
            key=lambda n: int(n.rsplit("-", 1)[1]),
        )

        def put(name, data):
            self.grid.link(d, name, self.grid.upload(data))

        def put_statements(edit):
            doc = cbor2.loads(snapshot)
            statements = list(doc["statements"])
            edit(statements)
            doc["statements"] = statements
            put("snapshot", cbor2.dumps(doc))

        at = self.case["where"]
        if how == "no snapshot":
            self.grid.unlink(d, "snapshot")
        elif how == "snapshot is garbage":
            put("snapshot", b"\xff\x00this is not a snapshot")
        elif how == "snapshot version":
            put("snapshot", cbor2.dumps(dict(cbor2.loads(snapshot), version=99)))
        elif how == "snapshot statement":
            put_statements(
                lambda s: s.insert(at % (len(s) + 1), "INSERT INTO [no such table] VALUES (1)")
            )
        elif how == "snapshot statement type":
            put_statements(lambda s: s.insert(at % (len(s) + 1), 17))
        elif how == "snapshot foreign key":
            put_statements(
                lambda s: s.insert(
                    len(s) - 1,
                    "INSERT INTO [tokens] ([text], [voucher], [counter]) VALUES ('tt', 'nobody', 0)",
                )
            )
        elif how == "snapshot truncated":
            put("snapshot", snapshot[: len(snapshot) * (1 + at % 90) // 100])
        elif how == "event stream garbage":
            put("event-stream-999999", b"\xff\x00junk")
        elif how == "event stream statement":
            from _zkapauthorizer.replicate import Change, EventStream

            ev = EventStream([Change(999999, "INSERT INTO [vouchers] VALUES (1)", (), False)])
            put("event-stream-999999", ev.to_bytes().read())
        elif how == "event stream version":
            put("event-stream-999999", cbor2.dumps({"version": 77, "events": []}))
        else:
            raise AssertionError(how)
        self.damaged[0] = True
        self.damage_name = how

    # -- process

    def gated(self):
        from _zkapauthorizer.tahoe import ITahoeClient

        world = self
        raw = self.raw

        async def gate(what):
            d = Deferred()
            world.gates.append(d)
            mode = await d
            if mode == "fail":
                raise GridError(f"{what} failed")

        @implementer(ITahoeClient)
        class Client:
            def get_config(self):
                return raw.get_config()

            def get_private_path(self, name):
                return raw.get_private_path(name)

            async def download(self, outpath, cap):
                await gate("download")
                return await raw.download(outpath, cap)

            async def list_directory(self, cap):
                await gate("list")
                return await raw.list_directory(cap)

            async def upload(self, data):
                raise Violation("recovery uploads something")

            async def make_directory(self):
                raise Violation("recovery makes a directory")

            async def link(self, *a):
                raise Violation("recovery links something")

            async def unlink(self, *a):
                raise Violation("recovery unlinks something")

        return Client()

    def start(self):
        from _zkapauthorizer.recover import get_tahoe_lafs_downloader
        from _zkapauthorizer.resource import RecoverFactory

        self.gates = []
        self.plan = CrashPlan()
        self.store, self.close_store = zk.open_voucher_store(
            self.path, self.now, wrap=lambda conn: CrashConnection(conn, self.plan)
        )
        self.ctx.cleanup(self.close_store)
        self.factory = RecoverFactory(self.store, get_tahoe_lafs_downloader(self.gated()))
        self.watchers = []
        self.recovery = None
        self.state = self.observe()

    def observe(self):
        import sqlite3

        conn = sqlite3.connect(self.path)
        try:
            return dump(conn)
        finally:
            conn.close()

    def empty(self):
        return self.state["vouchers"][1] == []

    # -- operations

    def payload(self, i):
        from tahoe_capabilities import danger_real_capability_string

        return json.dumps(
            {"recovery-capability": danger_real_capability_string(self.caps[i])}
        ).encode("ascii")

    def op_ask(self, i):
        w = Watcher(self)
        w.cap = i
        if self.recovery is None:
            self.recovery = Recovery(i)
            self.recoveries.append(self.recovery)
            self.recovery.refused = not self.empty()
            self.watchers.append(w)
            with self.recovering():
                w.proto.onMessage(self.payload(i), False)
            if self.recovery.database_failed:
                pass
            elif self.recovery.refused:
                self.events.add("refused")
                check(not self.gates, "a recovery into a wallet in use went to the grid")
        else:
            self.events.add("second watcher" if i == self.recovery.cap else "other replica")
            n = len(self.gates)
            self.watchers.append(w)
            w.proto.onMessage(self.payload(i), False)
            check_equal(len(self.gates), n, "grid operations under way after a second request")
        self.check()

    def op_bad(self, i):
        from tahoe_capabilities import danger_real_capability_string

        payload = BAD_REQUESTS[i]
        good = danger_real_capability_string(self.caps[0])
        if not isinstance(payload, bytes):
            (kind,) = payload
            payload = json.dumps(
                {
                    "extra key": {"recovery-capability": good, "x": 1},
                    "other key": {"recovery_capability": good},
                    "write capability": {
                        "recovery-capability": danger_real_capability_string(self.cap_b)
                    },
                    "file capability": {
                        "recovery-capability": danger_real_capability_string(
                            self.grid.upload(b"x")
                        )
                    },
                }[kind]
            ).encode("ascii")
        w = Watcher(self)
        n = len(self.gates)
        w.proto.onMessage(payload, False)
        check_equal(w.closes, [4000], f"close codes after the malformed request {payload!r}")
        check_equal(w.messages, [], f"messages after the malformed request {payload!r}")
        check_equal(len(self.gates), n, "grid operations after a malformed request")
        w.proto.onClose(True, 1000, None)
        self.check()
        check_equal(w.messages, [], "messages after a malformed request")

    def op_leave(self, i):
        open_ = [w for w in self.watchers if w.open]
        if open_:
            w = open_[i % len(open_)]
            w.left = True
            w.proto.onClose(True, 1000, None)
            self.events.add("left")
            self.check()

    def op_grid(self, mode):
        if not self.gates:
            return
        gate = self.gates.pop(0)
        if mode == "fail":
            self.recovery.failed_grid = True
            self.events.add("grid failure")
        with self.recovering():
            gate.callback(mode)
        self.check()

    def op_grid_all(self):
        while self.gates:
            self.op_grid("go")

    @contextmanager
    def recovering(self):
        """
        The recovery goes on now.  What goes wrong with the database goes wrong
        here.
        """
        plan = self.plan
        faults = plan.faults
        if self.trouble is not None and not self.recovery.settled:
            plan.disturb(*self.trouble)
        steps = plan.steps
        try:
            yield
        finally:
            plan.calm()
        if self.trouble is not None:
            kind, after, count = self.trouble
            self.trouble = (kind, max(0, after - (plan.steps - steps)), count)
        if plan.faults > faults:
            self.trouble = None
            self.recovery.database_failed = True
            self.events.add("database failure")

    def op_trouble(self, kind, after, count):
        self.trouble = (kind, after, count)

    def op_voucher(self, v, fate):
        from _zkapauthorizer.model import RandomToken, UnblindedToken

        def tokens():
            self.serial += 1
            return [RandomToken(zk.random_token_bytes(self.serial))]

        number = zk.voucher_number(200 + v)
        before = self.state
        self.store.add(number, 1, 0, tokens)
        # A boolean in older replays.
        fate = {False: "pending", True: "redeemed"}.get(fate, fate)
        if fate != "pending" and self.store.get(number).state.__class__.__name__ == "Pending":
            self.serial += 1
            if fate == "double spent":
                self.store.mark_voucher_double_spent(number)
            else:
                self.store.insert_unblinded_tokens_for_voucher(
                    number,
                    "key",
                    [UnblindedToken(zk.unblinded_token_bytes(self.serial))],
                    completed=True,
                    spendable=fate != "set aside",
                )
            if fate == "used up":
                n = self.store.count_unblinded_tokens()
                self.store.discard_unblinded_tokens(self.store.get_unblinded_tokens(n))
        self.changed()
        check(not self.empty(), "an added voucher is not stored")
        if self.gates:
            self.recovery.voucher_added = True
            self.events.add("voucher added during recovery")

    def op_maintenance(self, size):
        a = self.store.start_lease_maintenance()
        a.observe([size])
        a.finish()
        self.changed()

    def op_read(self):
        n = len(self.store.list())
        check_equal(n, len(self.state["vouchers"][1]), "vouchers listed")
        self.store.count_unblinded_tokens()
        self.check()

    def changed(self):
        self.state = self.observe()

    def op_restart(self, crash):
        self.close_store()
        before = self.state
        self.start()
        if self.state != before:
            raise Violation(
                f"state changed by a stop in the middle: {difference(self.state, before)}"
            )
        self.events.add("restart")

    # -- the judge

    def check(self):
        r = self.recovery
        now = self.observe()
        if r is None:
            if now != self.state:
                raise Violation(f"state changed by itself: {difference(now, self.state)}")
            return
        mine = [w for w in self.watchers if w.cap == r.cap]
        history = max((w.messages for w in mine), key=len)
        for w in self.watchers:
            if w.cap != r.cap:
                check_equal(w.closes, [4000], "close codes for a request naming another replica")
                check_equal(w.messages, [], "messages to one who named another replica")
            elif w.open:
                check_equal(w.messages, history, "messages to a watcher of the same recovery")
            else:
                check_equal(
                    w.messages, history[: len(w.messages)], "messages to a watcher who left"
                )
        if r.messages is not None:
            check_equal(
                history[: len(r.messages)], r.messages, "updates seen by the watchers so far"
            )
        states = [self.parse(m) for m in history]
        stages = [s for s, _ in states]
        if stages and stages[0] != "started":
            check(
                (r.refused or r.database_failed) and stages == ["import_failed"],
                "stages reported: {}",
                stages,
            )
        ranks = [RANK[s] for s in stages]
        check(
            all(a < b for a, b in zip(ranks, ranks[1:])), "stages out of order: {}", stages
        )
        was_final = r.messages is not None and any(
            self.parse(m)[0] in FINAL for m in r.messages
        )
        final = stages[-1] if stages and stages[-1] in FINAL else None
        r.messages = list(history)
        # The grid is all it waits for.
        if not any(w.open for w in mine):
            # Nobody was told the end of it.
            if final is None and not self.gates:
                self.settle(r, None)
            elif now != self.state and final is None:
                raise Violation(
                    f"state changed while a recovery downloads: {difference(now, self.state)}"
                )
            return
        check(
            (final is None) == bool(self.gates),
            "{} grid operations are under way and the last stage is {!r}",
            len(self.gates),
            stages and stages[-1],
        )
        if final is None:
            if now != self.state:
                raise Violation(
                    f"state changed while a recovery downloads: {difference(now, self.state)}"
                )
            return
        for w in mine:
            if w.open:
                check(w.closes in ([None], [1000]), "the watcher of a finished recovery was closed {}", w.closes)
        if was_final:
            if now != self.state:
                raise Violation(f"state changed by itself: {difference(now, self.state)}")
            return
        self.settle(r, final)

    def settle(self, r, final):
        """
        A recovery is over.

        :param final: the outcome as it was reported, None if nobody is there.
        """
        now = self.observe()
        good = (
            not r.refused
            and not r.failed_grid
            and not r.voucher_added
            and not r.database_failed
            and not self.damaged[r.cap]
        )
        what = final if final is not None else "unseen"
        if r.settled:
            if now != self.state:
                raise Violation(f"state changed by itself: {difference(now, self.state)}")
            return
        r.settled = True
        if good:
            check(final in (None, "succeeded"), "recovery from an intact replica ended {}", final)
            if now != self.want[r.cap]:
                raise Violation(
                    f"{what}: recovered state differs: {difference(now, self.want[r.cap])}"
                )
            self.events.add("succeeded")
            self.check_usable()
        else:
            check(
                final != "succeeded",
                "success reported although {}",
                "the wallet was in use"
                if r.refused or r.voucher_added
                else "the grid failed"
                if r.failed_grid
                else "the database failed"
                if r.database_failed
                else "the replica is damaged",
            )
            if now != self.state:
                raise Violation(f"{what}: existing state changed: {difference(now, self.state)}")
            if r.failed_grid and final is not None:
                check_equal(final, "download_failed", "outcome when the grid fails")
            if (r.refused or (r.voucher_added and not r.failed_grid)) and final is not None:
                if not self.damaged[r.cap]:
                    check_equal(final, "import_failed", "outcome for a wallet in use")
            if r.database_failed and final is not None:
                check_equal(final, "import_failed", "outcome when the database fails")
            self.events.add("failed")
            if final is not None and not (
                r.refused or r.failed_grid or r.voucher_added or r.database_failed
            ):
                self.ctx.event(self.damage_name if r.cap == 0 else "empty replica")
        self.state = now

    def check_usable(self):
        self.state = self.observe()
        vouchers = self.store.list()
        check_equal(
            sorted(v.number.decode("ascii") for v in vouchers),
            sorted(
                n
                for (n,) in zk.raw_rows(self.path, "SELECT [number] FROM [vouchers]")
            ),
            "vouchers listed after recovery",
        )
        (spendable,) = zk.raw_rows(
            self.path,
            "SELECT count(*) FROM [unblinded-tokens] AS T, [redemption-groups] AS G"
            " WHERE T.[redemption-group] = G.[rowid] AND G.[spendable] = 1",
        )[0]
        check_equal(self.store.count_unblinded_tokens(), spendable, "passes after recovery")

    def parse(self, message):
        doc = json.loads(message)
        check(
            isinstance(doc, dict) and set(doc) == {"stage", "failure-reason"},
            "status update {!r}",
            message,
        )
        stage, reason = doc["stage"], doc["failure-reason"]
        check(stage in RANK, "unknown stage {!r}", stage)
        if stage.endswith("failed"):
            check(isinstance(reason, str), "{} without a reason", stage)
        else:
            check(reason is None, "{} with failure reason {!r}", stage, reason)
        return stage, reason


@CHECK.test(
    st.fixed_dictionaries(
        {
            "replicas": st.tuples(REPLICA),
            "damage": st.one_of(st.none(), st.none(), st.integers(0, len(DAMAGE) - 1)),
            "where": st.integers(0, 60),
            "local": st.lists(
                zk.weighted(
                    (1, zk.op("voucher", st.integers(0, 3), FATE)),
                    (3, zk.op("maintenance", st.integers(0, 10**5))),
                ),
                max_size=1,
            ),
            "ops": zk.program(OPS, 2, 25),
        }
    ),
    quick=1300,
)
def recovery(case, ctx):
    w = Wallet(case, ctx)
    for name, *args in case["local"]:
        getattr(w, "op_" + name)(*args)
    for name, *args in case["ops"]:
        getattr(w, "op_" + name.replace("-", "_"))(*args)
    w.op_grid_all()
    # The history as somebody who comes late sees it.
    if w.recovery is not None:
        w.op_ask(w.recovery.cap)
        w.op_ask(1 - w.recovery.cap)
    else:
        w.op_ask(0)
        w.op_grid_all()
    w.op_read()
    # Recovery happened or did not; it does not happen again.
    w.op_restart(False)
    if not w.empty():
        w.op_ask(0)
        check(w.recovery.refused, "harness")
    # The wallet works.
    w.op_voucher(3, "redeemed")
    for e in w.events:
        ctx.event(e)
    if any(not r.refused for r in w.recoveries) and w.events - {"succeeded", "refused"}:
        ctx.nontrivial()
