"""
A wallet whose database is replicated to an in-memory grid under the control
of the generated history: every grid operation waits until the history says
what becomes of it, and the process can be stopped anywhere.
"""

import os
import shutil
import sqlite3
from datetime import datetime, timedelta, timezone
from functools import partial

from hypothesis import strategies as st
from twisted.internet.defer import CancelledError, Deferred
from zope.interface import implementer

from . import zk
from .core import HarnessError, Violation, check, check_equal, short
from .crashdb import Crash, CrashConnection, CrashPlan

# -- generators

EPOCH = datetime(2021, 2, 3, 4, 5, 6, tzinfo=timezone.utc)
# Text with NUL cannot be written by the database engine's own dump.
text = st.text(st.characters(blacklist_categories=["Cs"], min_codepoint=1), max_size=12)
values = st.one_of(
    st.none(),
    st.integers(-(2**63), 2**63 - 1),
    st.integers(-3, 300),
    st.floats(-1e300, 1e300),
    text,
    st.sampled_from(["it's", 'a "quoted" thing', "-- no comment", "x; y", "BEGIN TRANSACTION;", "\n", ""]),
    st.binary(max_size=16),
    st.booleans(),
    st.tuples(st.just("time"), st.integers(0, 10**12), st.integers(-14, 14)),
)


def value_of(v):
    if isinstance(v, (tuple, list)):
        return (EPOCH + timedelta(microseconds=v[1])).astimezone(
            timezone(timedelta(hours=v[2]))
        )
    return v


key = st.integers(0, 5)
row = st.tuples(key, values)
STATEMENT = zk.weighted(
    (3, zk.op("insert", key, values)),
    (2, zk.op("many", st.lists(row, max_size=4), st.booleans())),
    (2, zk.op("update", key, values)),
    (1, zk.op("update-all", values)),
    (1, zk.op("delete", key)),
    (1, zk.op("replace", st.integers(0, 2), values)),
    (1, zk.op("read", key)),
    (1, zk.op("literal", key, st.sampled_from(["x'y", "; --", "é☃"]))),
    (1, zk.op("delete-many", st.lists(key, max_size=3))),
)
ref = st.integers(0, 30)

STORE_OPS = (
    (3, zk.op("voucher", st.integers(0, 5), st.integers(0, 3))),
    (4, zk.op("redeem", st.integers(0, 5), st.integers(0, 5), st.booleans(), st.booleans())),
    (2, zk.op("get", st.integers(0, 5))),
    (2, zk.op("spend", ref)),
    (1, zk.op("reject", ref)),
    (1, zk.op("reset", ref)),
    (1, zk.op("double-spent", st.integers(0, 5))),
    (2, zk.op("maintenance", st.lists(st.integers(0, 10**6), max_size=3), st.booleans())),
    (1, zk.op("bad-redeem", st.integers(0, 5), st.integers(1, 3), st.booleans())),
    (
        5,
        zk.op(
            "transaction",
            st.lists(STATEMENT, min_size=1, max_size=4),
            st.sampled_from(["commit", "commit", "commit", "important", "rollback", "error"]),
        ),
    ),
)

# The tables which exist but are not the wallet's state.
BOOKKEEPING = {"event-stream", "sqlite_sequence"}


def dump(conn):
    """
    The persistent state reachable by a plain connection: table -> (columns,
    sorted rows).
    """
    r = {}
    names = [
        n
        for (n,) in conn.execute(
            "SELECT [name] FROM [sqlite_master] WHERE [type] = 'table'"
        ).fetchall()
    ]
    for n in names:
        if n in BOOKKEEPING:
            continue
        cur = conn.execute(f"SELECT * FROM [{n}]")
        cols = [d[0] for d in cur.description]
        kinds = ", ".join(f"typeof([{c}])" for c in cols)
        rows = conn.execute(f"SELECT {kinds}, * FROM [{n}]").fetchall()
        r[n] = (cols, sorted(map(repr, rows)))
    return r


def difference(a, b):
    out = []
    for t in sorted(set(a) | set(b)):
        if a.get(t) != b.get(t):
            if t not in a or t not in b:
                out.append(f"table {t} only in {'the replica' if t in a else 'the source'}")
                continue
            (ca, ra), (cb, rb) = a[t], b[t]
            if ca != cb:
                out.append(f"{t}: columns {ca} != {cb}")
            extra = list(ra)
            for x in rb:
                if x in extra:
                    extra.remove(x)
            missing = list(rb)
            for x in ra:
                if x in missing:
                    missing.remove(x)
            out.append(
                f"{t}: only recovered {short(extra)}; only in the source {short(missing)}"
            )
    return "; ".join(out)


_template = {}


def fresh_database(directory, name="db"):
    """
    A path with an initialised, empty database.
    """
    path = os.path.join(directory, name)
    pid = os.getpid()
    if pid not in _template:
        store, close = zk.open_voucher_store(path, zk.Now())
        close()
        with open(path, "rb") as f:
            _template[pid] = f.read()
    with open(path, "wb") as f:
        f.write(_template[pid])
    return path


class GridError(Exception):
    """The grid refused or failed an operation."""


class Gate:
    def __init__(self, proc, what, args):
        self.proc = proc
        self.what = what
        self.args = args
        self.d = Deferred(self.cancel)

    def cancel(self, d):
        if self.proc.world.case.get("rude"):
            # As Twisted does for a connection attempt.
            d.errback(GridError(f"{self.what} was interrupted"))


def gated_client(world, proc, client):
    from _zkapauthorizer.tahoe import ITahoeClient

    @implementer(ITahoeClient)
    class GatedClient:
        def get_config(self):
            return client.get_config()

        def get_private_path(self, name):
            return client.get_private_path(name)

        async def _do(self, what, args, f):
            try:
                return await self._doing(what, args, f)
            except Violation as e:
                world.problem = e
                raise

        async def _doing(self, what, args, f):
            gate = Gate(proc, what, args)
            mode = await world.arrive(gate)
            if mode == "fail":
                raise GridError(f"{what} failed")
            result = await f()
            world.effect(gate)
            if mode == "fail-after":
                raise GridError(f"{what} failed after taking effect")
            if mode == "hold":
                after = Gate(proc, what + " reply", args)
                mode = await world.arrive(after)
                if mode == "fail":
                    raise GridError(f"the reply to {what} was lost")
            world.completed(gate)
            return result

        async def download(self, outpath, cap):
            return await client.download(outpath, cap)

        async def upload(self, data_provider):
            # The data is made here, as with the real client.
            with data_provider() as f:
                data = f.read()
            from io import BytesIO

            world.uploading(data)
            return await self._do(
                "upload", (len(data),), lambda: client.upload(lambda: BytesIO(data))
            )

        async def make_directory(self):
            return await client.make_directory()

        async def link(self, dir_cap, name, cap):
            return await self._do("link", (name,), lambda: client.link(dir_cap, name, cap))

        async def unlink(self, dir_cap, name):
            return await self._do("unlink", (name,), lambda: client.unlink(dir_cap, name))

        async def list_directory(self, dir_cap):
            return await self._do("list", (), lambda: client.list_directory(dir_cap))

    return GatedClient()


def is_trouble(e):
    return isinstance(e, sqlite3.OperationalError)


class Policy:
    def __init__(self, world):
        self.world = world

    def should_snapshot(self, snapshot_size, replica_sizes):
        try:
            return self.world.ask(snapshot_size, list(replica_sizes))
        except Exception as e:
            self.world.problem = e
            raise


class FakeReactor:
    """
    The reactor, as far as the replication service uses it, with a clock that
    only the history moves.
    """

    def __init__(self, world, real):
        self._world = world
        self._real = real

    def __getattr__(self, name):
        return getattr(self._real, name)

    def seconds(self):
        return self._world.clock().seconds()

    def callLater(self, *a, **kw):
        return self._world.clock().callLater(*a, **kw)


class Process:
    def __init__(self, world):
        from twisted.internet.task import Clock

        self.world = world
        self.clock = Clock()
        self.plan = CrashPlan()
        self.plan.on_commit = world.committed
        self.service = None
        self.dead_loop = False


class World:
    def __init__(self, case, ctx):
        from _zkapauthorizer.tahoe import MemoryGrid
        from twisted.python.filepath import FilePath

        self.case = case
        self.ctx = ctx
        self.dir = ctx.tempdir()
        self.now = zk.Now()
        self.generation = 0
        self.grid = MemoryGrid()
        self.raw_client = self.grid.client(FilePath(os.path.join(self.dir, "node")))
        self.recover_client = self.grid.client(FilePath(os.path.join(self.dir, "new-node")))
        self.path = fresh_database(self.dir)
        self.gates = []
        self.policy_used = 0
        self.enabled = False
        self.proc = None
        self.problem = None
        self.serial = 0
        # history of the states of the source
        self.states = []
        self.covered_by_upload = None
        self.link_covers = {}
        self.floor = None
        self.important_index = None
        self.checked_contents = None
        self.n_recoveries = 0
        self.n_uploads = {"snapshot": 0, "event-stream": 0}
        self.n_unlinks = 0
        self.n_crashes = 0
        self.n_failures = 0
        self.n_faults = 0
        self.on_effect = None
        self.use_clock()
        self.new_directory()

    def use_clock(self):
        from twisted import internet
        from twisted.internet import reactor

        internet.reactor = FakeReactor(self, reactor)
        self.ctx.cleanup(lambda: setattr(internet, "reactor", reactor))

    def clock(self):
        from twisted.internet.task import Clock

        return Clock() if self.proc is None else self.proc.clock

    def wait(self, seconds):
        """
        Time passes.
        """
        self.proc.clock.advance(seconds)
        self.raise_problem()

    # -- processes

    def new_directory(self):
        self.cap = zk.sync(self.raw_client.make_directory())

    def start(self):
        from _zkapauthorizer.model import VoucherStore
        from _zkapauthorizer.replicate import with_replication

        p = self.proc = Process(self)
        real = zk.connect(self.path)
        self.conn = CrashConnection(real, p.plan)
        self.ctx.cleanup(self.conn.close)
        p.rconn = with_replication(self.conn, self.enabled)
        p.store = self.store = VoucherStore.from_connection(1000, self.now, p.rconn)
        self.reserved = []
        self.maintenance = None
        if not self.states:
            self.committed()
        if self.enabled:
            self.start_service()

    def start_service(self):
        from _zkapauthorizer.replicate import (
            get_tahoe_lafs_direntry_replica,
            replication_service,
        )

        p = self.proc
        replica = get_tahoe_lafs_direntry_replica(
            gated_client(self, p, self.raw_client), self.cap
        )
        p.service = replication_service(p.rconn, replica, Policy(self))
        p.service.startService()

    def ask(self, snapshot_size, replica_sizes):
        answers = self.case.get("policy") or [False]
        r = answers[self.policy_used % len(answers)]
        self.policy_used += 1
        return r

    def enable(self):
        if not self.enabled:
            self.enabled = True
            self.start_service()

    def stop(self):
        p = self.proc
        if p.service is not None and not p.plan.crashed:
            box = zk.outcome(p.service.stopService())
            check(box, "stopping replication did not complete")
            check(
                not p.clock.getDelayedCalls(),
                "replication has plans for later when it has been stopped",
            )
        self.proc = None
        self.gates = [g for g in self.gates if g.proc is not p]
        self.conn.close()

    def crash(self):
        """The process is gone, now."""
        p, self.proc = self.proc, None
        if not p.plan.crashed:
            self.conn._die()
        self.gates = [g for g in self.gates if g.proc is not p]
        self.n_crashes += 1
        self.start()

    def reap(self):
        """If the process has crashed start the next one."""
        if self.proc.plan.crashed:
            self.crash()
            return True
        return False

    def raise_problem(self):
        """
        What is found out inside the replication service is only logged there.
        """
        if self.problem is not None:
            raise self.problem

    # -- what the grid does

    def arrive(self, gate):
        self.gates.append(gate)
        return gate.d

    def uploading(self, data):
        self.covered_by_upload = len(self.states) - 1

    def effect(self, gate):
        if gate.what == "link":
            (name,) = gate.args
            kind = "snapshot" if name == "snapshot" else "event-stream"
            self.n_uploads[kind] += 1
            self.link_covers[id(gate)] = self.covered_by_upload
        elif gate.what == "unlink":
            self.n_unlinks += 1
        if gate.what in ("link", "unlink") and self.on_effect is not None:
            self.pending_check = True

    def completed(self, gate):
        if gate.what == "link":
            covers = self.link_covers.pop(id(gate))
            if self.floor is None or covers > self.floor:
                self.floor = covers

    def step(self, mode):
        """
        Let the pending grid operation, if there is one, get on.
        """
        if not self.gates:
            return False
        gate = self.gates.pop(0)
        if mode in ("fail", "fail-after"):
            self.proc.dead_loop = True
            self.n_failures += 1
        if mode == "hold" and gate.what.endswith(" reply"):
            mode = "go"
        gate.d.callback(mode)
        self.raise_problem()
        if self.on_effect is not None and getattr(self, "pending_check", False):
            self.pending_check = False
            self.on_effect()
        return True

    def drain(self):
        n = 0
        while self.step("go"):
            n += 1
            check(n < 2000, "replication never becomes idle")
            self.reap()

    # -- the states of the source

    def committed(self):
        conn = sqlite3.connect(self.path)
        try:
            s = dump(conn)
        finally:
            conn.close()
        if not self.states or self.states[-1] != s:
            self.states.append(s)

    def current(self):
        return self.states[-1]

    # -- recovery

    def replica_contents(self):
        return {
            name: entry.ro_uri
            for (name, entry) in self.grid.list_directory(self.cap.reader).items()
        }

    def recover(self):
        """
        Recover from what is in the replica now.

        :return: (state of the recovered database, path)
        """
        from _zkapauthorizer.model import VoucherStore
        from _zkapauthorizer.recover import (
            RecoveryStages,
            StatefulRecoverer,
            get_tahoe_lafs_downloader,
        )
        from _zkapauthorizer.replicate import with_replication

        self.n_recoveries += 1
        path = fresh_database(self.dir, f"recovered-{self.n_recoveries % 2}")
        conn = zk.connect(path)
        try:
            store = VoucherStore.from_connection(
                1000, self.now, with_replication(conn, False)
            )
            recoverer = StatefulRecoverer()
            download = get_tahoe_lafs_downloader(self.recover_client)(self.cap.reader)
            zk.sync(store.call_if_empty(partial(recoverer.recover, download)))
            state = recoverer.state()
            check(
                state.stage == RecoveryStages.succeeded,
                "recovery from {} ended {}: {}",
                sorted(self.replica_contents()),
                state.stage.name,
                state.failure_reason,
            )
            got = dump(conn)
            (spendable,) = conn.execute(
                "SELECT count(*) FROM [unblinded-tokens] AS T, [redemption-groups] AS G"
                " WHERE T.[redemption-group] = G.[rowid] AND G.[spendable] = 1"
            ).fetchone()
            check_equal(
                store.count_unblinded_tokens(),
                spendable,
                "passes free for use after recovery (the rest are reserved by nobody)",
            )
            return got, path
        finally:
            conn.close()

    def has_snapshot(self):
        return "snapshot" in self.replica_contents()

    def catch_up(self):
        """
        Make sure everything is uploaded: an important change must cause that.
        """
        self.proc.plan.calm()
        if self.proc.dead_loop:
            if self.case.get("patient"):
                self.wait(24 * 60 * 60)
                self.proc.dead_loop = False
                self.ctx.event("goes on after a failure")
            else:
                self.stop()
                self.start()
        self.drain()
        self.voucher(1000 + self.serial, 1)
        self.drain()

    def check_caught_up(self, when):
        got, path = self.recover()
        want = self.current()
        if got != want:
            raise Violation(f"{when}: recovered state differs: {difference(got, want)}")
        return path

    # -- use of the database

    def run_op(self, o):
        """
        :return: whether it got to the end (it did not if the process crashed).
        """
        plan = self.proc.plan
        faults = plan.faults
        try:
            getattr(self, "op_" + o[0].replace("-", "_"))(*o[1:])
        except Exception as e:
            # Whatever a dying process raises does not matter, nor that a
            # failing database is reported.
            if not plan.crashed and not (plan.faults > faults and is_trouble(e)):
                raise
        if plan.faults > faults:
            # It may have been replication which ran into it.
            self.ctx.event("database failed")
            self.n_faults += 1
            self.proc.dead_loop = True
        self.raise_problem()
        return not self.reap()

    def op_trouble(self, kind, after, count):
        self.proc.plan.disturb(kind, after, count)

    def fresh(self):
        self.serial += 1
        return self.serial

    def voucher(self, v, n):
        from _zkapauthorizer.model import RandomToken

        number = zk.voucher_number(v)
        counter = 0
        rows = zk.raw_rows(
            self.path, "SELECT [counter] FROM [vouchers] WHERE [number] = ?", (number.decode(),)
        )
        if rows:
            counter = rows[0][0]
        before = len(self.states)
        made = []

        def tokens():
            made.extend(RandomToken(zk.random_token_bytes(self.fresh())) for i in range(max(n, 1)))
            return made

        self.store.add(number, 100, counter, tokens)
        if made and len(self.states) > before:
            self.important_index = len(self.states) - 1
        return number

    def op_voucher(self, v, n):
        self.voucher(v, n)

    def unblinded(self, n):
        from _zkapauthorizer.model import UnblindedToken

        return [UnblindedToken(zk.unblinded_token_bytes(self.fresh())) for i in range(n)]

    def op_redeem(self, v, n, completed, spendable):
        number = self.voucher(v, 1)
        self.now.advance(7.25)
        self.store.insert_unblinded_tokens_for_voucher(
            number, f"key-{v}", self.unblinded(n), completed=completed, spendable=spendable
        )

    def op_bad_redeem(self, v, n, unknown):
        """Fails in the middle of the transaction."""
        tokens = self.unblinded(n)
        if unknown:
            number = zk.voucher_number(99)
        else:
            number = self.voucher(v, 1)
            tokens = tokens + [tokens[0]]
        try:
            self.store.insert_unblinded_tokens_for_voucher(
                number, "key", tokens, completed=False, spendable=True
            )
        except Crash:
            raise
        except Exception:
            self.ctx.event("failed transaction")
        else:
            raise Violation("a bad insertion succeeded")

    def op_get(self, n):
        from _zkapauthorizer.model import NotEnoughTokens

        try:
            tokens = self.store.get_unblinded_tokens(n)
        except NotEnoughTokens:
            return
        if tokens:
            self.reserved.append(tokens)
            self.ctx.event("reserved")

    def take(self, r):
        return self.reserved.pop(r % len(self.reserved)) if self.reserved else None

    def op_spend(self, r):
        tokens = self.take(r)
        if tokens:
            self.store.discard_unblinded_tokens(tokens)

    def op_reject(self, r):
        tokens = self.take(r)
        if tokens:
            self.store.invalidate_unblinded_tokens(f"reason {r}", tokens)

    def op_reset(self, r):
        tokens = self.take(r)
        if tokens:
            self.store.reset_unblinded_tokens(tokens)

    def op_double_spent(self, v):
        try:
            self.store.mark_voucher_double_spent(zk.voucher_number(v))
        except ValueError:
            pass

    def op_maintenance(self, sizes, finish):
        if self.maintenance is None:
            self.maintenance = self.store.start_lease_maintenance()
        m = self.maintenance
        m.observe(sizes)
        if finish:
            self.now.advance(11)
            m.finish()
            self.maintenance = None

    def op_transaction(self, statements, ending):
        class Oops(Exception):
            pass

        rconn = self.proc.rconn
        before = len(self.states)
        try:
            with rconn:
                cur = rconn.cursor()
                try:
                    cur.execute("BEGIN IMMEDIATE TRANSACTION")
                    cur.execute(
                        "CREATE TABLE IF NOT EXISTS [extra] ([id] INTEGER PRIMARY KEY, [k] INTEGER, [v])",
                        (),
                    )
                    cur.execute(
                        "CREATE TABLE IF NOT EXISTS [unique] ([k] INTEGER PRIMARY KEY, [v])", ()
                    )
                    if ending == "important":
                        with cur.important():
                            for s in statements:
                                self.statement(cur, s)
                    else:
                        for s in statements:
                            self.statement(cur, s)
                    if ending == "rollback":
                        raise Oops()
                    if ending == "error":
                        cur.execute("INSERT INTO [unique] VALUES (?, ?)", (77, 1))
                        cur.execute("INSERT INTO [unique] VALUES (?, ?)", (77, 2))
                finally:
                    cur.close()
        except Oops:
            self.ctx.event("rolled back")
        except sqlite3.IntegrityError:
            check(ending == "error", "unexpected constraint failure")
            self.ctx.event("rolled back")
        else:
            check(ending != "error", "constraint failure expected")
            if ending == "important" and len(self.states) > before:
                self.important_index = len(self.states) - 1

    def statement(self, cur, s):
        kind, args = s[0], s[1:]
        if kind == "insert":
            k, v = args
            cur.execute("INSERT INTO [extra] ([k], [v]) VALUES (?, ?)", (k, value_of(v)))
        elif kind == "many":
            rows, lazy = args
            rows = [(k, value_of(v)) for (k, v) in rows]
            cur.executemany(
                "INSERT INTO [extra] ([k], [v]) VALUES (?, ?)",
                (r for r in rows) if lazy else rows,
            )
        elif kind == "update":
            k, v = args
            cur.execute("UPDATE [extra] SET [v] = ? WHERE [k] = ?", (value_of(v), k))
        elif kind == "update-all":
            (v,) = args
            cur.execute("UPDATE [extra] SET [v] = ?", (value_of(v),))
        elif kind == "delete":
            cur.execute("DELETE FROM [extra] WHERE [k] = ?", (args[0],))
        elif kind == "delete-many":
            cur.executemany("DELETE FROM [extra] WHERE [k] = ?", [(k,) for k in args[0]])
        elif kind == "replace":
            k, v = args
            cur.execute("INSERT OR REPLACE INTO [unique] VALUES (?, ?)", (k, value_of(v)))
        elif kind == "read":
            cur.execute("SELECT [v] FROM [extra] WHERE [k] = ?", (args[0],))
            cur.fetchall()
        elif kind == "literal":
            k, t = args
            t = t.replace("'", "''")
            cur.execute(f"INSERT INTO [extra] ([k], [v]) VALUES ({k}, '{t}')", ())
        else:
            raise HarnessError(kind)
