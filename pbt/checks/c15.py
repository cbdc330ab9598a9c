"""C15: every older database is upgraded without losing value."""

import os
import sqlite3
import time
from datetime import datetime, timedelta, timezone

from cbor2 import dumps as cbor
from hypothesis import strategies as st

from .. import zk
from ..core import Check, Violation, check, check_equal
from ..crashdb import Crash, CrashConnection, CrashPlan
from ..replica import dump, text
from .c20 import ZONES, set_timezone

CHECK = Check(
    "C15",
    rule=(
        "Databases of every schema version with generated vouchers in all states, blinded"
        " and unblinded tokens, redemption groups, rejected tokens, maintenance records and"
        " events, in several timezones, opened with and without replication, with crashes"
        " at any step of the upgrade.  Non-trivial: an older version with at least one"
        " unspent token and a finished voucher, or a crash during an upgrade."
    ),
    assumptions=[
        "Times in databases before version 8 are local times; sub-second precision of those"
        " may be lost.",
        "Unblinded tokens only exist where a voucher has been redeemed at least in part.",
        "The number of tokens expected for a voucher was not recorded before version 4.",
    ],
)

#: The schema as it was.  HISTORY[n] makes version n + 1 out of version n.
HISTORY = [
    [
        """CREATE TABLE [vouchers] (
            [number] text,
            [created] text,
            [state] text DEFAULT "pending",
            [finished] text DEFAULT NULL,
            [token-count] num DEFAULT NULL,
            PRIMARY KEY([number])
        )""",
        """CREATE TABLE [tokens] (
            [text] text,
            [voucher] text,
            PRIMARY KEY([text])
            FOREIGN KEY([voucher]) REFERENCES [vouchers]([number])
        )""",
        """CREATE TABLE [unblinded-tokens] (
            [token] text,
            PRIMARY KEY([token])
        )""",
        """CREATE TABLE [lease-maintenance-spending] (
            [id] integer,
            [started] text,
            [finished] text,
            [count] integer,
            PRIMARY KEY([id])
        )""",
    ],
    ["ALTER TABLE [vouchers] ADD COLUMN [public-key] text"],
    ["ALTER TABLE [vouchers] ADD COLUMN [counter] integer DEFAULT 0"],
    [
        "ALTER TABLE [tokens] ADD COLUMN [counter] integer NOT NULL DEFAULT 0",
        "ALTER TABLE [vouchers] ADD COLUMN [expected-tokens] integer NOT NULL DEFAULT 32768",
    ],
    [
        """CREATE TABLE [invalid-unblinded-tokens] (
            [token] text,
            [reason] text,
            PRIMARY KEY([token])
        )""",
    ],
    [
        """CREATE TABLE [redemption-groups] (
            [rowid] INTEGER PRIMARY KEY,
            [voucher] text,
            [spendable] integer,
            [public-key] text
        )""",
        "ALTER TABLE [vouchers] ADD COLUMN [sequestered-count] integer NOT NULL DEFAULT 0",
        "ALTER TABLE [unblinded-tokens] ADD COLUMN [redemption-group] integer DEFAULT 1",
    ],
    [
        """CREATE TABLE [event-stream] (
            [sequence-number] INTEGER PRIMARY KEY AUTOINCREMENT,
            [statement] TEXT,
            [important] BOOL
        )""",
    ],
    [],
    ["ALTER TABLE [event-stream] ADD COLUMN [serialized_arguments] TEXT DEFAULT X'80'"],
]
#: The version of the schema in which the base of all this was released.
LATEST = len(HISTORY)

EPOCH = datetime(1970, 1, 1)


def stored_time(version, t, micro):
    """
    How a time was written by the software of some version.
    """
    if version < 8:
        when = datetime.fromtimestamp(t).replace(microsecond=micro)
        return when.replace(fold=0).isoformat(" ")
    when = datetime.fromtimestamp(t, timezone.utc).replace(microsecond=micro)
    return when.isoformat(" ")


def same_time(version, when, t, micro):
    if when.tzinfo is None:
        raise Violation(f"{when} has no timezone")
    got = when.timestamp()
    want = t + micro / 10**6
    if abs(got - want) < 10**-5:
        return True
    if version < 8:
        # An ambiguous local time may be taken either way, and whole seconds do,
        # rounded either way.
        local = datetime.fromtimestamp(int(got)).replace(fold=0)
        was = datetime.fromtimestamp(t).replace(fold=0)
        off = (local - was).total_seconds()
        return abs(got - want) < 7202 and off in (0, 1)
    return False


class Old:
    """
    An older database and what is in it.
    """

    def __init__(self, path, case):
        self.version = v = case["version"]
        self.case = case
        conn = sqlite3.connect(path)
        self.vouchers = {}
        self.blinded = {}
        self.spendable = set()
        self.sequestered = set()
        self.rejected = {}
        self.runs = []
        self.events = []
        with conn:
            conn.execute("CREATE TABLE [version] AS SELECT 0 AS [version]")
            for step in HISTORY[:v]:
                for statement in step:
                    conn.execute(statement)
            conn.execute("UPDATE [version] SET [version] = ?", (v,))
            if v > 0:
                self.fill(conn)
        conn.close()

    def insert(self, conn, table, **row):
        names = ", ".join("[%s]" % n.replace("_", "-") for n in row)
        marks = ", ".join("?" for _ in row)
        cur = conn.execute(
            f"INSERT INTO [{table}] ({names}) VALUES ({marks})", tuple(row.values())
        )
        return cur.lastrowid

    def fill(self, conn):
        v = self.version
        groups = []
        n = 0
        for i, x in enumerate(self.case["vouchers"]):
            number = zk.voucher_number(i).decode()
            row = {
                "number": number,
                "created": stored_time(v, *x["created"]),
                "state": x["state"],
            }
            finished = x["state"] != "pending"
            counter = 0
            if v >= 3:
                counter = x["counter"]
                if x["state"] == "redeemed":
                    counter = 16
                row["counter"] = counter
            if finished:
                row["finished"] = stored_time(v, *x["finished"])
            if x["state"] == "redeemed":
                row["token_count"] = x["count"]
            elif counter:
                row["token_count"] = x["count"]
            got_some = counter > 0 or x["state"] == "redeemed"
            if v >= 2 and got_some:
                row["public_key"] = x["key"]
            if v >= 4:
                row["expected_tokens"] = x["expected"]
            self.insert(conn, "vouchers", **row)
            self.vouchers[number] = (x, counter, row)
            for c in sorted({0} | ({counter} if v >= 4 else set())):
                texts = []
                for _ in range(x["tokens"]):
                    n += 1
                    texts.append(zk.random_token_bytes(n).decode())
                    more = {"counter": c} if v >= 4 else {}
                    self.insert(conn, "tokens", text=texts[-1], voucher=number, **more)
                self.blinded[number, c] = texts
            if got_some:
                groups.append((number, x))
        ids = []
        if v >= 6:
            for number, x in groups:
                for spendable in x["groups"]:
                    ids.append(
                        (
                            self.insert(
                                conn,
                                "redemption-groups",
                                voucher=number,
                                spendable=int(spendable),
                                public_key=x["key"],
                            ),
                            spendable,
                        )
                    )
        for k, choice in enumerate(self.case["unspent"] if groups else []):
            text = zk.unblinded_token_bytes(k).decode()
            if v >= 6:
                group, spendable = ids[choice % len(ids)]
                self.insert(conn, "unblinded-tokens", token=text, redemption_group=group)
                (self.spendable if spendable else self.sequestered).add(text)
            else:
                self.insert(conn, "unblinded-tokens", token=text)
                self.spendable.add(text)
        if v >= 5:
            for k, reason in enumerate(self.case["rejected"]):
                text = zk.unblinded_token_bytes(1000 + k).decode()
                self.insert(conn, "invalid-unblinded-tokens", token=text, reason=reason)
                self.rejected[text] = reason
        for started, length, finished, count in self.case["runs"]:
            row = {"started": stored_time(v, *started), "count": count}
            if finished:
                row["finished"] = stored_time(v, started[0] + length, started[1])
            k = self.insert(conn, "lease-maintenance-spending", **row)
            self.runs.append((k, started, length, finished, count))
        if v >= 7:
            for statement, important, args in self.case["events"]:
                row = {"statement": statement, "important": important}
                if v >= 9:
                    row["serialized_arguments"] = cbor(args)
                k = conn.execute(
                    "INSERT INTO [event-stream] (%s) VALUES (%s)"
                    % (
                        ", ".join("[%s]" % c for c in row),
                        ", ".join("?" for _ in row),
                    ),
                    tuple(row.values()),
                ).lastrowid
                self.events.append(
                    (k, statement, important, bytes(row.get("serialized_arguments", b"\x80")))
                )
            # Some were uploaded and are gone.
            gone = self.events[: self.case["gone"]]
            for e in gone:
                conn.execute("DELETE FROM [event-stream] WHERE [sequence-number] = ?", e[:1])
            self.gone = len(self.events)
            self.events = self.events[len(gone) :]
        else:
            self.gone = 0

    # -- the oracle

    def verify(self, store):
        v = self.version
        from _zkapauthorizer.model import (
            DoubleSpend,
            NotEnoughTokens,
            Pending,
            RandomToken,
            Redeemed,
        )

        got = {x.number.decode(): x for x in store.list()}
        check_equal(sorted(got), sorted(self.vouchers), "vouchers")
        for number, (x, counter, row) in self.vouchers.items():
            g = got[number]
            check(
                same_time(v, g.created, *x["created"]),
                "voucher created at {} according to the upgraded database, it was at {}",
                g.created,
                row["created"],
            )
            if v >= 4:
                check_equal(g.expected_tokens, x["expected"], "expected tokens")
            if x["state"] == "pending":
                check_equal(g.state, Pending(counter), "state")
            else:
                kind = {"redeemed": Redeemed, "double-spend": DoubleSpend}[x["state"]]
                check(isinstance(g.state, kind), "state {}, it was {}", g.state, x["state"])
                check(
                    same_time(v, g.state.finished, *x["finished"]),
                    "voucher finished at {}, it was at {}",
                    g.state.finished,
                    row["finished"],
                )
                if x["state"] == "redeemed":
                    check_equal(g.state.token_count, x["count"], "token count")
            again = store.get(number.encode())
            check_equal(again, g, "the voucher on its own")
            g.to_json_v1()

        # The tokens a voucher was submitted with are those it is going to be
        # submitted with.
        for (number, c), texts in self.blinded.items():
            if not texts:
                continue

            def no():
                raise Violation("tokens of a known voucher are made anew")

            tokens = store.add(number.encode(), 7, c, no)
            check_equal(
                sorted(t.token_value.decode() for t in tokens), sorted(texts), "blinded tokens"
            )

        check_equal(store.count_unblinded_tokens(), len(self.spendable), "unspent tokens")
        spent = []
        if self.spendable:
            spent = store.get_unblinded_tokens(len(self.spendable))
        check_equal(
            sorted(t.unblinded_token.decode() for t in spent),
            sorted(self.spendable),
            "tokens which can be spent",
        )
        try:
            store.get_unblinded_tokens(1)
        except NotEnoughTokens:
            pass
        else:
            raise Violation("there is another token to spend")
        store.reset_unblinded_tokens(spent)

        best = store.get_latest_lease_maintenance_activity()
        done = [r for r in self.runs if r[3]]
        if not done:
            check(best is None, "there is a finished maintenance run: {}", best)
        else:
            check(best is not None, "the finished maintenance run is lost")
            top = max(r[1][0] + r[2] for r in done)
            check(
                any(
                    r[1][0] + r[2] > top - 7202
                    and same_time(v, best.started, *r[1])
                    and same_time(v, best.finished, r[1][0] + r[2], r[1][1])
                    and best.passes_required == r[4]
                    for r in done
                ),
                "the last maintenance run is {}",
                best,
            )

    def verify_raw(self, path):
        """
        What the store does not tell.
        """
        r = zk.raw_rows(path, "SELECT [token], [reason] FROM [invalid-unblinded-tokens]")
        check_equal(sorted(r), sorted(self.rejected.items()), "rejected tokens")
        r = zk.raw_rows(path, "SELECT [token] FROM [unblinded-tokens]")
        check_equal(
            sorted(t for t, in r), sorted(self.spendable | self.sequestered), "unblinded tokens"
        )
        r = zk.raw_rows(
            path,
            "SELECT [id], [finished] IS NOT NULL, [count] FROM [lease-maintenance-spending]",
        )
        check_equal(
            sorted(r), sorted((k, int(f), c) for k, _, _, f, c in self.runs), "maintenance runs"
        )
        keys = {
            (number, row["public_key"])
            for number, (x, counter, row) in self.vouchers.items()
            if row.get("public_key") is not None
        }
        if self.version >= 2:
            r = zk.raw_rows(path, "SELECT [voucher], [public-key] FROM [redemption-groups]")
            check(keys <= set(r), "redemption groups are {}, without {}", r, keys - set(r))

    def verify_events(self, path, exact):
        r = zk.raw_rows(
            path,
            "SELECT [sequence-number], [statement], [important], [serialized_arguments]"
            " FROM [event-stream] ORDER BY [sequence-number]",
        )
        r = [(k, s, i, bytes(a)) for k, s, i, a in r]
        if exact:
            check_equal(r, self.events, "events")
        else:
            check_equal(r[: len(self.events)], self.events, "events")


def shape(path):
    """
    The schema as far as it makes a difference.
    """
    conn = sqlite3.connect(path)
    try:
        r = {}
        for kind, name in conn.execute(
            "SELECT [type], [name] FROM [sqlite_master] WHERE [name] NOT LIKE 'sqlite%'"
        ).fetchall():
            if kind == "table":
                r[name] = (
                    [
                        (c[1], c[2].lower(), c[3], c[4], c[5])
                        for c in conn.execute(f"PRAGMA table_info([{name}])")
                    ],
                    [x[2:5] for x in conn.execute(f"PRAGMA foreign_key_list([{name}])")],
                    sorted(x[2:4] for x in conn.execute(f"PRAGMA index_list([{name}])")),
                )
            else:
                r[name] = kind
        check("version" in r, "the database has no version")
        r["version"] = (r["version"], conn.execute("SELECT * FROM [version]").fetchall())
        return r
    finally:
        conn.close()


def contents(path):
    conn = sqlite3.connect(path)
    try:
        schema = conn.execute("SELECT * FROM [sqlite_master] ORDER BY [name]").fetchall()
        rows = dump(conn)
        return (
            [(x[0], x[1], x[4]) for x in schema],
            {t: conn.execute(f"SELECT * FROM [{t}] ORDER BY 1").fetchall() for t in rows},
        )
    finally:
        conn.close()


def open_store(path, now, replicate, plan=None):
    from _zkapauthorizer.model import VoucherStore, open_database
    from _zkapauthorizer.replicate import with_replication

    def connect(isolation_level):
        real = sqlite3.connect(path, isolation_level=isolation_level)
        return real if plan is None else CrashConnection(real, plan)

    conn = open_database(connect)
    try:
        return (
            VoucherStore.from_connection(1000, now, with_replication(conn, replicate)),
            conn.close,
        )
    except BaseException:
        conn.close()
        raise


@st.composite
def cases(draw):
    # Not around the turn of the epoch or of 2038, where local times are a mess.
    when = st.tuples(
        st.integers(800000000, 2000000000)
        | st.sampled_from([1635642000, 1616893200, 1636261200, 1667095200])
        .flatmap(lambda t: st.integers(t - 7200, t + 7200)),
        st.sampled_from([0, 0, 1, 250000, 999999]),
    )
    voucher = st.fixed_dictionaries(
        {
            "created": when,
            "finished": when,
            "state": st.sampled_from(["pending", "pending", "redeemed", "double-spend"]),
            "counter": zk.weighted((1, st.just(0)), (2, st.integers(1, 15))),
            "count": st.integers(0, 40000),
            "expected": st.integers(1, 40000),
            "tokens": st.integers(0, 4),
            "key": st.sampled_from(["key-one", "key-two", None]),
            "groups": st.lists(st.booleans(), min_size=1, max_size=3),
        }
    )
    return {
        "version": draw(st.integers(0, LATEST)),
        "vouchers": draw(st.lists(voucher, max_size=4)),
        "unspent": draw(st.lists(st.integers(0, 11), max_size=8)),
        "rejected": draw(st.lists(text, max_size=3)),
        "runs": draw(
            st.lists(
                st.tuples(when, st.integers(0, 10**6), st.booleans(), st.integers(0, 2**40)),
                max_size=4,
            )
        ),
        "events": draw(
            st.lists(
                st.tuples(
                    st.sampled_from(["DELETE FROM [tokens] WHERE 0", "UPDATE [x] SET y = ?"]),
                    st.booleans(),
                    st.lists(st.lists(st.integers(0, 9) | st.text(max_size=2), max_size=2), max_size=2),
                ),
                max_size=4,
            )
        ),
        "gone": draw(st.integers(0, 4)),
        "zone": draw(st.sampled_from(ZONES)),
        "replicate": draw(zk.weighted((3, st.just(False)), (1, st.just(True)))),
        "crashes": draw(
            zk.weighted((1, st.just([])), (2, st.lists(st.integers(0, 45), min_size=1, max_size=3)))
        ),
        "reopen": draw(st.integers(1, 2)),
    }


@CHECK.test(cases, quick=1000)
def upgrade(case, ctx):
    set_timezone(ctx, case["zone"])
    directory = ctx.tempdir()
    path = os.path.join(directory, "old.sqlite3")
    old = Old(path, case)
    now = zk.Now()
    replicate = case["replicate"] and old.version >= 7
    crashed = False
    for at in case["crashes"]:
        plan = CrashPlan(at)
        try:
            _, close = open_store(path, now, replicate, plan)
        except Crash:
            crashed = True
            ctx.event("crash during the upgrade")
        else:
            plan.disarm()
            close()
    before = contents(path)
    store, close = open_store(path, now, replicate)
    try:
        old.verify(store)
    finally:
        close()
    fresh = os.path.join(directory, "fresh.sqlite3")
    open_store(fresh, now, False)[1]()
    check_equal(shape(path), shape(fresh), "the upgraded schema, compared to a new one")
    old.verify_raw(path)
    if old.version >= 7:
        old.verify_events(path, exact=not replicate)
    upgraded = contents(path)
    if old.version == LATEST and not crashed and shape(path)["version"][1] == [(LATEST,)]:
        check_equal(upgraded, before, "a current database after it was opened")
    for _ in range(case["reopen"]):
        store, close = open_store(path, now, replicate)
        close()
        check_equal(contents(path), upgraded, "a current database after it was opened")
    store, close = open_store(path, now, replicate)
    try:
        old.verify(store)
    finally:
        close()
    ctx.event(f"version {old.version}")
    if crashed or (
        old.version < LATEST
        and old.spendable
        and any(x["state"] != "pending" for x, _, _ in old.vouchers.values())
    ):
        ctx.nontrivial()


@st.composite
def replica_cases(draw):
    case = draw(cases())
    return dict(case, version=draw(st.integers(7, LATEST)))


@CHECK.test(replica_cases, quick=250)
def recovered(case, ctx):
    """
    A replica made by older software is upgraded when what was recovered from
    it is opened.
    """
    from functools import partial

    from _zkapauthorizer.recover import StatefulRecoverer, make_canned_downloader
    from _zkapauthorizer.replicate import connection_to_statements, statements_to_snapshot

    set_timezone(ctx, case["zone"])
    directory = ctx.tempdir()
    path = os.path.join(directory, "old.sqlite3")
    old = Old(path, case)
    conn = sqlite3.connect(path)
    snapshot = statements_to_snapshot(connection_to_statements(conn))
    conn.close()

    now = zk.Now()
    path = os.path.join(directory, "new.sqlite3")
    store, close = open_store(path, now, False)
    recoverer = StatefulRecoverer()
    try:
        zk.sync(
            store.call_if_empty(partial(recoverer.recover, make_canned_downloader(snapshot, [])))
        )
        check_equal(recoverer.state().stage.name, "succeeded", "end of the recovery")
        # It is good for use at once.
        old.verify(store)
    finally:
        close()
    for _ in range(case["reopen"]):
        store, close = open_store(path, now, False)
        try:
            old.verify(store)
        finally:
            close()
        old.verify_raw(path)
    fresh = os.path.join(directory, "fresh.sqlite3")
    open_store(fresh, now, False)[1]()
    check_equal(shape(path), shape(fresh), "the upgraded schema, compared to a new one")
    if old.spendable:
        ctx.nontrivial()


@st.composite
def redeem_cases(draw):
    count = draw(st.integers(1, 3))
    voucher = st.fixed_dictionaries(
        {
            "created": st.tuples(st.integers(10**9, 15 * 10**8), st.just(0)),
            "finished": st.tuples(st.integers(10**9, 15 * 10**8), st.just(0)),
            "state": st.sampled_from(["pending", "pending", "redeemed"]),
            "counter": st.integers(0, 3),
            "count": st.just(0),
            "expected": st.integers(4, 12),
            "tokens": st.just(0),
            "key": st.just("key-one"),
            "groups": st.just([True]),
        }
    )
    return {
        "version": draw(st.integers(4, LATEST)),
        "vouchers": draw(st.lists(voucher, min_size=count, max_size=count)),
        "unspent": draw(st.lists(st.just(0), max_size=5)),
        "rejected": [],
        "runs": [],
        "events": [],
        "gone": 0,
        "key": draw(st.sampled_from(["key-one", "key-two"])),
        "zone": "UTC",
    }


@CHECK.test(redeem_cases, quick=250)
def goes_on(case, ctx):
    """
    Vouchers which were pending are redeemed from where their redemption had
    stopped, and unspent tokens keep being good, whatever key is in use now.
    """
    from _zkapauthorizer.controller import DummyRedeemer, PaymentController
    from _zkapauthorizer.model import Redeemed
    from twisted.internet.task import Clock

    directory = ctx.tempdir()
    path = os.path.join(directory, "old.sqlite3")
    old = Old(path, case)
    store, close = open_store(path, zk.Now(), False)
    try:
        allowed = {"key-two"}
        PaymentController(
            Clock(),
            store,
            DummyRedeemer(case["key"]),
            default_token_count=100,
            num_redemption_groups=4,
            allowed_public_keys=allowed,
        )
        new = 0
        for number, (x, counter, row) in old.vouchers.items():
            v = store.get(number.encode())
            if x["state"] == "pending":
                quotient, more = divmod(x["expected"], 4)
                got = sum(quotient + (c < more) for c in range(counter, 4))
                new += got
                check(isinstance(v.state, Redeemed), "the pending voucher became {}", v.state)
                if case["key"] in allowed:
                    check_equal(v.state.token_count, got, "tokens received")
                ctx.nontrivial()
            else:
                check(isinstance(v.state, Redeemed), "the redeemed voucher became {}", v.state)
        if case["key"] not in allowed:
            new = 0
        check_equal(
            store.count_unblinded_tokens(), len(old.spendable) + new, "tokens which can be spent"
        )
        if old.spendable or new:
            tokens = store.get_unblinded_tokens(len(old.spendable) + new)
            check(
                old.spendable <= {t.unblinded_token.decode() for t in tokens},
                "some of the old tokens cannot be spent",
            )
    finally:
        close()
