"""C13: the replicating connection is transparent and records exactly commits."""

import os
import sqlite3

from hypothesis import strategies as st

from .. import zk
from ..core import Check, HarnessError, Violation, check, check_equal, short
from ..replica import value_of, values

CHECK = Check(
    "C13",
    rule=(
        "Generated programs of transactions (explicit and implicit, committed, failed,"
        " rolled back, with errors caught inside), single and bulk statements in many"
        " spellings, fetches and cursor attributes, recording and observers switched on"
        " on the way; run on a plain connection and on the replicating one and compared"
        " step by step; deliveries compared with what the plain run committed."
        " Non-trivial: something was delivered, something was rolled back."
    ),
    assumptions=["Arguments are tuples, as the wrapper's interface demands."],
)

key = st.integers(0, 6)

# (kind, changes data, statement, arguments or None for the (k, v) pair)
SPELLINGS = [
    ("insert", True, "INSERT INTO [t] ([k], [v]) VALUES (?, ?)", "kv"),
    ("insert", True, "\n            INSERT INTO [t] ([k], [v]) VALUES (?, ?)\n            ", "kv"),
    ("insert", True, "insert into t (k, v) values (?, ?);", "kv"),
    ("insert", True, "-- a comment; with SELECT\nINSERT INTO [t] ([k], [v]) VALUES (?, ?)", "kv"),
    ("insert", True, "/* SELECT */ INSERT INTO [t] ([k], [v]) VALUES (?, ?)", "kv"),
    ("insert", True, "INSERT OR IGNORE INTO [u] ([k], [v]) VALUES (?, ?)", "kv"),
    ("insert", True, "INSERT INTO [u] ([k], [v]) VALUES (?, ?)", "kv"),
    ("insert", True, "REPLACE INTO [u] ([k], [v]) VALUES (?, ?)", "kv"),
    ("insert", True, "INSERT INTO [t] ([k], [v]) SELECT [k], [v] FROM [t] WHERE [k] = ?", "k"),
    ("with", True, "WITH x AS (SELECT ? AS k) INSERT INTO [t] ([k]) SELECT k FROM x", "k"),
    ("update", True, "UPDATE [t] SET [v] = ? WHERE [k] = ?", "vk"),
    ("update", True, "UPDATE [t] SET [v] = (SELECT max([k]) FROM [u])", ""),
    ("update", True, "  update t set v = ?", "v"),
    ("update", True, "UPDATE [u] SET [k] = [k] + ?", "k"),
    ("delete", True, "DELETE FROM [t] WHERE [k] = ?", "k"),
    ("delete", True, "DELETE FROM [t]", ""),
    ("literal", True, "INSERT INTO [t] ([k], [v]) VALUES (1, 'it''s; -- ?')", ""),
    ("select", False, "SELECT [id], [k], [v] FROM [t] WHERE [k] >= ? ORDER BY [id]", "k"),
    ("select", False, "select * from u order by k", ""),
    ("select", False, "\n  SELECT count(*), ? FROM [t]  -- INSERT INTO [t]", "v"),
    ("select", False, "/* UPDATE */ SELECT typeof(?)", "v"),
    ("select", False, "WITH x AS (SELECT * FROM [t]) SELECT count(*) FROM x", ""),
    ("select", False, "SELECT 'INSERT INTO t'", ""),
    ("error", True, "INSERT INTO [missing] VALUES (?)", "v"),
    ("error", True, "INSERT INTO [t] ([k], [v]) VALUES (?)", "v"),
    ("error", True, "INSERT INTO [n] VALUES (NULL)", ""),
    ("error", False, "SELECT FROM WHERE", ""),
    ("error", False, "SELECT * FROM [missing]", ""),
    ("foreign", True, "INSERT INTO [f] ([r]) VALUES (?)", "k"),
]
DDL = [
    "CREATE TABLE IF NOT EXISTS [d1] ([a], [b] TEXT)",
    "CREATE TABLE [d2] AS SELECT * FROM [t]",
    "DROP TABLE IF EXISTS [d1]",
    "ALTER TABLE [t] ADD COLUMN [more]",
    "CREATE INDEX IF NOT EXISTS [i] ON [t] ([k])",
]
one = zk.op(
    "one", st.integers(0, len(SPELLINGS) - 1), key, values, st.sampled_from(["all", "one", "many", "none"])
)
many = zk.op(
    "many",
    st.sampled_from([i for i, s in enumerate(SPELLINGS) if s[3] and s[0] != "select"]),
    st.lists(st.tuples(key, values), max_size=4),
    st.sampled_from(["list", "tuple", "iterator", "generator"]),
)
STEP = zk.weighted(
    (8, one),
    (4, many),
    (1, zk.op("ddl", st.integers(0, len(DDL) - 1))),
    (1, zk.op("new-cursor")),
    (1, zk.op("fetch", st.integers(1, 3))),
    (1, zk.op("old-cursor", st.integers(0, 5))),
)
TRANSACTION = zk.op(
    "transaction",
    st.booleans(),  # explicit BEGIN
    st.lists(st.tuples(STEP, st.booleans()), max_size=6),  # step, important
    st.sampled_from(["commit", "commit", "commit", "raise", "error"]),
    st.booleans(),  # swallow errors of statements
)
OPS = zk.weighted(
    (10, TRANSACTION),
    (1, zk.op("record")),
    (1, zk.op("observer")),
    (1, zk.op("read", st.integers(0, len(SPELLINGS) - 1), key, values)),
    (1, zk.op("dump")),
)


class Oops(Exception):
    pass


SETUP = [
    "CREATE TABLE [t] ([id] INTEGER PRIMARY KEY, [k] INTEGER, [v])",
    "CREATE TABLE [u] ([k] INTEGER PRIMARY KEY, [v])",
    "CREATE TABLE [n] ([x] NOT NULL)",
    "CREATE TABLE [f] ([r] REFERENCES [u]([k]) DEFERRABLE INITIALLY IMMEDIATE)",
    "CREATE TABLE [record] ([n] INTEGER PRIMARY KEY, [who], [what])",
]


class Side:
    """One connection and what it said."""

    def __init__(self, path, ctx, wrapped, recording):
        from _zkapauthorizer.replicate import with_replication

        self.path = path
        self.real = zk.connect(path)
        ctx.cleanup(self.real.close)
        for s in SETUP:
            self.real.execute(s)
        self.real.commit()
        self.real.execute("PRAGMA foreign_keys = ON")
        self.wrapped = wrapped
        self.conn = with_replication(self.real, recording) if wrapped else self.real
        self.cursors = []

    def cursor(self):
        if not self.cursors:
            self.cursors.append(self.conn.cursor())
        return self.cursors[-1]


def args_of(shape, k, v):
    return tuple({"k": k, "v": value_of(v)}[c] for c in shape)


class World:
    def __init__(self, case, ctx):
        self.case = case
        self.ctx = ctx
        d = ctx.tempdir()
        self.plain = Side(os.path.join(d, "plain"), ctx, False, None)
        self.recording = case["recording"]
        self.ours = Side(os.path.join(d, "ours"), ctx, True, self.recording)
        self.observers = []
        self.pending = []  # what the current transaction will deliver
        self.expected = []  # per observer: what it should have been told
        self.rolled_back = False

    # -- observers

    def add_observer(self):
        n = len(self.observers)
        log = {"changes": [], "post": 0, "calls": 0, "n": n}
        self.observers.append(log)
        self.expected.append([])

        def observer(cursor, mutations):
            log["calls"] += 1
            mutations = [(i, s, [tuple(a) for a in m]) for (i, s, m) in mutations]
            log["changes"].extend(
                (bool(i), s, a) for (i, s, rows) in mutations for a in rows
            )
            # What it does with the cursor is kept and is not itself reported.
            cursor.execute(
                "INSERT INTO [record] ([who], [what]) VALUES (?, ?)", (n, len(mutations))
            )

            def post():
                log["post"] += 1
                # The transaction is visible to others by now.
                other = sqlite3.connect(self.ours.path)
                try:
                    (seen,) = other.execute(
                        "SELECT count(*) FROM [record] WHERE [who] = ?", (n,)
                    ).fetchone()
                finally:
                    other.close()
                check_equal(seen, log["calls"], "transactions visible after the commit")

            return post

        self.ours.conn.add_mutation_observer(observer)

    # -- statements

    def both(self, what, f):
        """
        Do it on both and compare the results.
        """
        results = []
        for side in (self.plain, self.ours):
            try:
                results.append(("ok", f(side)))
            except Oops:
                raise
            except sqlite3.Error as e:
                results.append((type(e).__name__, str(e)))
        check_equal(repr(results[1]), repr(results[0]), f"{what} on the replicating connection")
        return results[0]

    def attributes(self, cur, name):
        # Between transactions observers insert rows of their own, so the row
        # id is only about this statement if it inserted a row.
        inserted = name in ("insert", "with", "literal") and (cur.rowcount or 0) > 0
        return (cur.lastrowid if inserted else None, cur.rowcount)

    def run_step(self, s, important, explicit):
        kind, a = s[0], s[1:]
        delivered = []
        if kind == "one":
            i, k, v, fetch = a
            name, changes, sql, shape = SPELLINGS[i]
            args = args_of(shape, k, v)

            def f(side):
                cur = side.cursor()
                got = cur.execute(sql, args) if args or k % 2 else cur.execute(sql)
                check(got is cur, "execute does not return its cursor")
                r = None
                if fetch == "all":
                    r = cur.fetchall()
                elif fetch == "one":
                    r = cur.fetchone()
                elif fetch == "many":
                    r = cur.fetchmany(2)
                return r, self.attributes(cur, name)

            if changes:
                delivered = [(important, sql, args)]
        elif kind == "many":
            i, rows, container = a
            name, changes, sql, shape = SPELLINGS[i]
            rows = [args_of(shape, k, v) for (k, v) in rows]

            def f(side):
                cur = side.cursor()
                given = {
                    "list": lambda: list(rows),
                    "tuple": lambda: tuple(rows),
                    "iterator": lambda: iter(rows),
                    "generator": lambda: (r for r in rows),
                }[container]()
                got = cur.executemany(sql, given)
                check(got is cur, "executemany does not return its cursor")
                return cur.rowcount

            if changes:
                delivered = [(important, sql, r) for r in rows]
        elif kind == "ddl":
            if not explicit:
                return True
            sql = DDL[a[0]]

            def f(side):
                cur = side.cursor()
                cur.execute(sql, ())
                return self.attributes(cur, "ddl")

            delivered = [(important, sql, ())]
        elif kind == "new-cursor":
            def f(side):
                side.cursors.append(side.conn.cursor())
        elif kind == "old-cursor":
            def f(side):
                side.cursor()
                side.cursors.append(side.cursors.pop(a[0] % len(side.cursors)))
        elif kind == "fetch":
            def f(side):
                return side.cursor().fetchmany(a[0])
        else:
            raise HarnessError(kind)

        if important and kind in ("one", "many", "ddl"):
            inner = f

            def f(side):
                if side.wrapped:
                    with side.cursor().important():
                        return inner(side)
                return inner(side)

        result = self.both(kind, f)
        if result[0] == "ok":
            if self.recording:
                self.pending.extend(delivered)
            return True
        self.ctx.event("statement error")
        # A bulk statement which failed half way leaves the rows before: its
        # transaction must not be committed.
        self.partial = self.partial or kind == "many"
        return False

    # -- operations

    def op_transaction(self, explicit, steps, ending, swallow):
        self.partial = False
        outcomes = []
        begun = [(bool(i), s) for (s, i) in steps]

        class Stop(Exception):
            pass

        # The two sides advance in lock step, each inside its own "with".
        entered = []
        exc = None
        for side in (self.plain, self.ours):
            got = side.conn.__enter__()
            check(got is side.conn, "entering does not give the connection")
        try:
            if explicit:
                self.both("begin", lambda side: side.cursor().execute("BEGIN IMMEDIATE TRANSACTION") and None)
            for important, s in begun:
                ok = self.run_step(s, important, explicit)
                if not ok and (not swallow or self.partial):
                    raise Oops("statement failed")
            if ending == "raise":
                raise Oops("deliberately")
            if ending == "error":
                r = self.both(
                    "failing", lambda side: side.cursor().execute("INSERT INTO [n] VALUES (NULL)")
                )
                raise Oops("constraint")
        except Oops as e:
            exc = e

        def leave(side):
            if exc is None:
                return bool(side.conn.__exit__(None, None, None))
            return bool(side.conn.__exit__(type(exc), exc, exc.__traceback__))

        result = self.both("leaving the transaction", leave)
        check_equal(
            self.ours.real.in_transaction, self.plain.real.in_transaction, "in a transaction afterwards"
        )
        if exc is None and result[0] == "ok":
            for e in self.expected:
                e.extend(self.pending)
        elif self.pending:
            self.rolled_back = True
            self.ctx.event("recorded, then rolled back")
        self.pending = []
        self.compare()

    def op_record(self):
        self.ours.conn.enable_replication()
        self.recording = True

    def op_observer(self):
        if len(self.observers) < 3:
            self.add_observer()

    def op_read(self, i, k, v):
        name, changes, sql, shape = SPELLINGS[i]
        if name != "select":
            return
        self.both("read", lambda side: side.cursor().execute(sql, args_of(shape, k, v)).fetchall())

    def op_dump(self):
        def f(side):
            return [
                s for s in side.conn.iterdump()
                if not s.startswith('INSERT INTO "record"')
            ]

        self.both("dump", f)

    def compare(self):
        for log, want in zip(self.observers, self.expected):
            got = log["changes"]
            if repr(got) != repr(want):
                i = 0
                while i < min(len(got), len(want)) and repr(got[i]) == repr(want[i]):
                    i += 1
                raise Violation(
                    f"observer {log['n']} was told {short(got[i:])} after {i} changes,"
                    f" expected {short(want[i:])}"
                )
            check_equal(log["post"], log["calls"], "calls after the commit")

    def run(self):
        for i in range(self.case["observers"]):
            self.add_observer()
        for o in self.case["ops"]:
            self.ctx.event("op:" + o[0])
            getattr(self, "op_" + o[0])(*o[1:])
        tables = [
            n for (n,) in self.plain.real.execute(
                "SELECT [name] FROM [sqlite_master] WHERE [type] = 'table' ORDER BY [name]"
            ).fetchall() if n != "record"
        ]
        for t in tables:
            self.both(f"table {t}", lambda side: side.conn.cursor().execute(f"SELECT * FROM [{t}]").fetchall())
        self.op_dump()
        self.compare()
        if any(self.expected) and self.rolled_back:
            self.ctx.nontrivial()


@CHECK.test(
    st.fixed_dictionaries(
        {
            "recording": st.sampled_from([True, True, False]),
            "observers": st.integers(0, 2),
            "ops": zk.program(OPS, 1, 12),
        }
    ),
    quick=5000,
)
def same_program_on_both(case, ctx):
    World(case, ctx).run()
