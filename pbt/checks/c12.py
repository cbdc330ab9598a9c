"""C12: snapshots and event streams round-trip every database value."""

import math
import os
import sqlite3
from functools import partial
from io import BytesIO

import cbor2
from hypothesis import strategies as st

from .. import zk
from ..core import Check, HarnessError, Violation, check, check_equal, short
from ..replica import EPOCH, text, value_of, values

CHECK = Check(
    "C12",
    rule=(
        "Generated databases (adversarial table and column names, declared types,"
        " keys, foreign keys in any order and cyclic, all value types, indexes)"
        " snapshotted and recovered over another generated database; generated event"
        " streams encoded, decoded, stored and replayed; serialized data damaged in"
        " generated ways.  Non-trivial: a database with a foreign key to a table that"
        " sorts later or to itself and at least two rows; an event stream with three"
        " value types; damaged data."
    ),
    assumptions=[
        "Databases limited to what sqlite's own dump can express: no NUL in text, finite"
        " reals below 1e300, no apostrophe in table names, no virtual tables.",
    ],
)

# Letters which mean something to SQL, to str.format, to the code.
ident = st.one_of(
    st.sampled_from(
        ["a", "A", "b", "c", "select", "table", "order by", "x y", "{0}", "%s", "?",
         "[b]", "`q`", 'a"b', '""', "é", "☃", "-- c", ";", "/*", "main", "rowid_",
         "event-stream", "zz", "CREATE TABLE", "version", "0", ""]
    ),
    st.text(
        st.characters(blacklist_categories=["Cs"], blacklist_characters="'\x00"),
        max_size=6,
    ),
)
DECLARED = st.sampled_from(
    ["", "INTEGER", "INT", "TEXT", "BLOB", "REAL", "NUMERIC", "num", "VARCHAR(10)", "BOOL", "datetime"]
)
KEYS = st.sampled_from(
    ["INTEGER PRIMARY KEY", "INTEGER PRIMARY KEY AUTOINCREMENT", "TEXT PRIMARY KEY", "PRIMARY KEY"]
)


@st.composite
def schema(draw, max_tables=4, min_tables=0):
    names = draw(st.lists(ident, min_size=min_tables, max_size=max_tables, unique_by=lambda n: n.lower()))
    tables = []
    for i, name in enumerate(names):
        # Names beginning "sqlite_" are reserved.
        name = name or "empty"
        if name.lower().startswith("sqlite_"):
            name = "x" + name
        tables.append(
            {
                "name": name,
                "key": draw(KEYS),
                "columns": [
                    [n or "e", t]
                    for (n, t) in draw(
                        st.lists(
                            st.tuples(ident, DECLARED),
                            max_size=3,
                            unique_by=lambda c: (c[0] or "e").lower(),
                        )
                    )
                ],
                "ref": draw(st.one_of(st.none(), st.integers(0, max_tables))),
                "cascade": draw(st.booleans()),
                "rows": draw(st.lists(st.tuples(values, values, values, st.integers(0, 9)), max_size=4)),
                "delete": draw(st.integers(0, 3)),
                "index": draw(st.booleans()),
            }
        )
    seen = set()
    out = []
    for t in tables:
        if t["name"].lower() not in seen:
            seen.add(t["name"].lower())
            out.append(t)
    return out


def q(name):
    return '"' + name.replace('"', '""') + '"'


def key_value(t, i):
    if t["key"].startswith("INTEGER"):
        return i * 3 + 1
    if t["key"].startswith("TEXT"):
        return f"k'{i}"
    return [b"k%d" % i, 1.5 + i, "k%d" % i][i % 3]


def build(conn, tables):
    conn.execute("PRAGMA foreign_keys = OFF")
    conn.execute("BEGIN")
    forward = False
    for ti, t in enumerate(tables):
        cols = ['"the key" ' + t["key"]]
        for name, declared in t["columns"]:
            if name.lower() not in ("the key", "the ref"):
                cols.append(f"{q(name)} {declared}")
        if t["ref"] is not None:
            target = tables[t["ref"] % len(tables)]
            cascade = " ON DELETE CASCADE" if t["cascade"] else ""
            cols.append(f'"the ref" REFERENCES {q(target["name"])}("the key"){cascade}')
            if target["name"] >= t["name"]:
                forward = True
        conn.execute(f"CREATE TABLE {q(t['name'])} ({', '.join(cols)})")
    n = 0
    for t in tables:
        names = [c for (c, _) in t["columns"] if c.lower() not in ("the key", "the ref")]
        for i, r in enumerate(t["rows"]):
            args = [key_value(t, i)] + [value_of(v) for v in r[: len(names)]]
            if t["ref"] is not None:
                target = tables[t["ref"] % len(tables)]
                count = len(target["rows"])
                pick = r[3]
                if count == 0 or pick == 9:
                    args.append(None)
                else:
                    args.append(key_value(target, pick % count))
            conn.execute(
                f"INSERT INTO {q(t['name'])} VALUES ({', '.join('?' * len(args))})", args
            )
            n += 1
    # Deleting rows leaves gaps and moves sequences ahead of the content.
    referred = {tables[t["ref"] % len(tables)]["name"] for t in tables if t["ref"] is not None}
    for t in tables:
        if t["name"] not in referred:
            for i in range(t["delete"]):
                k = len(t["rows"]) - 1 - i
                if k >= 0:
                    conn.execute(f'DELETE FROM {q(t["name"])} WHERE "the key" = ?', (key_value(t, k),))
    for i, t in enumerate(tables):
        if t["index"] and t["columns"]:
            c = t["columns"][0][0]
            if c.lower() not in ("the key", "the ref"):
                conn.execute(f"CREATE INDEX {q('index%d' % i)} ON {q(t['name'])} ({q(c)})")
    conn.execute("COMMIT")
    return n, forward


def everything(conn):
    master = sorted(
        conn.execute(
            "SELECT [type], [name], [tbl_name], [sql] FROM [sqlite_master]"
            " WHERE [name] != 'sqlite_sequence' AND [sql] IS NOT NULL"
        ).fetchall()
    )
    content = {}
    names = [n for (k, n, _, _) in master if k == "table"]
    for n in names:
        cur = conn.execute(f"SELECT * FROM {q(n)}")
        cols = [d[0] for d in cur.description]
        types = ", ".join(f"typeof({q(c)})" for c in cols)
        content[n] = [repr(r) for r in conn.execute(f"SELECT {types}, * FROM {q(n)}").fetchall()]
    seq = []
    if conn.execute("SELECT 1 FROM [sqlite_master] WHERE [name] = 'sqlite_sequence'").fetchall():
        seq = sorted(conn.execute("SELECT * FROM [sqlite_sequence]").fetchall())
    return {"schema": master, "content": content, "sequences": seq}


def target(ctx, prior, wallet):
    """
    A database with something in it already.
    """
    from _zkapauthorizer.replicate import with_replication

    conn = sqlite3.connect(":memory:", isolation_level="IMMEDIATE")
    ctx.cleanup(conn.close)
    if wallet:
        from _zkapauthorizer.model import VoucherStore

        VoucherStore.from_connection(1000, zk.Now(), with_replication(conn, False))
    else:
        build(conn, [dict(t, ref=None) for t in prior])
    conn.execute("PRAGMA foreign_keys = ON")
    return conn, with_replication(conn, False)


def apply(rconn, snapshot, streams):
    from _zkapauthorizer.recover import recover

    with rconn:
        cur = rconn.cursor()
        cur.execute("BEGIN IMMEDIATE TRANSACTION")
        recover(partial(BytesIO, snapshot), [partial(BytesIO, s) for s in streams], cur)


@CHECK.test(
    lambda: st.fixed_dictionaries(
        {"tables": st.one_of(schema(), schema(4, 2)), "prior": schema(2), "wallet": st.booleans()}
    ),
    quick=3500,
)
def database_round_trip(case, ctx):
    from _zkapauthorizer.replicate import snapshot, with_replication

    src = sqlite3.connect(":memory:", isolation_level=None)
    ctx.cleanup(src.close)
    n, forward = build(src, case["tables"])
    problems = src.execute("PRAGMA foreign_key_check").fetchall()
    if problems:
        # Affinity changed a key.
        ctx.event("skipped: source violates its own foreign keys")
        return
    snap = snapshot(with_replication(src, False))
    dst, rconn = target(ctx, case["prior"], case["wallet"])
    apply(rconn, snap, [])
    check_equal(everything(dst), everything(src), "database recovered from its snapshot")
    check_equal(dst.execute("PRAGMA foreign_key_check").fetchall(), [], "foreign keys violated")
    # And a snapshot of what was recovered says the same again.
    again, ragain = target(ctx, [], True)
    apply(ragain, snapshot(rconn), [])
    check_equal(everything(again), everything(src), "database recovered twice over")
    if forward and n >= 2:
        ctx.nontrivial()
    if n:
        ctx.event("rows")
    if any(t["ref"] is not None for t in case["tables"]):
        ctx.event("foreign keys")


event_values = st.one_of(
    values,
    st.floats(allow_nan=False),
    st.text(st.characters(blacklist_categories=["Cs"]), max_size=10),
    st.binary(max_size=300),
    st.text("ab\n☃", min_size=24, max_size=300),
)
CHANGE = st.tuples(
    st.one_of(st.integers(0, 30), st.integers(0, 2**63 - 1)),
    st.one_of(text, st.sampled_from(["BEGIN TRANSACTION;", "COMMIT;", "INSERT INTO x VALUES (?)"])),
    st.lists(event_values, max_size=4),
    st.booleans(),
)


def same(a, b):
    from datetime import datetime

    if type(a) is not type(b):
        return False
    if isinstance(a, datetime):
        return a == b and a.utcoffset() == b.utcoffset()
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


def compare_changes(got, want, what):
    check_equal(len(got), len(want), f"{what}: number of changes")
    for g, (seq, stmt, args, important) in zip(got, want):
        check_equal((g.sequence, g.statement), (seq, stmt), f"{what}: change")
        check_equal(bool(g.important), important, f"{what}: importance of {stmt!r}")
        check(
            len(g.arguments) == len(args) and all(map(same, g.arguments, args)),
            "{}: arguments {} instead of {}",
            what,
            short(g.arguments),
            short(args),
        )


@CHECK.test(st.lists(CHANGE, max_size=8), quick=4000)
def event_stream_round_trip(case, ctx):
    from _zkapauthorizer.replicate import Change, EventStream, add_events, get_events

    changes = [(s, t, tuple(value_of(v) for v in a), i) for (s, t, a, i) in case]
    stream = EventStream(changes=[Change(s, t, a, i) for (s, t, a, i) in changes])
    got = EventStream.from_bytes(BytesIO(stream.to_bytes().read()))
    compare_changes(got.changes, changes, "decoded event stream")
    want_high = max((s for (s, _, _, _) in changes), default=None)
    check_equal(stream.highest_sequence(), want_high, "highest sequence number")
    check_equal(got.highest_sequence(), want_high, "highest sequence number decoded")
    # Through the local event table.
    conn = zk.connect(":memory:")
    ctx.cleanup(conn.close)
    from _zkapauthorizer.model import VoucherStore
    from _zkapauthorizer.replicate import with_replication

    VoucherStore.from_connection(1000, zk.Now(), with_replication(conn, False))
    for (s, t, a, i) in changes:
        with conn:
            add_events(conn.cursor(), [(t, a)], i)
    compare_changes(
        get_events(conn).changes,
        [(n + 1, t, a, i) for n, (s, t, a, i) in enumerate(changes)],
        "events recorded locally",
    )
    kinds = {type(x) for (_, _, a, _) in changes for x in a}
    if len(kinds) >= 3:
        ctx.nontrivial()


# -- replay of streams in the right order

@CHECK.test(
    st.fixed_dictionaries(
        {
            "values": st.lists(values, min_size=1, max_size=10),
            "cuts": st.lists(st.integers(0, 10), max_size=4),
            "overlap": st.lists(st.integers(0, 4), min_size=5, max_size=5),
            "order": st.randoms(use_true_random=False).map(lambda r: r.random()),
            "covered": st.integers(0, 10),
        }
    ),
    quick=1500,
)
def streams_replay_in_order(case, ctx):
    """
    Changes 1..n cut into event streams with overlaps, given in any order on
    top of a snapshot which covers some of them, are applied once each in
    order of their sequence numbers.
    """
    import random

    from _zkapauthorizer.replicate import Change, EventStream, add_events, snapshot, with_replication

    vals = [value_of(v) for v in case["values"]]
    n = len(vals)
    covered = min(case["covered"], n)
    stmts = [("INSERT INTO [log] ([v]) VALUES (?)", (v,)) for v in vals]

    src = zk.connect(":memory:")
    ctx.cleanup(src.close)
    from _zkapauthorizer.model import VoucherStore

    rsrc = with_replication(src, False)
    VoucherStore.from_connection(1000, zk.Now(), rsrc)
    snap = None
    src.execute("CREATE TABLE [log] ([id] INTEGER PRIMARY KEY, [v])")
    src.commit()
    for i in range(n + 1):
        if i == covered:
            snap = snapshot(rsrc)
        if i < n:
            with src:
                cur = src.cursor()
                cur.execute(*stmts[i])
                add_events(cur, [stmts[i]], False)
    cuts = sorted({min(c, n) for c in case["cuts"]} | {n})
    streams = []
    start = 0
    for i, c in enumerate(cuts):
        lo = max(0, start - case["overlap"][i % 5])
        changes = [Change(k + 1, stmts[k][0], stmts[k][1], False) for k in range(lo, c)]
        streams.append(EventStream(changes).to_bytes().read())
        start = c
    random.Random(case["order"]).shuffle(streams)
    dst, rconn = target(ctx, [], True)
    apply(rconn, snap, streams)
    a = dst.execute("SELECT typeof([v]), * FROM [log] ORDER BY [id]").fetchall()
    b = src.execute("SELECT typeof([v]), * FROM [log] ORDER BY [id]").fetchall()
    check_equal(repr(a), repr(b), "rows after replaying the event streams")
    if covered and len(streams) > 1:
        ctx.nontrivial()


# -- damaged data

good_statement = st.sampled_from(
    ["CREATE TABLE [t] ([a])", "INSERT INTO [t] VALUES (1)", "BEGIN TRANSACTION;", "COMMIT;"]
)
not_text = st.one_of(st.none(), st.integers(), st.binary(max_size=4), st.lists(st.just("SELECT 1"), max_size=2), st.booleans())
bad_version = st.one_of(
    st.none(), st.integers().filter(lambda i: i != 1), st.sampled_from(["1", b"1", [1], 1.5])
)
not_sql = st.sampled_from([[1], {"a": 1}, ["x", ["y"]], {}])

DAMAGE = st.one_of(
    zk.op("truncate", st.integers(0, 10**6)),
    zk.op("version", bad_version),
    zk.op("no-version"),
    zk.op("not-a-map", st.one_of(st.none(), st.integers(), text, st.lists(text, max_size=2))),
    zk.op("bad-member", st.integers(0, 10), not_text),
    zk.op("bad-body", st.one_of(st.none(), st.integers(), text, st.just({"a": "SELECT 1"}))),
    zk.op("no-body"),
    zk.op("garbage", st.binary(max_size=20)),
    zk.op("bad-argument", st.integers(0, 10), not_sql),
    zk.op("bad-arity", st.integers(0, 10), st.sampled_from([0, 1, 2, 3, 5])),
)


@CHECK.test(
    st.fixed_dictionaries(
        {
            "what": st.sampled_from(["snapshot", "stream"]),
            "damage": DAMAGE,
            "n": st.integers(1, 4),
        }
    ),
    quick=2500,
)
def damaged_data(case, ctx):
    from _zkapauthorizer.recover import recover
    from _zkapauthorizer.replicate import Change, EventStream, statements_to_snapshot

    statements = ["BEGIN TRANSACTION;", "CREATE TABLE [t] ([a])"] + [
        f"INSERT INTO [t] VALUES ({i});" for i in range(case["n"])
    ] + ["COMMIT;"]
    snap = statements_to_snapshot(iter(statements))
    changes = [
        Change(i + 1, "INSERT INTO [t] VALUES (?)", (i,), False) for i in range(case["n"])
    ]
    stream = EventStream(changes).to_bytes().read()
    data = snap if case["what"] == "snapshot" else stream
    doc = cbor2.loads(data)
    body = "statements" if case["what"] == "snapshot" else "events"
    kind, args = case["damage"][0], case["damage"][1:]
    if kind == "truncate":
        data = data[: args[0] % len(data)]
    elif kind == "garbage":
        try:
            if isinstance(cbor2.loads(args[0]), dict):
                return
        except Exception:
            pass
        data = args[0]
    else:
        if kind == "version":
            doc["version"] = args[0]
        elif kind == "no-version":
            del doc["version"]
        elif kind == "not-a-map":
            doc = args[0]
        elif kind == "bad-body":
            doc[body] = args[0]
        elif kind == "no-body":
            del doc[body]
        elif kind == "bad-member":
            if case["what"] == "snapshot":
                doc[body][args[0] % len(doc[body])] = args[1]
            else:
                m = list(doc[body][args[0] % len(doc[body])])
                m[1] = args[1]
                doc[body][args[0] % len(doc[body])] = m
        elif kind == "bad-argument":
            if case["what"] == "snapshot":
                return
            m = list(doc[body][args[0] % len(doc[body])])
            m[2] = [args[1]]
            doc[body][args[0] % len(doc[body])] = m
        elif kind == "bad-arity":
            if case["what"] == "snapshot":
                return
            m = list(doc[body][args[0] % len(doc[body])]) + ["more"]
            doc[body][args[0] % len(doc[body])] = m[: args[1]]
        data = cbor2.dumps(doc)
    ctx.event(f"{case['what']} {kind}")
    dst, rconn = target(ctx, [], True)
    before = everything(dst)
    try:
        if case["what"] == "snapshot":
            apply(rconn, data, [])
        else:
            apply(rconn, snap, [data])
    except Exception:
        pass
    else:
        raise Violation(f"{case['what']} with {kind} {args} was accepted")
    ctx.nontrivial()
    if not (case["what"] == "snapshot" and kind == "bad-member"):
        check_equal(everything(dst), before, "database after a rejected recovery")
