"""Shared helpers to drive ZKAPAuthorizer."""

import os
import sqlite3
from base64 import b64encode, urlsafe_b64encode
from datetime import datetime, timedelta, timezone
from functools import partial
from hashlib import sha512

from hypothesis import strategies as st

from .core import HarnessError, Violation, check, check_equal, short  # noqa

EPOCH = datetime(2020, 1, 1, tzinfo=timezone.utc)


def stretch(label, n, length):
    out = b""
    i = 0
    while len(out) < length:
        out += sha512(f"{label}/{n}/{i}".encode()).digest()
        i += 1
    return out[:length]


def voucher_number(i):
    return urlsafe_b64encode(stretch("voucher", i, 32))


def random_token_bytes(i):
    return b64encode(stretch("random", i, 96))


def unblinded_token_bytes(i):
    return b64encode(stretch("unblinded", i, 96))


class Now:
    """A settable clock giving aware datetimes."""

    def __init__(self, start=EPOCH):
        self.now = start

    def advance(self, seconds):
        self.now += timedelta(seconds=seconds)

    def __call__(self):
        return self.now


def connect(path):
    from _zkapauthorizer.model import open_database

    return open_database(partial(sqlite3.connect, path))


def open_voucher_store(path, now, pass_value=1000, replicate=False, wrap=lambda conn: conn):
    """
    Open a store in the database file at path, as a process start does.

    :return: (store, close)
    """
    from _zkapauthorizer.model import VoucherStore
    from _zkapauthorizer.replicate import with_replication

    conn = wrap(connect(path))
    rconn = with_replication(conn, replicate)
    store = VoucherStore.from_connection(pass_value, now, rconn)
    return store, conn.close


def raw_rows(path, sql, args=()):
    conn = sqlite3.connect(path)
    try:
        return conn.execute(sql, args).fetchall()
    finally:
        conn.close()


def sync(awaitable):
    """
    The result of a Deferred or coroutine which must already be done.
    """
    from twisted.internet.defer import Deferred, ensureDeferred
    from twisted.python.failure import Failure

    d = awaitable if isinstance(awaitable, Deferred) else ensureDeferred(awaitable)
    box = []
    d.addBoth(box.append)
    if not box:
        raise HarnessError("asynchronous operation did not complete")
    r = box[0]
    if isinstance(r, Failure):
        from .core import SUT, SUT_TESTS, HarnessError as _HarnessError

        frames = [str(f[1]) for f in list(r.frames) + list(r.stack)]
        if not isinstance(r.value, _HarnessError) and any(
            f.startswith(SUT) and not f.startswith(SUT_TESTS) for f in frames
        ):
            r.value._pbt_from_sut = True
        r.raiseException()
    return r


def outcome(awaitable):
    """
    Start something asynchronous; returns a list which is empty until it is
    done and then holds its result or Failure.
    """
    from twisted.internet.defer import Deferred, ensureDeferred

    d = awaitable if isinstance(awaitable, Deferred) else ensureDeferred(awaitable)
    box = []
    d.addBoth(box.append)
    return box


def weighted(*pairs):
    """
    one_of with integer weights (``st.one_of`` itself merges repeated
    alternatives).
    """
    opts = []
    for w, s in pairs:
        opts.extend([s] * w)

    @st.composite
    def pick(draw):
        return draw(opts[draw(st.integers(0, len(opts) - 1))])

    return pick()


def op(name, *args):
    return st.tuples(st.just(name), *args)


def program(strategy, min_size=1, max_size=30):
    """Lists that are often long: plain ``st.lists`` averages about 6."""
    return st.one_of(
        st.lists(strategy, min_size=min_size, max_size=max_size),
        st.lists(strategy, min_size=max(min_size, max_size // 3), max_size=max_size),
        st.lists(strategy, min_size=max(min_size, 2 * max_size // 3), max_size=max_size),
    )


def index(seq, i):
    return seq[i % len(seq)]
