"""C20: lease maintenance keeps running on schedule until it is stopped."""

import os
import random
import time
from datetime import datetime, timedelta

from hypothesis import strategies as st
from twisted.internet.defer import CancelledError, Deferred
from twisted.internet.task import Clock
from twisted.python.filepath import FilePath

from .. import node, zk
from ..core import Check, HarnessError, Violation, check, check_equal

CHECK = Check(
    "C20",
    rule=(
        "Generated intervals and ranges (also wider than the mean allows), recorded last"
        " runs, random draws including both extremes, and histories of waiting, runs which"
        " succeed, fail or take long, failing writes of the last-run file, stops, clean"
        " restarts and crashes at any moment; plus the service as the plugin makes it."
        "  Non-trivial: at least three runs and a restart or a stop, or a run failed."
    ),
    assumptions=[
        "The reactor refuses to wait for a negative time, as Twisted's does.",
        "A service which was stopped is not started again; a new one is made.",
    ],
)

#: How far times may be off, for the sake of floating point.
EPS = 0.01
FAR = 3600.0 * 24 * 366 * 30


class ReactorClock(Clock):
    """
    A clock as picky as a reactor.
    """

    def callLater(self, when, what, *a, **kw):
        if not when >= 0:
            raise AssertionError(f"{when} is not greater than or equal to 0 seconds")
        return Clock.callLater(self, when, what, *a, **kw)


class Draws(random.Random):
    """
    A source of randomness which is not that random.
    """

    def __new__(cls, fractions):
        return random.Random.__new__(cls)

    def __init__(self, fractions):
        self.fractions = list(fractions) or [0.5]
        self.n = 0

    def random(self):
        self.n += 1
        return self.fractions[self.n % len(self.fractions)]


class RunFailed(Exception):
    pass


class World:
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.directory = ctx.tempdir()
        self.private = os.path.join(self.directory, "private")
        os.mkdir(self.private)
        self.path = os.path.join(self.private, "last-run")
        self.mean = case["mean"]
        self.range = case["range"]
        # As documented, with no interval less than nothing.
        self.low = max(0.0, self.mean - self.range / 2)
        self.high = max(0.0, self.mean + self.range / 2)
        self.fractions = case["fractions"]
        self.mode = "now"
        self.now = case["start"]
        self.incarnation = 0
        self.starts = 0
        self.failures = 0
        self.recorded = None
        self.uncertain = False
        if case["last"] is not None:
            self.recorded = self.now + case["last"]
            with open(self.path, "w") as f:
                f.write(iso(self.recorded))
        self.pending = None
        self.stopped = False
        self.start()

    # -- the service

    def start(self):
        from _zkapauthorizer.lease_maintenance import (
            LeaseMaintenanceConfig,
            lease_maintenance_service,
        )

        self.incarnation += 1
        me = self.incarnation
        self.stopped = False
        self.pending = None
        self.clock = ReactorClock()
        self.clock.rightNow = self.now
        self.random = Draws(self.fractions[self.incarnation % len(self.fractions) :])

        async def operation():
            if me != self.incarnation:
                raise HarnessError("a service which is gone went on")
            await self.operation()

        self.service = lease_maintenance_service(
            operation,
            self.clock,
            FilePath(self.path),
            self.random,
            LeaseMaintenanceConfig(
                timedelta(seconds=self.mean),
                timedelta(seconds=self.range),
                timedelta(seconds=5),
            ),
        )
        base = self.now if self.recorded is None else self.recorded
        self.window = (
            max(self.now, base + self.low),
            max(self.now, base + self.high),
        )
        self.service.startService()
        self.settle()

    async def operation(self):
        t = self.clock.seconds()
        check(not self.stopped, "a run began after the service was stopped")
        check(self.pending is None, "a run began while another one was under way")
        low, high = self.window
        check(
            low - EPS <= t <= high + EPS,
            "a run began at {} but was due between {} and {}",
            t,
            low,
            high,
        )
        self.starts += 1
        self.window = None
        if t == self.instant:
            # This would go on forever.
            self.mode = "later"
        self.instant = t
        self.pending = d = Deferred()
        if self.mode == "now":
            self.over()
            return
        if self.mode == "raise":
            self.failures += 1
            self.over()
            raise RunFailed("failed at once")
        await d

    def over(self):
        """
        The run ends at this moment.
        """
        self.pending = None
        t = self.clock.seconds()
        self.recorded_before = self.recorded
        self.recorded = t
        self.window = None if self.stopped else (t + self.low, t + self.high)

    def settle(self):
        """
        Look at the file.
        """
        if not os.path.isdir(self.private):
            return
        if not os.path.exists(self.path):
            if self.uncertain:
                self.recorded = None
            check(self.recorded is None, "the time of the last run is not recorded")
            return
        with open(self.path) as f:
            text = f.read()
        try:
            when = (datetime.fromisoformat(text) - datetime(1970, 1, 1)).total_seconds()
        except ValueError:
            raise Violation(f"the recorded time of the last run is {text!r}")
        if self.uncertain:
            # It could not be written for a while.
            self.recorded = when
            return
        check(
            self.recorded is not None and abs(when - self.recorded) < EPS,
            "the recorded end of the last run is {}, it was {}",
            when,
            self.recorded,
        )

    # -- what happens

    def advance_to(self, target):
        if self.stopped:
            self.clock.advance(target - self.clock.seconds())
            self.now = self.clock.seconds()
            self.settle()
            return
        for _ in range(12):
            due = min(
                (c.getTime() for c in self.clock.getDelayedCalls()), default=target + 1
            )
            if due > target:
                break
            self.clock.advance(max(0, due - self.clock.seconds()))
            self.now = self.clock.seconds()
            self.check_due()
            self.settle()
        else:
            # That is enough of them.
            return
        self.clock.advance(max(0, target - self.clock.seconds()))
        self.now = self.clock.seconds()
        self.check_due()
        self.settle()

    def check_due(self):
        if self.stopped or self.pending is not None:
            return
        check(
            self.clock.seconds() <= self.window[1] + EPS,
            "no run began by {} though one was due before {}",
            self.clock.seconds(),
            self.window[1],
        )

    def do_wait(self, fraction):
        self.advance_to(self.clock.seconds() + fraction * (self.mean + self.range + 1))

    def do_due(self, delta):
        """
        Wait until about the time of the next run.
        """
        calls = self.clock.getDelayedCalls()
        if calls:
            t = min(c.getTime() for c in calls) + delta
            if t >= self.clock.seconds():
                self.advance_to(t)

    def do_mode(self, mode):
        self.mode = mode

    def do_finish(self, how):
        if self.pending is None:
            return
        d = self.pending
        self.over()
        if how == "ok":
            d.callback(None)
        else:
            self.failures += 1
            d.errback(CancelledError() if how == "cancelled" else RunFailed("failed later"))
        self.settle()

    def do_stop(self):
        if self.stopped:
            return
        self.stopped = True
        if self.pending is not None:
            self.ctx.event("stopped during a run")
        else:
            self.ctx.event("stopped between runs")
        self.service.stopService()
        check(not self.service.running, "the stopped service is running")

    def do_restart(self, downtime, crash):
        if crash:
            self.ctx.event("crash")
        else:
            self.do_stop()
            if self.pending is not None:
                # Processes do not end before this.
                self.do_finish("error")
            self.advance_to(self.clock.seconds() + 1)
        self.now = self.clock.seconds() + downtime
        if not os.path.isdir(self.private):
            self.do_disk()
        self.settle()
        self.uncertain = False
        self.restarts += 1
        self.start()

    restarts = 0
    instant = None

    def do_disk(self):
        """
        The directory comes and goes.
        """
        away = self.private + ".away"
        if os.path.isdir(self.private):
            os.rename(self.private, away)
            self.uncertain = True
        else:
            os.rename(away, self.private)
            self.settle()


def iso(t):
    return (datetime(1970, 1, 1) + timedelta(seconds=t)).isoformat()


def set_timezone(ctx, zone):
    before = os.environ.get("TZ")

    def restore():
        if before is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = before
        time.tzset()

    ctx.cleanup(restore)
    os.environ["TZ"] = zone
    time.tzset()


ZONES = ["UTC", "EST5EDT", "XXX-9:30", "CET-1CEST"]

OPS = zk.weighted(
    (6, zk.op("wait", st.floats(0, 3))),
    (6, zk.op("due", st.sampled_from([0, 0, -1, 1, -0.5, 10]))),
    (5, zk.op("mode", st.sampled_from(["now", "raise", "later", "later"]))),
    (6, zk.op("finish", st.sampled_from(["ok", "ok", "error", "cancelled"]))),
    (2, zk.op("stop")),
    (2, zk.op("restart", st.sampled_from([0, 1, 3600]) | st.floats(0, 10**6), st.booleans())),
    (1, zk.op("disk")),
)

INTERVALS = st.sampled_from([1, 2, 60, 86400, 26 * 86400]) | st.integers(1, 10**8)
FRACTIONS = st.lists(
    st.sampled_from([0.0, 1 - 2**-30, 0.5]) | st.floats(0, 1 - 2**-30), min_size=1, max_size=6
)


@st.composite
def cases(draw):
    mean = draw(INTERVALS)
    return {
        "mean": mean,
        "range": draw(
            zk.weighted(
                (1, st.sampled_from([0, 1, 2 * mean])),
                (3, st.integers(0, 2 * mean)),
                (1, INTERVALS),
            )
        ),
        "last": draw(
            zk.weighted(
                (1, st.none()),
                (2, st.floats(-3 * mean - 10, 0)),
                (1, st.sampled_from([-mean, -2 * mean, 0])),
            )
        ),
        "start": draw(
            st.integers(10**9, 2 * 10**9).map(float) | st.floats(10**9, 2 * 10**9)
        ),
        "fractions": draw(FRACTIONS),
        "zone": draw(st.sampled_from(ZONES)),
        "ops": draw(zk.program(OPS, 3, 25)),
    }


@CHECK.test(cases, quick=2500)
def schedule(case, ctx):
    set_timezone(ctx, case["zone"])
    w = World(case, ctx)
    for name, *args in case["ops"]:
        getattr(w, "do_" + name)(*args)
    # It goes on for as long as it is not stopped, and not after that.
    if not w.stopped:
        for _ in range(2):
            if w.pending is None:
                w.do_due(0)
            if w.pending is not None:
                w.do_finish("ok")
            check(not w.clock.getDelayedCalls() == [], "nothing is scheduled any more")
        w.do_stop()
    if w.pending is not None:
        w.do_finish("ok")
    w.clock.advance(FAR)
    if w.starts >= 3 and (w.restarts or w.failures):
        ctx.nontrivial()


@st.composite
def extreme_cases(draw):
    mean = draw(INTERVALS)
    return {
        "mean": mean,
        "range": draw(st.integers(0, 2 * mean)),
        "last": draw(st.none() | st.floats(-mean, 0)),
        "start": draw(st.floats(10**9, 2 * 10**9)),
        "zone": draw(st.sampled_from(ZONES)),
        "runs": draw(st.integers(1, 3)),
    }


@CHECK.test(extreme_cases, quick=300)
def extremes(case, ctx):
    """
    Intervals are uniformly distributed over the whole range.
    """
    set_timezone(ctx, case["zone"])
    seen = []
    for fraction in (0.0, 1 - 2**-40):
        w = World(dict(case, fractions=[fraction]), ctx)
        base = w.now if w.recorded is None else w.recorded
        times = []
        for _ in range(case["runs"]):
            w.do_due(0)
            times.append(max(base, w.recorded) - base)
            base = w.recorded
        seen.append((times, w))
    w = seen[0][1]
    got = sorted(times[-1] for times, _ in seen)
    if case["runs"] == 1 and case["last"] is not None:
        # The first one may have been due already.
        check(got[0] >= w.low - EPS, "an interval of {}", got[0])
        check(abs(got[1] - max(w.high, -case["last"])) < EPS, "longest interval {}", got[1])
        return
    for a, b in zip(got, (w.low, w.high)):
        check(abs(a - b) < EPS, "extreme intervals are {}, not {}", got, (w.low, w.high))
    if case["range"] > 1:
        ctx.nontrivial()


# -- as the plugin makes it


def plugin_cases():
    number = st.sampled_from([1, 60, 3600, 86400]) | st.integers(1, 10**7)
    return st.fixed_dictionaries(
        {
            "mean": st.none() | number,
            "range": zk.weighted(
                (1, st.none()), (2, st.floats(0, 2)), (1, number), (1, st.just(0))
            ),
            "left": st.none() | number,
            "last": st.none() | st.floats(-3.0, 0.0),
            "start": st.integers(10**9, 2 * 10**9).map(float),
            "root": zk.weighted((1, st.none()), (5, st.sampled_from(["", "\n", " "]))),
            "share": st.booleans(),
            "runs": st.integers(1, 3),
            "zone": st.sampled_from(ZONES),
            "fail": st.booleans(),
            "connected": zk.weighted((3, st.just(True)), (1, st.just(False))),
        }
    )


@CHECK.test(plugin_cases, quick=400)
def plugin(case, ctx):
    from _zkapauthorizer._plugin import _create_maintenance_service
    from _zkapauthorizer.foolscap import ShareStat
    from allmydata.client import SecretHolder
    from allmydata.interfaces import IFilesystemNode
    from twisted.internet.defer import Deferred, fail, succeed
    from zope.interface import implementer

    set_timezone(ctx, case["zone"])
    directory = ctx.tempdir()
    items = {"redeemer": "dummy", "issuer-public-key": "k", "allowed-public-keys": "k"}
    mean = 26 * 86400
    spread = 4 * 86400
    left = 0
    if case["mean"] is not None:
        mean = case["mean"]
        items["lease.crawl-interval.mean"] = str(mean)
    if case["range"] is not None:
        spread = int(case["range"] * mean) if isinstance(case["range"], float) else case["range"]
        items["lease.crawl-interval.range"] = str(spread)
    if case["left"] is not None:
        left = case["left"]
        items["lease.min-time-remaining"] = str(left)
    low = max(0, mean - spread / 2)
    high = mean + spread / 2
    config = node.make_config(directory, items)
    path = os.path.join(directory, "private", "last-lease-maintenance-run")
    clock = ReactorClock()
    clock.rightNow = case["start"]
    base = case["start"]
    if case["last"] is not None:
        base += case["last"] * mean
        with open(path, "w") as f:
            f.write(iso(base))
    if case["root"] is not None:
        with open(os.path.join(directory, "private", "rootcap"), "w") as f:
            f.write("URI:root" + case["root"])
    si = b"s" * 16
    asked = []
    renewed = []

    @implementer(IFilesystemNode)
    class Root:
        @staticmethod
        def get_storage_index():
            return si

    class Server:
        def get_storage_server(self):
            return self

        def get_lease_seed(self):
            return b"x" * 20

        def stat_shares(self, storage_indexes):
            asked.append((clock.seconds(), list(storage_indexes)))
            if case["fail"]:
                return fail(RunFailed("no answer"))
            expires = int(clock.seconds()) + left + (-1 if case["share"] else 2)
            share = {0: ShareStat(size=10, lease_expiration=expires)}
            return succeed([share for _ in storage_indexes])

        def add_lease(self, storage_index, *a):
            renewed.append(storage_index)
            return succeed(None)

    class Broker:
        connected = case["connected"]
        waiting = []

        def get_known_servers(self):
            return frozenset([server])

        def get_connected_servers(self):
            return frozenset([server] if self.connected else [])

        def when_connected_enough(self, threshold):
            d = Deferred()
            self.waiting.append((threshold, d))
            self.fire()
            return d

        def fire(self):
            now = [d for n, d in self.waiting if n <= len(self.get_connected_servers())]
            self.waiting = [(n, d) for n, d in self.waiting if d not in now]
            for d in now:
                d.callback(None)

    class Client:
        _secret_holder = SecretHolder(b"l" * 32, b"c" * 32)

        def __init__(self):
            self.config = config

        def get_storage_broker(self):
            return broker

        def create_node_from_uri(self, uri):
            check_equal(uri, b"URI:root", "root capability")
            return Root()

    server = Server()
    broker = Broker()
    store, close = zk.open_voucher_store(
        os.path.join(directory, "store.sqlite3"), zk.Now(), 100
    )
    ctx.cleanup(close)
    service = _create_maintenance_service(clock, Client(), store)
    service.startService()
    for run in range(case["runs"]):
        del asked[:], renewed[:]
        earliest = max(clock.seconds(), base + low)
        latest = max(clock.seconds(), base + high)
        if earliest - 1 > clock.seconds():
            clock.advance(earliest - 1 - clock.seconds())
            check_equal(asked, [], "questions before a run is due")
        # Nothing begins twice within this.
        due = min(c.getTime() for c in clock.getDelayedCalls())
        check(due <= latest + EPS, "the next run is set for {}, due before {}", due, latest)
        clock.advance(max(0, due - clock.seconds()))
        if not broker.connected:
            # Nothing can be done before there is a server.
            check_equal(asked, [], "questions asked without a server")
            if not os.path.exists(path):
                recorded = None
            else:
                with open(path) as f:
                    recorded = f.read()
            if case["last"] is None:
                check_equal(recorded, None, "record of a run which did not happen")
            else:
                check_equal(recorded, iso(base), "record of the last run while there is no server")
            clock.advance(case["last"] is None and 7200 or 5)
            broker.connected = True
            broker.fire()
            ctx.event("due before there is a server")
        check_equal(
            [s for _, s in asked if s],
            [[si]] if case["root"] is not None else [],
            "storage indexes asked about",
        )
        check_equal(
            renewed,
            [si] if case["share"] and case["root"] is not None and not case["fail"] else [],
            "leases renewed",
        )
        with open(path) as f:
            when = (datetime.fromisoformat(f.read()) - datetime(1970, 1, 1)).total_seconds()
        check(abs(when - clock.seconds()) < EPS, "the run at {} was recorded as {}", clock.seconds(), when)
        activity = store.get_latest_lease_maintenance_activity()
        check(activity is not None, "no record of a finished run")
        check_equal(
            activity.passes_required,
            1 if case["root"] is not None and not case["fail"] else 0,
            "passes required",
        )
        base = clock.seconds()
    service.stopService()
    del asked[:]
    clock.advance(FAR)
    check_equal(asked, [], "questions after the service was stopped")
    if case["runs"] > 1 and case["root"] is not None:
        ctx.nontrivial()
