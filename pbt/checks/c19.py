"""C19: a lease maintenance run renews exactly the leases that need it."""

from collections import Counter
from datetime import datetime, timedelta

from allmydata.interfaces import IDirectoryNode, IFilesystemNode
from hypothesis import strategies as st
from twisted.internet.defer import Deferred, fail, succeed
from twisted.python.failure import Failure
from zope.interface import implementer

from .. import storage, zk
from ..core import Check, HarnessError, Violation, check, check_equal, short

CHECK = Check(
    "C19",
    rule=(
        "Generated directory graphs (shared and mutually referring directories,"
        " aliases, literal and unknown objects, listings that fail), sets of servers"
        " with shares around the renewal threshold, server and renewal failures,"
        " delayed answers, several runs; plus runs with the real client against a real"
        " server.  Non-trivial: something was renewed, something was left alone and the"
        " graph is not a tree (or, with the real server, both happened)."
    ),
    assumptions=[
        "Two objects are the same stored object if they have the same storage index.",
        "The time of a run does not matter at a finer grain than the run.",
    ],
)

KINDS = ["file", "dir", "dir", "dir", "lit", "litdir", "unknown"]
START = 1600000000
RENEWAL = b"r" * 32
CANCEL = b"c" * 32


class Failure_(Exception):
    pass


@implementer(IFilesystemNode)
class FileNode:
    def __init__(self, si):
        self.si = si

    def get_storage_index(self):
        return self.si


@implementer(IDirectoryNode)
class DirNode(FileNode):
    def __init__(self, si, world, n):
        FileNode.__init__(self, si)
        self.world = world
        self.n = n

    def list(self):
        return self.world.listing(self.n)


class World:
    def __init__(self, case, ctx):
        self.case = case
        self.ctx = ctx
        self.queue = []
        self.nodes = case["nodes"]
        self.now = datetime.utcfromtimestamp(START) + timedelta(
            microseconds=case["micro"]
        )
        self.min = timedelta(seconds=case["min"])
        self.listings = Counter()
        self.objects = {}

    def si(self, n):
        node = self.nodes[n]
        if node["kind"] in ("lit", "litdir", "unknown"):
            return None
        return storage.storage_index(self.identity(n))

    def identity(self, n):
        """
        Some nodes are other views of earlier ones.
        """
        node = self.nodes[n]
        a = node["alias"]
        if a is not None and a < n and self.nodes[a]["kind"] == node["kind"]:
            return self.identity(a)
        return n

    def children(self, n):
        i = self.identity(n)
        node = self.nodes[i]
        r = {}
        for name, c in node["children"]:
            c = c % len(self.nodes)
            if node["kind"] == "litdir" and self.nodes[c]["kind"] == "litdir":
                # It cannot contain itself.
                continue
            r[name] = c
        return r

    def make(self, n):
        if n in self.objects and self.case["cache"]:
            return self.objects[n]
        if self.nodes[n]["kind"] in ("dir", "litdir"):
            r = DirNode(self.si(n), self, n)
        else:
            r = FileNode(self.si(n))
        self.objects[n] = r
        return r

    def later(self, thing):
        """
        Answer now or when everything else has come to rest.
        """
        if self.case["delay"]:
            d = Deferred()
            self.queue.append((d, thing))
            return d
        if isinstance(thing, Exception):
            return fail(thing)
        return succeed(thing)

    def listing(self, n):
        i = self.identity(n)
        self.listings[i] += 1
        if sum(self.listings.values()) > 20 * len(self.nodes) + 50:
            raise Violation("directories are listed again and again")
        f = self.nodes[i]["fails"]
        if f == "raise":
            raise Failure_("listing")
        if f == "fail":
            return self.later(Failure_("listing"))
        return self.later(
            {name: (self.make(c), {}) for name, c in self.children(n).items()}
        )

    def reachable(self, roots):
        todo = list(roots)
        seen = set()
        while todo:
            n = todo.pop()
            i = self.identity(n)
            if i in seen:
                continue
            seen.add(i)
            if self.nodes[i]["kind"] in ("dir", "litdir") and not self.nodes[i]["fails"]:
                todo.extend(self.children(i).values())
        return {i for i in seen if self.si(i) is not None}, seen

    # -- servers

    def run(self):
        from _zkapauthorizer.lease_maintenance import maintain_leases_from_root
        from allmydata.client import SecretHolder

        self.servers = [Server(self, k, s) for k, s in enumerate(self.case["servers"])]
        world = self

        class Broker:
            def get_connected_servers(self):
                return frozenset(s for s in world.servers if s.connected)

        class Observer:
            def __init__(self):
                self.sizes = []
                self.finished = 0

            def observe(self, sizes):
                if self.finished:
                    raise Violation("sizes observed after the end of the run")
                self.sizes.extend(sizes)

            def finish(self):
                self.finished += 1

        def get_observer():
            o = Observer()
            self.observers.append(o)
            return o

        operation = maintain_leases_from_root(
            get_root_nodes=lambda: [self.make(n) for n in self.roots],
            storage_broker=Broker(),
            secret_holder=SecretHolder(RENEWAL, b"convergence"),
            min_lease_remaining=self.min,
            progress=get_observer,
            get_now=lambda: self.now,
        )
        for advance, roots, gone in self.case["runs"]:
            self.now += timedelta(seconds=advance)
            self.roots = [n % len(self.nodes) for n in roots]
            for k, s in enumerate(self.servers):
                s.connected = k not in gone
                s.asked = []
                s.renewals = Counter()
            self.listings = Counter()
            self.observers = []
            self.one_run(operation)

    def one_run(self, operation):
        want, nodes = self.reachable(self.roots)
        sizes = []
        plan = []
        for s in self.servers:
            renew = set()
            if s.connected and not s.stat_fails:
                for i in want:
                    shares = s.shares.get(i, {})
                    if not shares:
                        continue
                    sizes.extend(size for size, _ in shares.values())
                    soonest = min(e for _, e in shares.values())
                    left = datetime.utcfromtimestamp(soonest) - self.now
                    if left < self.min:
                        renew.add(i)
            plan.append(renew)

        d = Deferred.fromCoroutine(operation())
        box = []
        d.addBoth(box.append)
        while not box and self.queue:
            d, thing = self.queue.pop(0)
            if isinstance(thing, Exception):
                d.errback(thing)
            else:
                d.callback(thing)
        check(box, "the run never ended")
        if box[0] is not None:
            if isinstance(box[0], Failure):
                if box[0].check(Violation, HarnessError):
                    box[0].raiseException()
                raise Violation(f"the run failed: {box[0].value!r}\n{box[0].getTraceback()[-1500:]}")

        for i in nodes:
            if self.nodes[i]["kind"] == "dir":
                check_equal(self.listings[i], 1, f"listings of directory {i}")
        for s, renew in zip(self.servers, plan):
            asked = Counter(s.asked)
            check(None not in asked, "a server was asked about a literal object")
            if s.connected:
                twice = [si for si, c in asked.items() if c > 1]
                check(not twice, "a server was asked twice about {}", short(twice))
                check_equal(
                    sorted(asked),
                    sorted(storage.storage_index(i) for i in want),
                    f"storage indexes server {s.k} was asked about",
                )
            else:
                check_equal(len(asked), 0, "questions to a server which is not connected")
            check_equal(
                sorted(s.renewals.elements()), sorted(renew), f"renewals on server {s.k}"
            )
            if renew:
                self.renewed = True
            if set(s.shares) - renew:
                self.left_alone = True
        check_equal(len(self.observers), 1, "observers made")
        check_equal(self.observers[0].finished, 1, "times the observer was told the run is over")
        check_equal(
            sorted(self.observers[0].sizes), sorted(sizes), "sizes reported to the observer"
        )

    renewed = left_alone = False


class Server:
    def __init__(self, world, k, spec):
        self.world = world
        self.k = k
        self.connected = True
        self.stat_fails = spec["stat_fails"]
        self.seed = zk.stretch("seed", k, 20)
        self.fails = set()
        self.shares = {}
        threshold = START + world.case["min"]
        for n, shares, fails in spec["shares"]:
            i = n % len(world.nodes)
            if world.si(i) is None:
                continue
            i = world.identity(i)
            self.shares[i] = {
                num: (size, max(0, threshold + delta if delta is not None else 0))
                for num, size, delta in shares
            }
            if fails:
                self.fails.add(i)
        self.asked = []
        self.renewals = Counter()

    # IServer

    def get_storage_server(self):
        return self

    # IStorageServer

    def get_lease_seed(self):
        return self.seed

    def stat_shares(self, storage_indexes):
        from _zkapauthorizer.foolscap import ShareStat

        check(type(storage_indexes) is list, "asked about {}", storage_indexes)
        self.asked.extend(storage_indexes)
        if self.stat_fails == "raise":
            raise Failure_("stat")
        if self.stat_fails:
            return self.world.later(Failure_("stat"))
        by_si = {storage.storage_index(i): s for i, s in self.shares.items()}
        return self.world.later(
            [
                {
                    num: ShareStat(size=size, lease_expiration=e)
                    for num, (size, e) in by_si.get(si, {}).items()
                }
                for si in storage_indexes
            ]
        )

    def add_lease(self, storage_index, renew_secret, cancel_secret):
        from allmydata.util import hashutil

        if not self.connected:
            raise Violation("a lease was renewed on a server which is not connected")
        for i in self.shares:
            if storage.storage_index(i) == storage_index:
                break
        else:
            raise Violation("renewal of leases on shares the server does not have")
        holder = hashutil.my_renewal_secret_hash(RENEWAL)
        cancel = hashutil.my_cancel_secret_hash(RENEWAL)
        check_equal(
            (renew_secret, cancel_secret),
            (
                hashutil.bucket_renewal_secret_hash(
                    hashutil.file_renewal_secret_hash(holder, storage_index), self.seed
                ),
                hashutil.bucket_cancel_secret_hash(
                    hashutil.file_cancel_secret_hash(cancel, storage_index), self.seed
                ),
            ),
            "secrets of the renewed lease",
        )
        self.renewals[i] += 1
        if i in self.fails:
            return self.world.later(Failure_("no passes"))
        expires = int(
            (self.world.now - datetime.utcfromtimestamp(0)).total_seconds()
        ) + 31 * 86400
        self.shares[i] = {
            num: (size, max(e, expires)) for num, (size, e) in self.shares[i].items()
        }
        return self.world.later(None)


@st.composite
def cases(draw):
    count = draw(st.integers(1, 10))
    ref = st.integers(0, count - 1)
    child = st.tuples(st.text(max_size=3), ref)
    nodes = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "kind": st.sampled_from(KINDS),
                    "children": st.lists(child, max_size=5),
                    "alias": zk.weighted((5, st.none()), (1, ref)),
                    "fails": zk.weighted(
                        (9, st.none()), (1, st.sampled_from(["raise", "fail"]))
                    ),
                }
            ),
            min_size=count,
            max_size=count,
        )
    )
    share = st.tuples(
        st.integers(0, 9),
        st.integers(0, 2**33),
        zk.weighted(
            (3, st.sampled_from([-2, -1, 0, 1, 2])),
            (3, st.integers(-(10**6), 10**7)),
            (1, st.none()),
        ),
    )
    server = st.fixed_dictionaries(
        {
            "stat_fails": zk.weighted((7, st.none()), (1, st.sampled_from(["raise", "fail"]))),
            "shares": st.lists(
                st.tuples(
                    ref,
                    st.lists(share, max_size=4, unique_by=lambda s: s[0]),
                    zk.weighted((6, st.just(False)), (1, st.just(True))),
                ),
                max_size=8,
            ),
        }
    )
    return {
        "nodes": nodes,
        "servers": draw(st.lists(server, max_size=4)),
        "min": draw(st.sampled_from([0, 1, 604800, 31 * 86400]) | st.integers(0, 3 * 10**6)),
        "micro": draw(st.sampled_from([0, 0, 1, 500000, 999999])),
        "delay": draw(st.booleans()),
        "cache": draw(st.booleans()),
        "runs": draw(
            st.lists(
                st.tuples(
                    st.sampled_from([0, 1, 86400, 31 * 86400, 2246400]),
                    st.lists(ref, max_size=3),
                    zk.weighted((4, st.just([])), (1, st.lists(st.integers(0, 3), max_size=2))),
                ),
                min_size=1,
                max_size=3,
            )
        ),
    }


@CHECK.test(cases, quick=1600)
def graphs_and_servers(case, ctx):
    w = World(case, ctx)
    w.run()
    parents = Counter(
        c for n in range(len(w.nodes)) if w.nodes[n]["kind"] == "dir" for c in w.children(n).values()
    )
    if w.renewed and w.left_alone and any(c > 1 for c in parents.values()):
        ctx.nontrivial()


# -- with the real client and server


@st.composite
def real_cases(draw):
    case = draw(
        storage.programs(
            st.just("client"), weights={"read": 0, "stat": 0, "advance": 8, "lease": 1, "newlen": 0}
        )
    )
    case = dict(case)
    case["runs"] = draw(
        st.lists(
            st.tuples(
                storage.advances(),
                st.lists(st.integers(0, storage.INDEXES - 1), max_size=5, unique=True),
            ),
            min_size=1,
            max_size=3,
        )
    )
    case["min"] = draw(st.sampled_from([0, 86400, 604800, 20 * 86400, 31 * 86400]))
    return case


@CHECK.test(real_cases, quick=350)
def real_server(case, ctx):
    from _zkapauthorizer.lease_maintenance import (
        MemoryMaintenanceObserver,
        maintain_leases_from_root,
    )
    from allmydata.client import SecretHolder

    w = storage.World(ctx, case["pass_value"], set(), wallet=2000)
    w.run(case["ops"])
    assets = []
    lit = FileNode(None)

    class StorageServer:
        """
        The real client, for a connection which knows its peer.
        """

        stat_shares = w.client.stat_shares
        add_lease = w.client.add_lease

        @staticmethod
        def get_lease_seed():
            return b"s" * 20

    class Server:
        def get_storage_server(self):
            return StorageServer

    class Broker:
        def get_connected_servers(self):
            return frozenset([Server()])

    observers = []

    def observer():
        observers.append(MemoryMaintenanceObserver())
        return observers[-1]

    operation = maintain_leases_from_root(
        get_root_nodes=lambda: [lit] + [FileNode(storage.storage_index(i)) for i in assets],
        storage_broker=Broker(),
        secret_holder=SecretHolder(RENEWAL, b"convergence"),
        min_lease_remaining=timedelta(seconds=case["min"]),
        progress=observer,
        get_now=lambda: datetime.utcfromtimestamp(w.clock.seconds()),
    )

    def stats():
        how, got = w.remote_call(
            "stat_shares", [storage.storage_index(i) for i in range(storage.INDEXES)]
        )
        if how == "error":
            raise got
        return [
            {n: (s.size, s.lease_expiration) for n, s in slot.items()} for slot in got
        ]

    renewed = kept = False
    for advance, roots in case["runs"]:
        w.clock.advance(advance)
        assets[:] = roots
        want = stats()
        cost = 0
        sizes = []
        for i in roots:
            slot = want[i]
            sizes.extend(size for size, _ in slot.values())
            if slot and min(e for _, e in slot.values()) - w.now < case["min"]:
                cost += storage.price(case["pass_value"], [s for s, _ in slot.values()])
                want[i] = {n: (s, int(w.now + storage.LEASE)) for n, (s, e) in slot.items()}
                renewed = True
            elif slot:
                kept = True
        spent = len(w.wallet.having("spent"))
        if cost > len(w.wallet.having("free")):
            ctx.event("not enough passes")
            return
        zk.sync(operation())
        check_equal(stats(), want, "shares and their lease expirations after a run")
        check_equal(len(w.wallet.having("spent")) - spent, cost, "passes spent by a run")
        check_equal(
            sorted(s for o in observers[-1].observed for s in o), sorted(sizes), "sizes observed"
        )
        check(observers[-1].finished, "the observer was not told of the end of the run")
    if renewed and kept:
        ctx.nontrivial()
