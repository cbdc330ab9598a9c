"""C29: the plugin works as a whole, in real nodes."""

import json
import os
import time
from datetime import datetime
from urllib.parse import quote

from hypothesis import strategies as st

from .. import nodes, zk
from ..core import Check, HarnessError, check, check_equal, short
from ..nodes import DAY, LEASE

CHECK = Check(
    "C29",
    rule=(
        "A real issuer, three real storage server nodes and real client nodes with the"
        " plugin, which talk over the loopback network, are taken through generated"
        " programs by way of the client's web interface: buying, storing, reading,"
        " changing, linking, checking, repairing, several uploads at once, losing shares,"
        " ageing leases, servers going away, restarts, lease maintenance by the node"
        " itself, replication and recovery.  Non-trivial: data was stored for passes and"
        " then a share was lost, a lease aged, a server or the client restarted, a write"
        " refused for lack of passes, maintenance ran, or a wallet was recovered."
    ),
    assumptions=[
        "Tahoe-LAFS itself, Foolscap and the Ristretto library are as installed and run"
        " unmodified; the clock is the system's, leases are aged by editing share files.",
        "Parts which take longer than two minutes do not work.",
    ],
)

DAYS = st.sampled_from([-40, -3, -1, 1, 4, 9, 14, 22, 30])
OBJECT = st.integers(0, 12)
SIZE = zk.weighted(
    (2, st.integers(0, 60)),
    (5, st.integers(50, 6000)),
    (2, st.integers(6000, 150000)),
    (1, st.sampled_from([55, 56, 1000, 1024, 131072, 131073])),
)
MUTABLE_SIZE = zk.weighted((3, st.integers(0, 3000)), (1, st.integers(3000, 140000)))
NAMES = ["a", "b", "ü 1", "x/y", "%41"]
FORMATS = st.sampled_from(["sdmf", "sdmf", "mdmf"])
KEEP = st.none() | st.integers(0, 40)
SERVER = st.integers(0, nodes.SERVERS - 1)

OPS = zk.weighted(
    (5, zk.op("put", SIZE, st.integers(0, 3), KEEP)),
    (2, zk.op("many", st.lists(SIZE, min_size=2, max_size=4))),
    (3, zk.op("mutable", MUTABLE_SIZE, FORMATS, KEEP)),
    (3, zk.op("overwrite", OBJECT, MUTABLE_SIZE)),
    (2, zk.op("patch", OBJECT, st.floats(0, 1), st.integers(1, 5000))),
    (2, zk.op("mkdir", FORMATS, KEEP)),
    (2, zk.op("freeze", st.lists(OBJECT, max_size=3), KEEP)),
    (6, zk.op("link", OBJECT, OBJECT, st.integers(0, len(NAMES) - 1))),
    (1, zk.op("unlink", OBJECT, st.integers(0, len(NAMES) - 1))),
    (3, zk.op("get", OBJECT, st.none() | st.tuples(st.floats(0, 1), st.floats(0, 1)))),
    (2, zk.op("check", OBJECT, st.booleans(), st.booleans())),
    (4, zk.op("age", OBJECT, DAYS, st.none() | SERVER)),
    (2, zk.op("lose", OBJECT, SERVER)),
    (1, zk.op("restart")),
    (
        4,
        zk.op(
            "maintain", st.lists(st.tuples(OBJECT, DAYS, st.none() | SERVER), max_size=5)
        ),
    ),
    (1, zk.op("down", SERVER)),
    (2, zk.op("up")),
    (1, zk.op("buy")),
)


def si_of(cap):
    from allmydata.uri import from_string

    return from_string(cap.encode("ascii")).get_storage_index()


def passes(size, pass_value):
    return -(-size // pass_value)


def fresh(stamp):
    return abs(stamp - (time.time() + LEASE)) < 3600


class Object:
    def __init__(self, kind, cap, data=None):
        self.kind = kind
        self.cap = cap
        self.si = si_of(cap)
        self.data = data
        self.children = {}
        # Contents which a reader may get to see if some servers have missed
        # changes.
        self.past = []
        self.broken = False

    @property
    def mutable(self):
        return self.kind in ("mutable", "dir")

    @property
    def directory(self):
        return self.kind in ("dir", "frozen")

    def __repr__(self):
        return f"<{self.kind} {self.cap[:24]}>"


class Nodes:
    def __init__(self, case, ctx):
        self.case = case
        self.ctx = ctx
        self.pass_value = case["pass_value"]
        self.needed, self.happy, self.total = case["encoding"]
        self.issuer, self.servers = nodes.grid(self.pass_value)
        self.objects = []
        self.serial = 0
        self.vouchers = 0
        self.down = None
        self.missed = False
        self.notable = False
        self.stored = False
        self.directory = os.path.join(ctx.tempdir(), "client")
        self.min_remaining = case["min_remaining"] * DAY
        self.client = self.make_client(self.directory)
        self.client.start()
        ctx.cleanup(self.all_up)
        ctx.cleanup(lambda: self.client.stop())

    def make_client(self, directory):
        return nodes.ClientNode(
            directory,
            self.servers,
            self.issuer,
            self.pass_value,
            self.case["encoding"],
            self.case["tokens"],
            {"lease.min-time-remaining": self.min_remaining},
        )

    def all_up(self):
        for s in self.servers:
            if s.node is None:
                s.start()

    # -- what there is

    def wallet(self):
        code, doc = self.client.plugin("GET", "lease-maintenance")
        check_equal(code, 200, "status of GET lease-maintenance")
        return doc

    def balance(self):
        return self.wallet()["total"]

    def shares(self):
        return {
            (n,) + k: share for n, s in enumerate(self.servers) for k, share in s.shares().items()
        }

    def shares_of(self, o, shares=None):
        return {
            k: share
            for k, share in (self.shares() if shares is None else shares).items()
            if k[1] == o.si
        }

    def settled(self):
        """
        Nothing is reserved, and what is left is what the wallet says.
        """
        got = []

        def nothing_reserved():
            rows = zk.raw_rows(self.client.database, "SELECT count(*) FROM [unblinded-tokens]")
            got[:] = [self.balance(), rows[0][0]]
            return got[0] == got[1]

        nodes.run(nothing_reserved, "waiting for all passes to be available")
        return got[0]

    def price(self, before, after):
        """
        What the difference between two states of the shares costs.
        """
        now = time.time()
        cost = sum(
            passes(size, self.pass_value) for s in self.servers for _, _, size in s.allocated
        )
        for k, share in after.items():
            old = before.get(k)
            full = passes(share.size, self.pass_value)
            check_equal(len(share.leases), 1, f"number of leases on share {k}")
            if old is None:
                if not share.mutable:
                    # That was paid when it was allocated.
                    full = 0
                check(fresh(share.leases[0]), "a new share has a lease until {}", share.leases)
                cost += full
            elif old.leases != share.leases:
                check(fresh(share.leases[0]), "a renewed lease lasts until {}", share.leases)
                cost += full
            else:
                check(
                    old.data == share.data or share.leases[0] > now,
                    "a share without a lease was written and still has none",
                )
                cost += max(0, full - passes(old.size, self.pass_value))
        return cost

    def forget_allocations(self):
        for s in self.servers:
            del s.allocated[:]

    def expect_leases_kept(self, before, after, what):
        now = time.time()
        for k, share in after.items():
            old = before.get(k)
            if old is not None and old.leases != share.leases:
                check(
                    old.leases[0] < now and old.data != share.data,
                    "{} renewed a lease which had not expired",
                    what,
                )

    def operation(self, what, act, affordable=None, renews=False, free=False, loses=()):
        """
        Do something which succeeds if it is affordable, and see that exactly
        what it does is paid for.

        :param affordable: The most it may cost, None if unknown.

        :return: The body of the answer, None if it was refused.
        """
        before = self.shares()
        balance = self.settled()
        self.forget_allocations()
        code, body = act()
        left = self.settled()
        after = self.shares()
        gone = set(before) - set(after)
        check(not gone, "{}: shares disappeared: {}", what, gone)
        ok = 200 <= code < 300
        self.code = code
        if not ok:
            check(
                affordable is None or affordable > balance or self.down is not None or self.missed,
                "{}: status {} with {} passes where {} are enough: {}",
                what,
                code,
                balance,
                affordable,
                short(body, 600),
            )
            check(left <= balance, "{}: passes appeared", what)
            if balance == 0:
                self.ctx.event("refused without passes")
                self.notable = True
                self.price(before, after)
            return None
        cost = self.price(before, after)
        if not renews:
            self.expect_leases_kept(before, after, what)
        check_equal(balance - left, cost, f"passes spent, {what}")
        if free:
            check_equal(cost, 0, f"price, {what}")
            check(
                {k: s.data for k, s in before.items()} == {k: s.data for k, s in after.items()},
                "{} changed shares",
                what,
            )
        if cost:
            self.stored = True
        return body

    def content(self, size):
        self.serial += 1
        return bytes(zk.stretch("c29", self.serial, size))

    def mutable_bound(self, size):
        """
        More than every share of a mutable object costs.
        """
        share = size + 8000 + 100 * (size // 2000)
        return 2 * self.total * passes(share, self.pass_value)

    def pick(self, i, *kinds):
        some = [o for o in self.objects if not o.broken and (not kinds or o.kind in kinds)]
        return some[i % len(some)] if some else None

    # -- operations

    def op_buy(self):
        number = zk.voucher_number(900000 + self.vouchers).decode("ascii")
        self.vouchers += 1
        balance = self.settled()
        code, _ = self.client.plugin("PUT", "voucher", {"voucher": number})
        check_equal(code, 200, "status of PUT voucher")
        state = []

        def redeemed():
            code, doc = self.client.plugin("GET", "voucher/" + number)
            check_equal(code, 200, "status of GET voucher")
            state[:] = [doc["state"]["name"]]
            return state == ["redeemed"]

        nodes.run(redeemed, "redeeming a voucher")
        check_equal(
            self.settled() - balance, self.case["tokens"], "passes a voucher is worth"
        )

    def quote(self, size):
        code, doc = self.client.plugin(
            "POST", "calculate-price", {"version": 1, "sizes": [size]}
        )
        check_equal(code, 200, "status of calculate-price")
        return doc["price"]

    def keep(self, o, where):
        """
        Link something new into the tree that is maintained.
        """
        if where is None or o is None or o.broken:
            return
        tree = [x for x in self.reachable() if x.kind == "dir" and not x.broken and x is not o]
        if tree and not self.missed and self.down is None:
            self.link(tree[where % len(tree)], o, f"n{len(self.objects)}")

    def op_put(self, size, which, where=None):
        # Some of it has been stored before.
        data = bytes(zk.stretch("c29-same", which, size)) if size < 3000 else self.content(size)
        self.keep(self.put(data), where)

    def put(self, data):
        price = self.quote(len(data))
        before = self.shares()
        balance = self.balance()
        body = self.operation(
            f"storing {len(data)} bytes",
            lambda: self.client.request("PUT", "uri", data),
            affordable=self.upload_bound(len(data)),
        )
        if body is None:
            return None
        o = Object("file", body.decode("ascii"), data)
        known = [x for x in self.objects if x.cap == o.cap]
        if not known and o.si is not None and not self.shares_of(o, before):
            numbers = [k[2] for k in self.shares_of(o)]
            if sorted(numbers) == list(range(self.total)):
                self.compare(price, balance - self.balance(), len(data))
        if known:
            return known[0]
        self.objects.append(o)
        return o

    def compare(self, quote, cost, size):
        """
        A new file was stored: compare what that cost with the quote.
        """
        if cost == quote:
            self.ctx.event("stored at the quoted price")
            return
        share = -(-size // self.needed)
        text = (
            f"storing {size} bytes, {self.needed} of {self.total}, costs {cost} where {quote} were"
            f" quoted, with {self.pass_value} bytes to the pass"
        )
        if quote == self.total * passes(share, self.pass_value) and cost > quote:
            # What a share has besides the data is not accounted for.
            check(cost <= self.upload_bound(size), text)
            self.ctx.known("C29-quote-overhead", text)
        else:
            check(False, text)

    def upload_bound(self, size):
        """
        At least what it costs to store an immutable file.
        """
        share = -(-size // self.needed) + 2000 + size // 200
        return self.total * passes(share, self.pass_value)

    def op_many(self, sizes):
        datas = [self.content(size) for size in sizes]
        price = sum(self.upload_bound(len(d)) for d in datas)
        before = self.shares()
        balance = self.settled()
        self.forget_allocations()
        ds = [self.client.send("PUT", "uri", data) for data in datas]
        answers = [nodes.wait(d, "several uploads") for d in ds]
        left = self.settled()
        after = self.shares()
        if all(code in (200, 201) for code, _ in answers):
            check_equal(balance - left, self.price(before, after), "passes spent, several uploads")
            self.ctx.event("several uploads at once")
        else:
            check(
                price > balance or self.down is not None,
                "several uploads with {} passes where {} are enough: {}",
                balance,
                price,
                [(code, short(body)) for code, body in answers if code >= 300],
            )
        for data, (code, body) in zip(datas, answers):
            if code in (200, 201):
                self.objects.append(Object("file", body.decode("ascii"), data))

    def op_mutable(self, size, format, where=None):
        data = self.content(size)
        body = self.operation(
            f"creating a mutable file of {size} bytes",
            lambda: self.client.request("PUT", f"uri?format={format}", data),
            affordable=self.mutable_bound(size),
        )
        if body is not None:
            self.objects.append(Object("mutable", body.decode("ascii"), data))
            self.keep(self.objects[-1], where)

    def changed(self, o, body, new):
        if body is None:
            # It may have been changed on some servers.
            if self.code in (409, 410, 500, 400, 503):
                o.broken = True
            else:
                raise HarnessError(f"status {self.code}")
        else:
            versions = set(share.data[1:9] for share in self.shares_of(o).values())
            if len(versions) > 1:
                # Not everybody could be told or paid.  In the latter case it
                # is for Tahoe-LAFS to say what comes of it.
                o.broken = not self.missed
                o.past.append(o.children if o.directory else o.data)
            else:
                o.past = []
            if o.directory:
                o.children = new
            else:
                o.data = new

    def op_overwrite(self, i, size):
        o = self.pick(i, "mutable")
        if o is None:
            return
        data = self.content(size)
        body = self.operation(
            f"overwriting a mutable file with {size} bytes",
            lambda: self.client.request("PUT", "uri/" + quote(o.cap), data),
            affordable=self.mutable_bound(max(size, len(o.data))),
        )
        self.changed(o, body, data)

    def op_patch(self, i, where, size):
        o = self.pick(i, "mutable")
        if o is None or o.past:
            return
        offset = int(where * len(o.data))
        data = self.content(size)
        body = self.operation(
            f"writing {size} bytes of a mutable file",
            lambda: self.client.request("PUT", f"uri/{quote(o.cap)}?offset={offset}", data),
            affordable=self.mutable_bound(max(offset + size, len(o.data))),
        )
        self.changed(o, body, o.data[:offset] + data + o.data[offset + size :])

    def op_mkdir(self, format, where=None):
        body = self.operation(
            "creating a directory",
            lambda: self.client.request("POST", f"uri?t=mkdir&format={format}"),
            affordable=self.mutable_bound(0),
        )
        if body is not None:
            self.objects.append(Object("dir", body.decode("ascii")))
            self.keep(self.objects[-1], where)

    def op_freeze(self, members, where=None):
        children = {}
        for n, i in zip(NAMES, members):
            o = self.pick(i, "file", "frozen")
            if o is not None:
                children[n] = o
        doc = {
            n: ["dirnode" if o.directory else "filenode", {"ro_uri": o.cap, "metadata": {}}]
            for n, o in children.items()
        }
        body = self.operation(
            "creating an immutable directory",
            lambda: self.client.request(
                "POST", "uri?t=mkdir-immutable", json.dumps(doc).encode("utf-8")
            ),
            affordable=self.mutable_bound(600 * len(children)),
        )
        if body is not None:
            o = Object("frozen", body.decode("ascii"))
            o.children = children
            self.objects.append(o)
            self.keep(o, where)

    def op_link(self, d, i, n):
        parent, o = self.pick(d, "dir"), self.pick(i)
        if parent is None or self.missed or self.down is not None:
            return
        self.link(parent, o, NAMES[n])

    def link(self, parent, o, name):
        children = dict(parent.children, **{name: o})
        body = self.operation(
            "linking",
            lambda: self.client.request(
                "PUT",
                f"uri/{quote(parent.cap)}/{quote(name, safe='')}?t=uri",
                o.cap.encode("ascii"),
            ),
            affordable=self.mutable_bound(600 * len(children)),
        )
        self.changed(parent, body, children)

    def op_unlink(self, d, n):
        parent = self.pick(d, "dir")
        if parent is None or self.missed or self.down is not None:
            return
        names = sorted(parent.children)
        if not names:
            return
        name = names[n % len(names)]
        children = dict(parent.children)
        del children[name]
        body = self.operation(
            "unlinking",
            lambda: self.client.request(
                "DELETE", f"uri/{quote(parent.cap)}/{quote(name, safe='')}"
            ),
            affordable=self.mutable_bound(600 * len(parent.children)),
        )
        self.changed(parent, body, children)

    def readable(self, o):
        """
        Are there enough shares of what was stored last?
        """
        if o.si is None:
            return True
        shares = self.shares_of(o)
        if not shares:
            return False
        version = (lambda s: s.data[1:9]) if o.mutable else (lambda s: 0)
        newest = max(version(s) for s in shares.values())
        there = set(
            k[2] for k, s in shares.items() if k[0] != self.down and version(s) == newest
        )
        return len(there) >= self.needed

    def op_get(self, i, part):
        o = self.pick(i)
        if o is None or not self.readable(o):
            return
        self.read(o, part)

    def read(self, o, part=None):
        if o.directory:
            body = self.operation(
                f"listing {o}",
                lambda: self.client.request("GET", f"uri/{quote(o.cap)}?t=json"),
                affordable=0,
                free=True,
            )
            if body is None:
                return
            kind, doc = json.loads(body)
            check_equal(kind, "dirnode", "kind of a directory")
            got = {
                n: (c[1].get("rw_uri") or c[1].get("ro_uri"))
                for n, c in doc["children"].items()
            }
            want = [
                {n: c.cap for n, c in children.items()} for children in [o.children] + o.past
            ]
            check(got in want, "children of a directory: {}, stored were {}", got, want[0])
            return
        headers = {}
        want = [o.data] + o.past
        if part is not None and len(o.data) and not o.past:
            first = int(part[0] * (len(o.data) - 1))
            last = first + int(part[1] * (len(o.data) - 1 - first))
            headers = {"Range": f"bytes={first}-{last}"}
            want = [o.data[first : last + 1]]
        body = self.operation(
            f"reading {o}",
            lambda: self.client.request("GET", f"uri/{quote(o.cap)}", headers=headers),
            affordable=0,
            free=True,
        )
        if body is not None:
            check(
                body in want,
                "reading {} got {} bytes {}, stored were {}",
                o,
                len(body),
                short(body, 80),
                short(want[0], 80),
            )

    def op_check(self, i, repair, add_lease):
        o = self.pick(i)
        if o is None or o.si is None or not self.readable(o):
            return
        if (self.down is not None or self.missed) and (repair or add_lease):
            return
        # A lease renewed in the second it began in looks the same.
        for share in self.shares_of(o).values():
            share.age(share.leases[0] - 60)
        before = self.shares()
        mine = self.shares_of(o, before)
        newest = max(s.data[1:9] for s in mine.values()) if o.mutable else None
        numbers = set(
            k[2]
            for k, s in mine.items()
            if k[0] != self.down and newest in (None, s.data[1:9])
        )
        everything = sum(passes(s.size, self.pass_value) for s in mine.values())
        whole = max(s.size for s in mine.values()) * self.needed
        bound = everything + self.mutable_bound(whole) if o.mutable or repair else everything
        balance = self.settled()
        enough = bound <= balance
        path = f"uri/{quote(o.cap)}?t=check&verify=true&output=JSON"
        if repair:
            path += "&repair=true"
        if add_lease:
            path += "&add-lease=true"
        body = self.operation(
            "checking",
            lambda: self.client.request("POST", path),
            affordable=bound,
            renews=add_lease or repair,
            free=not (repair or add_lease),
        )
        if body is None:
            o.broken = o.mutable and repair
            return
        doc = json.loads(body)
        results = doc["pre-repair-results"] if repair and not o.mutable else doc
        if repair:
            results = doc["pre-repair-results"]
        results = results["results"]
        if self.missed or self.down is not None:
            return
        check_equal(
            results["count-shares-good"], len(numbers), f"good shares found of {o}"
        )
        after = self.shares_of(o)
        if enough:
            if repair and len(numbers) < self.total:
                check(doc["repair-attempted"] and doc["repair-successful"], "repair: {}", short(body))
                check_equal(
                    len(set(k[2] for k in after)), self.total, "shares after a repair"
                )
                self.ctx.event("repaired")
                self.notable = True
            if add_lease:
                for k in after:
                    check(fresh(after[k].leases[0]), "lease not renewed: {}", after[k].leases)
                self.ctx.event("leases renewed by a check")

    def op_age(self, i, days, server):
        o = self.pick(i)
        if o is None or o.si is None:
            return
        for k, share in self.shares_of(o).items():
            if server is None or k[0] == server:
                share.age(time.time() + days * DAY)
        self.ctx.event("leases aged")
        self.notable = True

    def op_lose(self, i, server):
        o = self.pick(i)
        if o is None or o.si is None or self.down is not None or self.missed:
            return
        mine = self.shares_of(o)
        rest = set(k[2] for k in mine if k[0] != server)
        if len(rest) < self.needed:
            return
        for k, share in mine.items():
            if k[0] == server:
                os.unlink(share.path)
        self.ctx.event("shares lost")
        self.notable = True

    def op_restart(self):
        balance = self.settled()
        self.client.stop()
        self.start_client()
        check_equal(self.settled(), balance, "passes after a restart")
        self.ctx.event("restart")
        self.notable = True

    def start_client(self):
        up = sum(1 for s in self.servers if s.node is not None)
        self.client.start(connect=False)
        self.client.connect(up)

    def op_down(self, server):
        if self.down is not None:
            return
        self.down = server
        self.missed = True
        self.servers[server].stop()
        self.client.connect(len(self.servers) - 1)
        self.ctx.event("a server goes away")
        self.notable = True

    def op_up(self):
        if self.down is None:
            return
        self.servers[self.down].start()
        self.down = None
        for s in self.client.node.get_storage_broker().get_known_servers():
            s.try_to_connect()
        self.client.connect(len(self.servers))

    def root(self):
        dirs = [o for o in self.objects if o.kind == "dir"]
        return dirs[0] if dirs else None

    def reachable(self):
        root = self.root()
        if root is None:
            return []
        seen = {}
        stack = [root]
        while stack:
            o = stack.pop()
            if id(o) in seen:
                continue
            seen[id(o)] = o
            # What cannot be listed is not followed.
            stack.extend(o.children.values())
        return seen.values()

    def op_maintain(self, ages):
        if self.down is not None or self.missed or self.root() is None or self.root().broken:
            return
        if any(o.broken or o.past or not self.readable(o) for o in self.reachable() if o.directory):
            return
        tree = [o for o in self.reachable() if o.si is not None]
        for i, days, server in ages:
            for k, share in self.shares_of(tree[i % len(tree)]).items():
                if server is None or k[0] == server:
                    share.age(time.time() + days * DAY)
        before = self.shares()
        balance = self.settled()
        self.client.stop()
        nodes.write(self.client.private("rootcap"), self.root().cap)
        nodes.write(
            self.client.private("last-lease-maintenance-run"), datetime(2001, 1, 1).isoformat()
        )
        began = time.time()
        self.forget_allocations()
        self.client.start()

        nodes.run(lambda: self.last_run() > datetime(2001, 1, 1), "lease maintenance")
        left = self.settled()
        after = self.shares()
        wanted = {}
        seen = 0
        sis = set(o.si for o in self.reachable() if o.si is not None)
        groups = {}
        for k, share in before.items():
            groups.setdefault(k[:2], []).append(share)
        for (n, si), shares in groups.items():
            if si in sis:
                cost = sum(passes(s.size, self.pass_value) for s in shares)
                seen += cost
                if min(s.leases[-1] for s in shares) - began < self.min_remaining:
                    wanted[n, si] = cost
        renewed = set(k[:2] for k in after if after[k].leases != before[k].leases)
        check(set(before) == set(after), "maintenance added or removed shares")
        check(
            all(before[k].data == after[k].data for k in after), "maintenance changed shares"
        )
        extra = renewed - set(wanted)
        check(not extra, "maintenance renewed leases which did not need it: {}", extra)
        if sum(wanted.values()) <= balance:
            missing = set(wanted) - renewed
            check(
                not missing,
                "maintenance did not renew {} of {} leases which needed it",
                len(missing),
                len(wanted),
            )
            for k, share in after.items():
                if k[:2] in wanted:
                    check(fresh(share.leases[0]), "renewed until {}", share.leases)
        check_equal(balance - left, self.price(before, after), "passes spent, maintenance")
        spending = self.wallet()["spending"]
        check(spending is not None, "no maintenance reported")
        check_equal(spending["count"], seen, "cost of all leases as reported by maintenance")
        when = datetime.fromisoformat(spending["when"])
        check(
            abs((when.replace(tzinfo=None) - datetime.utcnow()).total_seconds()) < 3600,
            "maintenance reported for {}",
            when,
        )
        self.ctx.event(f"maintenance, {min(len(wanted), 3)} renewed")
        self.notable = True

    def last_run(self):
        with open(self.client.private("last-lease-maintenance-run")) as f:
            return datetime.fromisoformat(f.read())


def cases():
    return st.fixed_dictionaries(
        {
            "pass_value": st.sampled_from([1000, 1000, 4096]),
            "encoding": st.sampled_from(
                [(1, 1, 1), (2, 2, 3), (1, 2, 3), (3, 3, 3), (2, 3, 5), (3, 3, 6)]
            ),
            "tokens": zk.weighted((1, st.integers(32, 80)), (4, st.integers(150, 400))),
            "min_remaining": st.sampled_from([0, 0, 2, 10, 18]),
            "start": st.lists(
                st.one_of(
                    zk.op("put", SIZE, st.integers(0, 3), st.integers(0, 40)),
                    zk.op("mutable", MUTABLE_SIZE, FORMATS, st.integers(0, 40)),
                    zk.op("mkdir", FORMATS, st.integers(0, 40)),
                ),
                min_size=1,
                max_size=5,
            ),
            "poor": st.lists(zk.op("put", SIZE, st.integers(0, 3)), max_size=1),
            "ops": zk.program(OPS, 4, 25),
        }
    )


@CHECK.test(cases, quick=64, thorough=1500)
def whole_system(case, ctx):
    w = Nodes(case, ctx)
    for name, *args in case["poor"]:
        getattr(w, "op_" + name)(*args)
    w.op_buy()
    w.op_mkdir("sdmf")
    for name, *args in case["start"] + case["ops"]:
        if not w.objects:
            w.op_buy()
            w.op_mkdir("sdmf")
        getattr(w, "op_" + name)(*args)
    w.op_up()
    for o in w.objects:
        if not o.broken and w.readable(o):
            w.read(o)
    if w.stored and w.notable:
        ctx.nontrivial()


# -- replication and recovery


class Recovered(Nodes):
    """
    A wallet is replicated as it is used and recovered into a new node.
    """

    def status(self):
        code, doc = self.client.plugin("GET", "voucher")
        check_equal(code, 200, "status of GET voucher")
        return sorted(doc["vouchers"], key=lambda v: v["number"])

    def tokens(self, client):
        return set(t for (t,) in zk.raw_rows(client.database, "SELECT [token] FROM [unblinded-tokens]"))

    def op_use(self, size):
        code, body = self.client.request("PUT", "uri", self.content(size))
        if code in (200, 201):
            self.stored = True
        else:
            self.ctx.event("refused")

    def op_buy(self):
        number = zk.voucher_number(800000 + self.vouchers).decode("ascii")
        self.vouchers += 1
        code, _ = self.client.plugin("PUT", "voucher", {"voucher": number})
        check_equal(code, 200, "status of PUT voucher")
        if self.vouchers % 3 == 0:
            # Do not wait for it.
            return
        nodes.run(
            lambda: self.client.plugin("GET", "voucher/" + number)[1]["state"]["name"]
            == "redeemed",
            "redeeming a voucher",
        )

    def op_restart(self):
        self.client.stop()
        self.client.start()

    def op_late(self, stop):
        """
        The client is started when it cannot reach any server.
        """
        self.client.stop()
        for s in stop:
            self.servers[s].stop()
        self.client.start(connect=False)
        nodes.pause(0.5)
        for s in stop:
            self.servers[s].start()
        for s in self.client.node.get_storage_broker().get_known_servers():
            s.try_to_connect()
        self.client.connect(len(self.servers))
        self.ctx.event("servers are late")

    def replicate(self):
        code, doc = self.client.plugin("POST", "replicate")
        check(code == 201, "status of POST replicate: got {}: {}", code, doc)
        self.cap = doc["recovery-capability"]
        check(self.cap.startswith("URI:DIR2-RO:"), "recovery capability {}", self.cap)
        code, doc = self.client.plugin("POST", "replicate")
        check_equal((code, doc["recovery-capability"]), (409, self.cap), "second POST replicate")

    def catch_up(self):
        """
        Wait until everything of importance is at the replica.
        """

        def redeemed():
            return all(v["state"]["name"] == "redeemed" for v in self.status())

        nodes.run(redeemed, "redeeming the vouchers")

        def uploaded():
            important = zk.raw_rows(
                self.client.database, "SELECT count(*) FROM [event-stream] WHERE [important]"
            )
            if important[0][0]:
                return False
            code, body = self.client.request("GET", f"uri/{quote(self.cap)}?t=json")
            return code == 200 and "snapshot" in json.loads(body)[1]["children"]

        nodes.run(uploaded, "replication")

    def waiting(self):
        """
        How many changes are yet to be uploaded.  Passes which were received
        are not important: they can be had again with what was replicated.
        """
        return zk.raw_rows(self.client.database, "SELECT count(*) FROM [event-stream]")[0][0]

    def redeemed_again(self, vouchers):
        """
        What was recovered is what was replicated, but a redemption may not be
        done yet.
        """
        got = self.status()

        def described(v):
            return v["number"], v["expected-tokens"], v["created"]

        check_equal(
            list(map(described, got)), list(map(described, vouchers)), "vouchers recovered"
        )
        behind = 0
        for new, old in zip(got, vouchers):
            if new != old:
                check(
                    new["state"]["name"] in ("pending", "redeeming"),
                    "a redeemed voucher was recovered as {}",
                    new["state"],
                )
                behind += 1
        if behind:
            self.op_restart()
            nodes.run(
                lambda: all(v["state"]["name"] == "redeemed" for v in self.status()),
                "redeeming vouchers which were recovered",
            )
            self.ctx.event("redeemed again")
        return self.status()

    def accounts(self):
        """
        What was bought is still there or was paid for what is stored, unless
        something was interrupted.
        """
        if any(name in ("restart", "late") for name, *_ in self.case["before"] + self.case["after"]):
            return
        bought = self.case["tokens"] * self.vouchers

        def balanced():
            shares = self.shares()
            return bought - self.settled() == self.price({}, shares)

        nodes.run(balanced, "waiting for the accounts to balance")

    def recover(self, client, cap):
        from _zkapauthorizer.resource import recover
        from autobahn.twisted.websocket import create_client_agent
        from hyperlink import DecodedURL
        from tahoe_capabilities import readonly_directory_from_string

        return nodes.wait(
            recover(
                create_client_agent(nodes.reactor()),
                DecodedURL.from_text(client.url).replace(scheme="ws"),
                client.token,
                readonly_directory_from_string(cap),
            ),
            "recovery",
        )


USE = zk.weighted(
    (3, zk.op("use", SIZE)),
    (1, zk.op("buy")),
    (1, zk.op("restart")),
    (1, zk.op("late", st.lists(SERVER, min_size=1, max_size=3, unique=True))),
)


def recovery_cases():
    return st.fixed_dictionaries(
        {
            "pass_value": st.just(4096),
            "encoding": st.sampled_from([(1, 1, 1), (2, 2, 3), (3, 3, 3)]),
            "tokens": st.integers(250, 500),
            "min_remaining": st.just(0),
            "before": st.lists(USE, max_size=4),
            "after": st.lists(USE, max_size=8),
            "in use": zk.weighted((3, st.just(False)), (1, st.just(True))),
        }
    )


@CHECK.test(recovery_cases, quick=24, thorough=400)
def recovered(case, ctx):
    w = Recovered(case, ctx)
    w.op_buy()
    for name, *args in case["before"]:
        getattr(w, "op_" + name)(*args)
    w.replicate()
    for name, *args in case["after"]:
        getattr(w, "op_" + name)(*args)
    w.catch_up()
    w.accounts()
    vouchers = w.status()
    tokens = w.tokens(w.client)
    behind = w.waiting()
    w.client.stop()
    source = w.client
    w.client = w.make_client(os.path.join(ctx.tempdir(), "client"))
    w.client.start()
    if case["in use"]:
        w.vouchers = 1000
        w.op_buy()
        mine = w.tokens(w.client)
        stages = [u["stage"] for u in w.recover(w.client, w.cap)]
        check_equal(stages[-1:], ["import_failed"], "outcome of a recovery into a wallet in use")
        check_equal(w.tokens(w.client), mine, "passes after a refused recovery")
        ctx.event("refused: in use")
        ctx.nontrivial()
        return
    stages = [u["stage"] for u in w.recover(w.client, w.cap)]
    check_equal(stages[-1:], ["succeeded"], "outcome of a recovery")
    if behind:
        vouchers = w.redeemed_again(vouchers)
    check_equal(w.status(), vouchers, "vouchers recovered")
    got = w.tokens(w.client)
    check(tokens <= got, "{} of {} passes were not recovered", len(tokens - got), len(tokens))
    check_equal(w.balance(), len(got), "passes reported, compared to those recovered")
    w.op_restart()
    check_equal(w.status(), vouchers, "vouchers recovered, after a restart")
    stages = [u["stage"] for u in w.recover(w.client, w.cap)]
    check_equal(stages[-1:], ["import_failed"], "outcome of a second recovery")
    check_equal(w.tokens(w.client), got, "passes after a second recovery")
    # They are good.
    if len(got) >= 20:
        w.objects = []
        w.put(w.content(3000))
        check(w.objects, "nothing can be stored with recovered passes")
        w.read(w.objects[0])
    ctx.event("recovered")
    if w.stored:
        ctx.nontrivial()


# -- configuration


def configurations():
    other = st.sampled_from(["other-plugin-v1", "x", "privatestorageio-zkapauthz-v1", ""])
    return st.fixed_dictionaries(
        {
            "names": st.none() | st.lists(other | st.just("NAME"), max_size=3),
            "before": st.sampled_from(["", " ", "  "]),
            "after": st.sampled_from(["", " ", "\t"]),
        }
    )


@CHECK.test(configurations, quick=24, thorough=200)
def attached(case, ctx):
    from _zkapauthorizer import NAME
    from _zkapauthorizer.lease_maintenance import SERVICE_NAME

    issuer, servers = nodes.grid(1000)
    client = nodes.ClientNode(
        os.path.join(ctx.tempdir(), "client"), [], issuer, 1000, (1, 1, 1), 32
    )
    names = case["names"]
    del client.sections["client"]["storage.plugins"]
    if names is not None:
        names = [NAME if n == "NAME" else n for n in names]
        client.sections["client"]["storage.plugins"] = ",".join(
            case["before"] + n + case["after"] for n in names
        )
    client.start()
    ctx.cleanup(client.stop)
    enabled = NAME in (names or [])
    try:
        client.node.getServiceNamed(SERVICE_NAME)
    except KeyError:
        attached = False
    else:
        attached = True
    check_equal(attached, enabled, f"maintains leases with storage.plugins {names}")
    code, _ = client.plugin("GET", "version")
    if enabled:
        # Tahoe-LAFS serves nothing if it does not know all of the plugins.
        check(code == 200 or set(names) != {NAME}, "status of GET version: {}", code)
        ctx.event("enabled")
        ctx.nontrivial()
    else:
        check(code >= 400, "status of GET version without the plugin: {}", code)
    code, _ = client.request("GET", "?t=json")
    check_equal(code, 200, "status of the node's own page")
