"""C26: the stored configuration is what is in force."""

import json
import os
import sqlite3

from hypothesis import strategies as st
from twisted.internet import task

from . import c20
from .. import node, zk
from ..core import Check, HarnessError, Violation, check, check_equal, short
from ..storage import (
    FOREIGN_KEY,
    SERVER_KEY,
    ceil_div,
    message,
    pass_parts,
    public_key,
    storage_index,
    cancel_secret,
    renew_secret,
)

CHECK = Check(
    "C26",
    rule=(
        "Generated configurations of client nodes (each item absent, given in different"
        " spellings, or invalid; one or two nodes in one process; restarts with a changed"
        " configuration) and of servers, observed only through what they do: quotes,"
        " redemption requests, the sizes of token sets, what gets spendable, what is"
        " paid for uploads, which servers are refused, announcements and refusals."
        "  Non-trivial: a voucher was redeemed or an upload paid for under at least one"
        " item that differs from its default, or an invalid item was refused."
    ),
    assumptions=[
        "Items are written in the syntax of tahoe.cfg without % and line comments.",
        "Lease maintenance times are at most 31 days where quotes depend on them.",
    ],
)

MONTH = 31 * 24 * 3600
GROUPS = 16
MISSING = "<missing>"


def spell_list(keys, style):
    if style == "lines":
        return ",\n    ".join(keys)
    return style.join(keys)


class Reactor:
    """
    A virtual reactor which resolves names to addresses of its own.
    """

    @staticmethod
    def make():
        from twisted.internet.address import IPv4Address
        from twisted.internet.interfaces import (
            IHostResolution,
            IReactorPluggableNameResolver,
        )
        from zope.interface import directlyProvides, implementer, providedBy

        reactor = node.make_reactor()
        reactor.names = {}

        @implementer(IHostResolution)
        class Resolution:
            def __init__(self, name):
                self.name = name

            def cancel(self):
                pass

        class Resolver:
            def resolveHostName(
                self, receiver, hostName, portNumber=0, addressTypes=None, transportSemantics="TCP"
            ):
                r = Resolution(hostName)
                address = reactor.names.setdefault(hostName, f"10.0.0.{len(reactor.names) + 1}")
                receiver.resolutionBegan(r)
                receiver.addressResolved(IPv4Address("TCP", address, portNumber))
                receiver.resolutionComplete()
                return r

        reactor.nameResolver = Resolver()
        directlyProvides(reactor, providedBy(reactor), IReactorPluggableNameResolver)
        return reactor


class Process:
    """
    A process with the plugin and some client nodes in it.
    """

    def __init__(self, ctx, directories):
        from _zkapauthorizer import NAME
        from _zkapauthorizer._plugin import ZKAPAuthorizer
        from _zkapauthorizer.tahoe import get_tahoe_client

        self.reactor = Reactor.make()
        # What sends request bodies.
        before = task._theCooperator
        task._theCooperator = task.Cooperator(
            scheduler=lambda f: self.reactor.callLater(0, f), started=True
        )
        ctx.cleanup(lambda: setattr(task, "_theCooperator", before))
        self.plugin = ZKAPAuthorizer(
            name=NAME, reactor=self.reactor, get_tahoe_client=get_tahoe_client
        )
        self.nodes = []
        ctx.cleanup(self.close)

    def close(self):
        for n in self.nodes:
            n.close()


class Settings:
    """
    What a generated configuration means.
    """

    def __init__(self, c):
        self.pass_value = c["pass_value"] or 1024 * 1024
        self.tokens = c["tokens"] or 2**15
        self.keys = set(c["keys"])
        self.needed = c["needed"] or 3
        self.total = c["total"] or 10
        self.remaining = c["remaining"] or 0
        kind, *arg = c["redeemer"]
        self.redeemer = "ristretto" if kind == "default" else kind
        self.argument = arg[0] if arg else None

    @staticmethod
    def items(c):
        kind, *arg = c["redeemer"]
        pad = " " * c["pad"]
        items = {"allowed-public-keys": pad + spell_list(c["keys"], c["style"]) + pad}
        if kind != "default":
            items["redeemer"] = kind
        if kind == "dummy":
            items["issuer-public-key"] = arg[0]
        elif kind == "error":
            items["details"] = arg[0]
        elif kind in ("ristretto", "default"):
            items["ristretto-issuer-root-url"] = arg[0]
        for name, option in [
            ("pass_value", "pass-value"),
            ("tokens", "default-token-count"),
            ("mean", "lease.crawl-interval.mean"),
            ("range", "lease.crawl-interval.range"),
            ("remaining", "lease.min-time-remaining"),
        ]:
            if c[name] is not None:
                items[option] = f"{pad}{c[name]}{pad}"
        if c["other"]:
            # Someone else's.
            items["unrelated"] = c["other"]
        client = {}
        if c["needed"] is not None:
            client["shares.needed"] = str(c["needed"])
        if c["total"] is not None:
            client["shares.total"] = str(c["total"])
        return items, client


def apply_faults(items, client, faults):
    for option, text in faults:
        where = client if option.startswith("shares.") else items
        if text == MISSING:
            where.pop(option, None)
        else:
            where[option] = text


class ClientNode:
    def __init__(self, process, directory, c, ctx):
        self.ctx = ctx
        self.process = process
        self.want = Settings(c)
        items, client = Settings.items(c)
        self.config = node.make_config(directory, items, client)
        self.root = process.plugin.get_client_resource(self.config)
        process.nodes.append(self)
        self.site = node.make_site(self.root, process.reactor)
        self.db = os.path.join(directory, "private", "privatestorageio-zkapauthz-v1.sqlite3")

    def close(self):
        if self.root is not None:
            self.root.store._connection.close()
            self.root = self.site = None

    # -- what is to be seen of it

    def quote(self, sizes):
        r = node.request(
            self.site,
            "POST",
            "/calculate-price",
            [("Content-Type", "application/json")],
            json.dumps({"version": 1, "sizes": sizes}).encode("ascii"),
        )
        check_equal(r.status, 200, f"status of the quote for {sizes}")
        w = self.want
        price = sum(w.total * ceil_div(ceil_div(s, w.needed), w.pass_value) for s in sizes)
        check_equal(
            r.json(), {"price": price, "period": MONTH - w.remaining}, f"quote for {sizes}"
        )

    def spendable(self):
        r = node.request(self.site, "GET", "/lease-maintenance")
        check_equal(r.status, 200, "status of the token count")
        return r.json()["total"]

    def rows(self, sql, args):
        try:
            return zk.raw_rows(self.db, sql, args)
        except sqlite3.OperationalError as e:
            raise Violation(f"the database of the node is not usable: {e}")

    def redeem(self, i):
        w = self.want
        number = zk.voucher_number(i).decode("ascii")
        before = self.spendable()
        connections = list(self.process.reactor.tcpClients)
        r = node.request(
            self.site,
            "PUT",
            "/voucher",
            [("Content-Type", "application/json")],
            json.dumps({"voucher": number}).encode("ascii"),
        )
        check_equal(r.status, 200, "status of a voucher submission")
        self.process.reactor.advance(0)
        new = [x for x in self.process.reactor.tcpClients if x not in connections]
        if w.redeemer != "ristretto":
            check_equal(len(new), 0, f"connections made by the {w.redeemer} redeemer")
        else:
            self.ristretto(new, number)
        r = node.request(self.site, "GET", f"/voucher/{number}")
        check_equal(r.status, 200, "status of a voucher query")
        got = r.json()
        state = got["state"]
        if w.redeemer == "dummy":
            check_equal(state["name"], "redeemed", "state of a voucher")
            good = w.argument in w.keys
            # Those set aside do not count.
            check_equal(
                state["token-count"], w.tokens if good else 0, "tokens for a voucher"
            )
            check_equal(
                self.spendable() - before,
                w.tokens if good else 0,
                f"tokens made spendable when {w.argument!r} signed them"
                f" and {sorted(w.keys)} are allowed",
            )
            row = self.rows(
                "SELECT number, state FROM vouchers WHERE number = ?",
                (number,),
            )
            check_equal(row, [(number, "redeemed")], "recorded voucher")
            groups = self.rows(
                "SELECT spendable, [public-key] FROM [redemption-groups] WHERE voucher = ?",
                (number,),
            )
            check_equal(
                set(groups), {(int(good), w.argument)}, "recorded keys and decisions about them"
            )
            self.ctx.event("accepted" if good else "not accepted")
        else:
            check_equal(got["expected-tokens"], w.tokens, "tokens expected for a voucher")
            name = {
                "non": "redeeming",
                "double-spend": "double-spend",
                "unpaid": "unpaid",
                "error": "error",
                "ristretto": "redeeming",
            }[w.redeemer]
            check_equal(state["name"], name, f"state of a voucher at the {w.redeemer} redeemer")
            if name == "error":
                check_equal(state["details"], w.argument, "details of the error")
            check_equal(self.spendable(), before, "spendable tokens")
        return got["expected-tokens"]

    def ristretto(self, new, number):
        """
        The request goes to the configured issuer.
        """
        from hyperlink import URL
        from twisted.internet.testing import StringTransport

        url = URL.from_text(self.want.argument)
        check_equal(len(new), 1, "connections made to redeem a voucher")
        host, port, factory = new[0][:3]
        port_wanted = url.port
        reactor = self.process.reactor
        check_equal(
            (host, port),
            (reactor.names.get(url.host), port_wanted),
            f"address used for the issuer at {self.want.argument}",
        )
        protocol = factory.buildProtocol(None)
        transport = StringTransport()
        protocol.makeConnection(transport)
        for _ in range(5):
            reactor.advance(0)
        sent = transport.value()
        if url.scheme == "https":
            check(sent[:1] == b"\x16", "the issuer at {} is sent {}", self.want.argument, sent)
            check(url.host.encode("ascii") in sent, "no SNI of {} in {}", url.host, sent)
            return
        head, _, body = sent.partition(b"\r\n\r\n")
        path = "".join("/" + p for p in url.path if p) + "/v1/redeem"
        line = head.split(b"\r\n")[0].decode("ascii")
        got = line.split(" ")
        check(
            got[0] == "POST" and got[1].replace("//", "/") == path,
            "request line {!r} for the issuer at {}",
            line,
            self.want.argument,
        )
        asked = json.loads(body)
        check_equal(asked["redeemVoucher"], number, "voucher redeemed")
        check_equal(asked["redeemCounter"], 0, "counter of the first redemption")
        check_equal(
            len(asked["redeemTokens"]),
            ceil_div(self.want.tokens, GROUPS),
            "tokens in the first redemption",
        )

    def upload(self, shares, size, announced):
        """
        What is paid for an upload.
        """
        from foolscap.api import Any, DictOf, RemoteInterface  # noqa

        from _zkapauthorizer.tests.foolscap import LocalRemote
        from twisted.internet.defer import succeed

        paid = []
        client = self.storage_client(announced, lambda: rref)
        if client is None:
            return None

        class Remote(LocalRemote):
            def callRemote(self, _name, *args, **kw):
                paid.append((_name, len(args[0])))
                return succeed((set(), {n: object() for n in args[4]}))

        rref = Remote(Referenceable())
        if self.want.redeemer != "dummy":
            return None
        price = shares * ceil_div(size, self.want.pass_value)
        if price > min(self.spendable(), 600):
            return None
        before = self.spendable()
        zk.sync(
            client.allocate_buckets(
                storage_index(0),
                renew_secret(0),
                cancel_secret(0),
                set(range(shares)),
                size,
                None,
            )
        )
        check_equal(
            paid, [("allocate_buckets", price)], f"passes for {shares} shares of {size} bytes"
        )
        check_equal(before - self.spendable(), price, "tokens spent")
        return price

    def storage_client(self, announced, get_rref):
        """
        A storage client is for servers with the same issuer only.
        """
        announcement = {"ristretto-issuer-root-url": announced, "ristretto-public-keys": ["k"]}
        if self.want.redeemer == "ristretto" and (
            announced != self.want.argument
            and announced.rstrip("/") == self.want.argument.rstrip("/")
        ):
            # Different or not, as you like it.
            return None
        mismatch = self.want.redeemer == "ristretto" and announced != self.want.argument
        try:
            client = self.process.plugin.get_storage_client(self.config, announcement, get_rref)
        except Exception as e:
            if not mismatch:
                raise
            self.ctx.event("server refused")
            return None
        check(
            not mismatch,
            "the issuer is {!r}, a server announcing {!r} is used",
            self.want.argument,
            announced,
        )
        return client

    def maintenance(self, sizes):
        activity = self.root.store.start_lease_maintenance()
        activity.observe(sizes)
        activity.finish()
        got = self.root.store.get_latest_lease_maintenance_activity().passes_required
        check_equal(
            got,
            sum(ceil_div(s, self.want.pass_value) for s in sizes),
            f"passes recorded for the leases of {sizes}",
        )
        r = node.request(self.site, "GET", "/lease-maintenance")
        check_equal(r.json()["spending"]["count"], got, "passes reported")

    def encoding(self):
        from _zkapauthorizer.tahoe import get_tahoe_client

        encoding = get_tahoe_client(self.process.reactor, self.config).get_config().encoding
        check_equal(
            (encoding.needed, encoding.total),
            (self.want.needed, self.want.total),
            "encoding parameters",
        )


class Referenceable:
    def getInterface(self):
        from _zkapauthorizer.foolscap import RIPrivacyPassAuthorizedStorageServer

        return RIPrivacyPassAuthorizedStorageServer


# -- generation

KEYS = ["AAAA", "BBBB", "CCCC", "AAA", "YXNkYXNkYXNkYXNkYXNkCg=="]
URLS = [
    "http://issuer.example.invalid/",
    "http://issuer.example.invalid",
    "https://issuer.example.invalid/",
    "http://issuer.example.invalid:8081/",
    "http://other.example.invalid/api/",
    "http://other.example.invalid/api/deeper",
    "https://other.example.invalid:444/",
]

REDEEMERS = zk.weighted(
    (6, st.tuples(st.just("dummy"), st.sampled_from(KEYS))),
    (1, st.just(("non",))),
    (1, st.just(("double-spend",))),
    (1, st.just(("unpaid",))),
    (1, st.tuples(st.just("error"), st.sampled_from(["something", "went wrong: x=1; y", "é"]))),
    (2, st.tuples(st.just("ristretto"), st.sampled_from(URLS))),
    (2, st.tuples(st.just("default"), st.sampled_from(URLS))),
)


def optional(s):
    return st.none() | s


@st.composite
def configurations(draw, dummy_tokens=400):
    redeemer = draw(REDEEMERS)
    return {
        "redeemer": redeemer,
        "pass_value": draw(
            zk.weighted(
                (1, st.none()),
                (1, st.sampled_from([1, 2, 1024, 10**6, 2**20, 2**21, 10**12])),
                (2, st.integers(1, 3000)),
            )
        ),
        "tokens": draw(
            zk.weighted((2, st.sampled_from([16, 17, 31, 32, 100])), (2, st.integers(16, dummy_tokens)))
        ),
        "keys": draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=4)),
        "style": draw(st.sampled_from([",", ", ", " , ", " ,", "lines"])),
        "pad": draw(st.sampled_from([0, 0, 1, 3])),
        "mean": draw(optional(st.integers(0, 10**7))),
        "range": draw(optional(st.integers(0, 10**7))),
        "remaining": draw(optional(st.sampled_from([0, 1, 86400, MONTH]) | st.integers(0, MONTH))),
        "needed": draw(optional(st.integers(1, 12))),
        "total": draw(optional(st.integers(1, 256))),
        "other": draw(st.sampled_from(["", "5", "pass-value = 7"])),
    }


@st.composite
def actions(draw):
    return draw(
        zk.weighted(
            (
                3,
                zk.op(
                    "redeem",
                    st.integers(0, 10**6),
                ),
            ),
            (2, zk.op("quote", st.lists(st.integers(0, 10**7), max_size=4))),
            (
                3,
                zk.op(
                    "upload",
                    st.integers(1, 10),
                    zk.weighted((3, st.integers(0, 20000)), (1, st.integers(0, 10**7))),
                    st.sampled_from(URLS),
                ),
            ),
            (1, zk.op("maintenance", st.lists(st.integers(0, 10**7), max_size=4))),
        )
    )


@st.composite
def cases(draw):
    count = draw(st.sampled_from([1, 1, 2]))
    generations = draw(st.integers(1, 3))
    return {
        "configs": [
            [draw(configurations()) for _ in range(count)] for _ in range(generations)
        ],
        "programs": [
            draw(st.lists(st.tuples(st.integers(0, 1), actions()), min_size=1, max_size=6))
            for _ in range(generations)
        ],
    }


@CHECK.test(cases, quick=700)
def honoured(case, ctx):
    base = ctx.tempdir()
    directories = [os.path.join(base, f"node{i}") for i in range(len(case["configs"][0]))]
    for d in directories:
        os.mkdir(d)
    fresh = 0
    useful = False
    for configs, program in zip(case["configs"], case["programs"]):
        process = Process(ctx, directories)
        nodes = [ClientNode(process, d, c, ctx) for d, c in zip(directories, configs)]
        process.reactor.start()
        for n in nodes:
            n.encoding()
        for which, (name, *args) in program:
            n = nodes[which % len(nodes)]
            if name == "redeem":
                fresh += 1
                n.redeem(fresh)
                useful = True
            elif name == "quote":
                n.quote(*args)
            elif name == "upload":
                shares, size, announced = args
                if n.upload(shares, size, announced):
                    ctx.event("upload paid for")
                    useful = True
            else:
                n.maintenance(*args)
        process.reactor.shutdown()
        process.close()
    if useful:
        ctx.nontrivial()


@CHECK.test(
    lambda: st.fixed_dictionaries(
        {
            "redeemer": st.sampled_from(["non", "unpaid"]),
            "sizes": st.lists(st.integers(0, 10**8), min_size=1, max_size=3),
        }
    ),
    quick=6,
    thorough=12,
)
def defaults(case, ctx):
    """
    A configuration with no more than there has to be.
    """
    directory = ctx.tempdir()
    process = Process(ctx, [directory])
    c = dict.fromkeys(
        ["pass_value", "tokens", "mean", "range", "remaining", "needed", "total", "other"]
    )
    c.update(redeemer=(case["redeemer"],), keys=["k"], style=",", pad=0)
    n = ClientNode(process, directory, c, ctx)
    process.reactor.start()
    n.encoding()
    n.quote(case["sizes"])
    n.maintenance(case["sizes"])
    check_equal(n.redeem(1), 32768, "tokens expected by default")
    ctx.nontrivial()


# -- when leases are maintained


@CHECK.test(c20.plugin_cases, quick=150)
def schedule(case, ctx):
    """
    The node maintains leases when it is configured to.
    """
    c20.plugin(case, ctx)


# -- what is refused

NOT_NUMBERS = ["", "x", "1.5", "1e6", "0x10", "12 days", "1,000", "1 000", "None", "-", "ten"]
NEGATIVE = ["-1", "-1048576", "-0x1"]


@st.composite
def bad_items(draw, redeemer):
    kind = redeemer[0]
    options = [
        ("pass-value", st.sampled_from(NOT_NUMBERS + NEGATIVE + ["0"])),
        ("default-token-count", st.sampled_from(NOT_NUMBERS + NEGATIVE + ["0", "1", "15"])),
        ("lease.crawl-interval.mean", st.sampled_from(NOT_NUMBERS + NEGATIVE)),
        ("lease.crawl-interval.range", st.sampled_from(NOT_NUMBERS + NEGATIVE)),
        ("lease.min-time-remaining", st.sampled_from(NOT_NUMBERS + NEGATIVE)),
        ("shares.needed", st.sampled_from(NOT_NUMBERS)),
        ("shares.total", st.sampled_from(NOT_NUMBERS)),
        ("allowed-public-keys", st.just(MISSING)),
        ("redeemer", st.sampled_from(["", "Dummy", "dumm", "none", "ristretto2", "ristretto,dummy"])),
    ]
    required = {
        "dummy": "issuer-public-key",
        "error": "details",
        "ristretto": "ristretto-issuer-root-url",
        "default": "ristretto-issuer-root-url",
    }.get(kind)
    if required is not None:
        options.append((required, st.just(MISSING)))
    option, texts = draw(st.sampled_from(options))
    return [option, draw(texts)]


@st.composite
def bad_cases(draw):
    c = draw(configurations())
    return {"config": c, "fault": draw(bad_items(c["redeemer"]))}


@CHECK.test(bad_cases, quick=1500)
def refused(case, ctx):
    """
    A node does not start with something else than what was configured.
    """
    directory = ctx.tempdir()
    process = Process(ctx, [directory])
    items, client = Settings.items(case["config"])
    apply_faults(items, client, [case["fault"]])
    config = node.make_config(directory, items, client)
    try:
        root = process.plugin.get_client_resource(config)
    except Exception as e:
        e._pbt_from_sut = False
        root = None
    check(root is None, "a node starts with {} = {!r}", *case["fault"])
    ctx.event(case["fault"][0])
    ctx.nontrivial()


# -- servers


@st.composite
def server_cases(draw):
    return {
        "url": draw(st.sampled_from(URLS)),
        "key": draw(st.sampled_from([SERVER_KEY, FOREIGN_KEY])),
        "padding": draw(st.sampled_from([b"", b"\n", b" \r\n", b"\t"])),
        "pass_value": draw(optional(st.sampled_from(["1", "1024", "1048576"]) | st.integers(1, 3000).map(str))),
        "interval": draw(optional(st.integers(1, 600))),
        "path": draw(st.sampled_from([None, "metrics", "some/where/metrics"])),
        "shares": draw(st.integers(1, 6)),
        "size": draw(zk.weighted((3, st.integers(1, 12000)), (1, st.integers(1, 10**7)))),
        "wait": draw(st.floats(0, 2000)),
        "fault": draw(
            zk.weighted(
                (3, st.none()),
                (
                    1,
                    st.tuples(st.just("pass-value"), st.sampled_from(NOT_NUMBERS + NEGATIVE + ["0"])),
                ),
                (
                    1,
                    st.sampled_from(
                        [
                            ("ristretto-issuer-root-url", MISSING),
                            ("ristretto-signing-key-path", MISSING),
                            ("ristretto-signing-key-path", "/nonexistent/key"),
                            ("prometheus-metrics-interval", "x"),
                        ]
                    ),
                ),
                (
                    1,
                    st.tuples(
                        st.just("key"),
                        st.sampled_from([b"", b"x", b"AAAA", SERVER_KEY[:-4], SERVER_KEY * 2, b"\x80" * 44]),
                    ),
                ),
            )
        ),
    }


@CHECK.test(server_cases, quick=900)
def servers(case, ctx):
    from _zkapauthorizer import NAME
    from _zkapauthorizer._plugin import ZKAPAuthorizer
    from _zkapauthorizer.storage_common import MorePassesRequired
    from allmydata.storage.server import StorageServer
    from allmydata.util import jsonbytes

    directory = ctx.tempdir()
    reactor = node.make_reactor()
    plugin = ZKAPAuthorizer(
        name=NAME, reactor=reactor, get_tahoe_client=lambda *a: 1 / 0
    )
    key_path = os.path.join(directory, "signing.key")
    fault = case["fault"]
    with open(key_path, "wb") as f:
        if fault is not None and fault[0] == "key":
            f.write(fault[1])
        else:
            f.write(case["padding"] + case["key"] + case["padding"])
    configuration = {
        "ristretto-issuer-root-url": case["url"],
        "ristretto-signing-key-path": key_path,
    }
    metrics = None
    if case["pass_value"] is not None:
        configuration["pass-value"] = case["pass_value"]
    if case["interval"] is not None:
        configuration["prometheus-metrics-interval"] = str(case["interval"])
    if case["path"] is not None:
        configuration["prometheus-metrics-path"] = os.path.join(directory, case["path"])
        if case["interval"] is not None:
            metrics = configuration["prometheus-metrics-path"]
    if fault is not None:
        option, text = fault
        if option == "prometheus-metrics-interval" and case["path"] is None:
            return
        if text == MISSING:
            configuration.pop(option, None)
        elif option != "key":
            configuration[option] = text
    anonymous = StorageServer(os.path.join(directory, "storage"), b"x" * 20, clock=reactor)
    ctx.cleanup(anonymous.stopService)
    got = None
    try:
        got = zk.sync(plugin.get_storage_server(configuration, lambda: anonymous))
    except Exception as e:
        if isinstance(e, (Violation, HarnessError)) or fault is None:
            raise
    if fault is not None:
        check(got is None, "a server starts with {} = {!r}", *fault)
        ctx.event("server refused to start")
        ctx.nontrivial()
        return
    check_equal(
        # As it is published.
        json.loads(jsonbytes.dumps(got.announcement)),
        {
            "ristretto-issuer-root-url": case["url"],
            "ristretto-public-keys": [public_key(case["key"]).decode("ascii")],
        },
        "announcement",
    )
    # Prices are what was configured.
    pass_value = int(case["pass_value"] or 1024 * 1024)
    price = case["shares"] * ceil_div(case["size"], pass_value)
    si = storage_index(1)
    msg = message("alloc", si)

    def ask(passes):
        from ..storage import make_canary

        return got.storage_server.doRemoteCall(
            "allocate_buckets",
            [
                passes,
                si,
                renew_secret(0),
                cancel_secret(0),
                set(range(case["shares"])),
                case["size"],
                make_canary(),
            ],
            {},
        )

    def refused_for(n, passes):
        try:
            ask(passes)
        except MorePassesRequired as e:
            check_equal(e.required_count, price, "price of the upload")
            check_equal(e.valid_count, n, "valid passes")
        else:
            raise Violation(f"{n} valid passes were enough for an upload of price {price}")

    refused_for(0, [])
    if price <= 40:
        other = FOREIGN_KEY if case["key"] == SERVER_KEY else SERVER_KEY

        def passes(key, count):
            return [b" ".join(pass_parts(i, msg, key)) for i in range(count)]

        refused_for(0, passes(other, price))
        refused_for(price - 1, passes(case["key"], price - 1))
        ask(passes(case["key"], price))
        ctx.event("upload accepted")
    ctx.nontrivial()
    # Metrics are written where and when it is configured.
    before = set(files(directory))
    if metrics is not None:
        check(os.path.exists(metrics), "no metrics are written at the start")
        elapsed = 0.0
        for _ in range(3):
            os.unlink(metrics)
            rest = case["interval"] - elapsed
            reactor.advance(rest - 0.25)
            check(not os.path.exists(metrics), "metrics are written before the interval is over")
            reactor.advance(0.25)
            check(os.path.exists(metrics), "no metrics {} seconds later", case["interval"])
        with open(metrics) as f:
            text = f.read()
        spent = f"zkapauthorizer_server_spending_successes_sum {float(price if price <= 40 else 0)}"
        check(spent in text, "{!r} is not among the metrics {}", spent, text)
        ctx.event("metrics")
    else:
        reactor.advance(case["wait"])
        check_equal(
            {p for p in files(directory) if "metrics" in p}, set(), "files of metrics written"
        )


def files(directory):
    for base, _, names in os.walk(directory):
        for n in names:
            yield os.path.join(base, n)
