"""C24: replication is configured once, durably and privately."""

import os
import sqlite3
from io import BytesIO

from hypothesis import strategies as st
from twisted.internet.defer import Deferred
from twisted.python.filepath import FilePath
from zope.interface import implementer

from .. import node, zk
from ..core import Check, Violation, check, check_equal
from ..replica import GridError, difference

CHECK = Check(
    "C24",
    rule=(
        "Generated histories of HTTP requests to set up replication, of the grid granting,"
        " failing or losing the answer to directory creations, of failures to store the"
        " capability, of clean restarts and of crashes, with use of the wallet in between."
        " Non-trivial: at least two requests, at least one of them made while another was"
        " in progress or after a success or a failure."
    ),
    assumptions=[
        "The grid only fails or delays directory creation here (C11 has the rest).",
        "The lock file of a crashed process is recognised as stale by the operating"
        " system's process table.",
    ],
)

OPS = zk.weighted(
    (8, zk.op("post")),
    (6, zk.op("grid", st.sampled_from(["go", "go", "go", "fail", "fail-after"]))),
    (2, zk.op("store-fails", st.sampled_from(["before", "after"]))),
    (2, zk.op("restart")),
    (2, zk.op("crash")),
    (3, zk.op("voucher", st.integers(0, 3))),
    (1, zk.op("get")),
)


class StoreFailure(Exception):
    pass


class FaultyPath(FilePath):
    world = None

    def setContent(self, content, ext=b".new"):
        fault = self.world.store_fault
        if fault is None:
            return super().setContent(content, ext)
        self.world.store_fault = None
        self.world.faults_hit += 1
        if fault == "after":
            # Some of it got as far as the temporary file.
            with open(self.temporarySibling(ext).asTextMode().path, "wb") as f:
                f.write(content[: len(content) // 2])
        raise StoreFailure("disk trouble")


class World:
    def __init__(self, ctx):
        from _zkapauthorizer.tahoe import MemoryGrid

        self.ctx = ctx
        self.dir = ctx.tempdir()
        self.grid = MemoryGrid()
        self.client = self.grid.client(FilePath(os.path.join(self.dir, "scratch")))
        self.recover_client = self.grid.client(FilePath(os.path.join(self.dir, "other")))
        self.nodedir = os.path.join(self.dir, "node")
        os.makedirs(self.nodedir)
        self.gates = []
        self.made = []  # capabilities of the directories really made
        self.store_fault = None
        self.faults_hit = 0
        self.generation = 0
        self.pending = []  # exchanges without answer
        self.configured = None  # the read-only capability, once it is known
        self.serial = 0
        self.used = set()
        self.start()

    # -- the process

    def gated(self):
        from _zkapauthorizer.tahoe import ITahoeClient

        world = self
        client = self.client
        generation = self.generation

        @implementer(ITahoeClient)
        class Client:
            def get_config(self):
                return client.get_config()

            def get_private_path(self, name):
                p = FaultyPath(os.path.join(world.nodedir, "private", name))
                p.world = world
                return p

            async def make_directory(self):
                if generation == world.generation:
                    check(not world.gates, "two directories are being made at once")
                    check(
                        world.configured is None,
                        "a directory is made although replication is set up",
                    )
                d = Deferred()
                world.gates.append(d)
                mode = await d
                if mode == "fail":
                    raise GridError("cannot make a directory")
                cap = await client.make_directory()
                world.made.append(cap)
                if mode == "fail-after":
                    raise GridError("directory made but the answer was lost")
                return cap

            def __getattr__(self, name):
                return getattr(client, name)

            async def download(self, *a):
                return await client.download(*a)

            async def upload(self, *a):
                return await client.upload(*a)

            async def link(self, *a):
                return await client.link(*a)

            async def unlink(self, *a):
                return await client.unlink(*a)

            async def list_directory(self, *a):
                return await client.list_directory(*a)

        return Client()

    def start(self):
        from _zkapauthorizer import NAME
        from _zkapauthorizer._plugin import ZKAPAuthorizer

        self.generation += 1
        config = node.make_config(self.nodedir)
        self.reactor = node.make_reactor()
        client = self.gated()
        self.plugin = ZKAPAuthorizer(
            name=NAME, reactor=self.reactor, get_tahoe_client=lambda r, c: client
        )
        self.root = self.plugin.get_client_resource(config)
        self.store = self.root.store
        self.reactor.start()
        self.site = node.make_site(self.root, self.reactor)
        # What was known to be set up must still be, what was not may not be.
        check_equal(self.stored() is not None, self.configured is not None, "set up on start")

    def end_process(self, clean):
        if clean:
            self.reactor.shutdown()
        self.store._connection.close()
        for x in self.pending:
            x.close()
        self.pending = []
        self.gates = []
        self.store_fault = None
        self.plugin = self.root = self.store = None
        # The lock of a process that is gone.
        private = os.path.join(self.nodedir, "private")
        for name in os.listdir(private):
            p = os.path.join(private, name)
            if os.path.islink(p) and os.readlink(p) == str(os.getpid()):
                os.unlink(p)
                os.symlink("1073741823", p)

    # -- observation

    def stored(self):
        from _zkapauthorizer.config import REPLICA_RWCAP_BASENAME

        p = os.path.join(self.nodedir, "private", REPLICA_RWCAP_BASENAME)
        if not os.path.exists(p):
            return None
        with open(p) as f:
            return f.read()

    def secrets(self):
        from tahoe_capabilities import danger_real_capability_string

        out = []
        for cap in self.made:
            s = danger_real_capability_string(cap)
            out.append(s)
            # The part that makes it a secret (too regular in this grid to look
            # for it without its delimiters).
            out.append(":" + s.split(":")[2] + ":")
        return out

    def answered(self):
        out = []
        for x in list(self.pending):
            r = x.response()
            if r is not None:
                self.pending.remove(x)
                out.append(r)
                text = r.body.decode("latin-1") + repr(r.headers)
                for s in self.secrets():
                    check(s not in text, "the answer {} contains the write capability", r)
                x.close()
        return out

    def check_stored(self):
        from tahoe_capabilities import danger_real_capability_string

        got = self.stored()
        if self.configured is None:
            check(got is None, "a write capability is stored although no setup succeeded")
        else:
            check_equal(got, danger_real_capability_string(self.configured), "stored capability")
        # And nowhere else but in the node's private directory.
        for base, dirs, files in os.walk(self.nodedir):
            if os.path.basename(base) == "private" or base.startswith(
                os.path.join(self.nodedir, "private")
            ):
                continue
            for name in files:
                with open(os.path.join(base, name), "rb") as f:
                    data = f.read().decode("latin-1")
                for s in self.secrets():
                    check(s not in data, "{} contains the write capability", name)

    # -- operations

    def conflict(self, r):
        from tahoe_capabilities import danger_real_capability_string

        check_equal(r.status, 409, "status for a node which is set up already")
        check_equal(r.headers.get("content-type"), ["application/json"], "content type")
        check_equal(
            r.json(),
            {"recovery-capability": danger_real_capability_string(self.configured.reader)},
            "answer for a node which is set up already",
        )

    def op_post(self):
        in_progress = bool(self.pending)
        if in_progress:
            self.used.add("concurrent")
        if self.configured is not None:
            self.used.add("again")
        gates = len(self.gates)
        x = node.exchange(self.site, "POST", "/replicate")
        if x.response() is not None:
            self.pending.append(x)
            (r,) = self.answered()
            if self.configured is not None:
                self.conflict(r)
            else:
                check(in_progress, "setup refused with {} for no reason", r)
                check(r.status >= 400, "answer {} while another setup is in progress", r)
        else:
            check(
                self.configured is None and not in_progress,
                "a setup was begun although one is {}",
                "in progress" if in_progress else "complete",
            )
            check_equal(len(self.gates), gates + 1, "directories being made")
            self.pending.append(x)

    def op_grid(self, mode):
        if not self.gates:
            return
        gate = self.gates.pop(0)
        n = len(self.made)
        hits = self.faults_hit
        gate.callback(mode)
        answers = self.answered()
        check_equal(len(answers), 1, "answers once the directory creation is over")
        r = answers[0]
        if mode != "go" or self.faults_hit > hits:
            check(r.status >= 400, "failed setup was answered {}", r)
            self.used.add("failed")
        else:
            from tahoe_capabilities import danger_real_capability_string

            check_equal(len(self.made), n + 1, "directories made")
            self.configured = self.made[-1]
            check_equal(r.status, 201, "status for a successful setup")
            check_equal(r.headers.get("content-type"), ["application/json"], "content type")
            check_equal(
                r.json(),
                {"recovery-capability": danger_real_capability_string(self.configured.reader)},
                "answer to a successful setup",
            )
            self.used.add("success")
        self.check_stored()

    def op_store_fails(self, mode):
        if self.configured is None:
            self.store_fault = mode

    def op_restart(self):
        if self.gates:
            return
        self.end_process(True)
        self.start()
        self.check_stored()

    def op_crash(self):
        if self.gates:
            self.used.add("crash in progress")
        self.end_process(False)
        self.start()
        self.check_stored()

    def op_get(self):
        r = node.request(self.site, "GET", "/replicate")
        check(r.status >= 400, "GET answered {}", r)

    def op_voucher(self, v):
        from _zkapauthorizer.model import RandomToken

        def tokens():
            self.serial += 1
            return [RandomToken(zk.random_token_bytes(self.serial))]

        self.store.add(zk.voucher_number(v), 10, 0, tokens)

    def check_replicates(self):
        """
        The setting up is only worth something if there is a replica then.
        """
        from _zkapauthorizer.recover import get_tahoe_lafs_downloader, recover

        self.serial += 1
        self.op_voucher(100 + self.serial)
        db = os.path.join(self.nodedir, "private", "privatestorageio-zkapauthz-v1.sqlite3")
        want = node.dump_path(db)
        download = get_tahoe_lafs_downloader(self.recover_client)(self.configured.reader)
        snapshot, streams = zk.sync(download(lambda state: None))
        conn = zk.connect(":memory:")
        try:
            conn.execute("BEGIN")
            recover(snapshot, streams, conn.cursor())
            from ..replica import dump

            got = dump(conn)
        finally:
            conn.close()
        if got != want:
            raise Violation(f"the replica just set up differs: {difference(got, want)}")

    def check_not_replicating(self):
        db = os.path.join(self.nodedir, "private", "privatestorageio-zkapauthz-v1.sqlite3")
        check_equal(
            zk.raw_rows(db, "SELECT COUNT(*) FROM [event-stream]")[0][0],
            0,
            "changes recorded for a replica although none is set up",
        )


@CHECK.test(st.fixed_dictionaries({"ops": zk.program(OPS, 1, 25)}), quick=800)
def setup_replication(case, ctx):
    w = World(ctx)
    ctx.cleanup(lambda: w.store is not None and w.store._connection.close())
    posts = 0
    for name, *args in case["ops"]:
        posts += name == "post"
        getattr(w, "op_" + name.replace("-", "_"))(*args)
        if w.configured is None:
            w.check_not_replicating()
    # Whatever went wrong, the node can be set up and then is for good.
    w.store_fault = None
    while w.gates:
        w.op_grid("go")
    if w.configured is None:
        w.op_post()
        w.op_grid("go")
    check(w.configured is not None, "the node cannot be set up")
    w.check_replicates()
    w.op_post()
    w.op_restart()
    w.op_post()
    w.check_replicates()
    w.check_stored()
    for u in w.used:
        ctx.event(u)
    if posts > 1 and w.used & {"concurrent", "again", "failed", "crash in progress"}:
        ctx.nontrivial()
