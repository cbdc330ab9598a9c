"""C23: the Tahoe client wrapper is atomic, faithful and keeps secrets out of errors."""

import io
import json
import os
import traceback
from urllib.parse import unquote

from hypothesis import strategies as st

from .. import node, tahoeweb, zk
from ..core import Check, Violation, check, check_equal, short

CHECK = Check(
    "C23",
    rule=(
        "Generated sequences of uploads, downloads, links, unlinks and listings through the"
        " real HTTP client against a model of a Tahoe-LAFS node which refuses connections,"
        " runs out of servers, loses requests and responses, cuts responses short or answers"
        " with errors and nonsense; and recoveries from replica directories with any other"
        " entries.  Non-trivial: something was downloaded, linked or listed and some request"
        " failed."
    ),
    assumptions=[
        "The node's web API behaves as in Tahoe-LAFS 1.18, as far as it is used.",
        "Error bodies written by the node do not themselves contain capabilities.",
    ],
)

RETRIED = ("refused", "moved", "not-enough")


class World:
    def __init__(self, ctx):
        from _zkapauthorizer.tahoe import Tahoe

        self.ctx = ctx
        self.top = ctx.tempdir()
        self.nodedir = os.path.join(self.top, "a", "b", "c", "node")
        os.makedirs(self.nodedir)
        with open(os.path.join(self.nodedir, "node.url"), "w") as f:
            f.write("http://127.0.0.1:3456/\n")
        self.config = node.make_config(self.nodedir)
        self.grid = tahoeweb.Grid()
        self.client = Tahoe(tahoeweb.make_client(self.grid), self.config)
        self.grid.move = self.move

    def move(self, port):
        self.grid.url = f"http://127.0.0.1:{port}/"
        self.grid.strays = 0
        with open(os.path.join(self.nodedir, "node.url"), "w") as f:
            f.write(self.grid.url + "\n")
        self.ctx.event("the node moved")

    def run(self, plans, coro):
        """
        :return: ("ok", result) or ("error", exception)
        """
        from twisted.internet.defer import ensureDeferred

        self.grid.plans = [list(p) for p in plans]
        self.grid.used = []
        self.grid.last_code = None
        results = []
        d = ensureDeferred(coro)
        d.addBoth(results.append)
        if self.grid.problem:
            raise self.grid.problem
        check(results, "an operation on the grid does not finish")
        r = results[0]
        self.faults = [p for p in self.grid.used if p not in ("ok", "pieces")]
        last = self.grid.used[-1] if self.grid.used else None
        self.last = last
        if hasattr(r, "check"):
            e = r.value
            for p in plans:
                check(not isinstance(e, AssertionError), "assertion failed: {}", e)
            self.no_secrets(r)
            return "error", e
        return "ok", r

    def no_secrets(self, failure):
        e = failure.value
        shown = ""
        for f in (
            lambda: str(e),
            lambda: repr(e),
            lambda: repr(getattr(e, "args", None)),
            failure.getErrorMessage,
            failure.getTraceback,
            lambda: "".join(
                traceback.format_exception(type(e), e, failure.getTracebackObject())
            ),
        ):
            try:
                shown += f() + "\n"
            except SystemError:
                # PyPy 7.3 cannot format some errors of its json module.
                self.ctx.event("error which Python cannot show")
        shown += unquote(shown)
        for s in self.grid.secrets():
            check(s not in shown, "a capability is in an error: {}", short(shown))

    def expected_error(self, plan, e, outcome_code):
        """
        The documented error is raised for a status.
        """
        from _zkapauthorizer.tahoe import TahoeAPIError

        if plan[0] == "status":
            check(isinstance(e, TahoeAPIError), "status {} raises {}", plan[1], short(repr(e)))
            check_equal((e.status, e.body), (plan[1], plan[2].decode("utf-8")), "status and body")


def status_is_success(op, code):
    return code in {"upload": (200, 201)}.get(op, (200,))


def snapshot_of(path):
    out = {}
    for d, _, files in os.walk(path):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as g:
                out[os.path.relpath(p, path)] = g.read()
    return out


def provider(data, opened):
    def get():
        opened.append(1)
        return io.BytesIO(data)

    return get




NAMES = st.one_of(
    st.sampled_from(
        [
            "snapshot",
            "event-stream-1",
            "event-stream-12",
            "a/b",
            "/",
            "..",
            ".",
            "a b",
            "%2F",
            "%",
            "?t=json",
            "#x",
            "é",
            "e\u0301",
            "\U0001f600",
            ":",
            "URI:DIR2:x",
            "\n",
            "+",
            ";",
            "&t=uri",
        ]
    ),
    st.text(st.characters(blacklist_categories=["Cs"], blacklist_characters="\0"), min_size=1, max_size=6),
)
CONTENT = st.one_of(
    st.binary(max_size=60),
    st.tuples(st.integers(0, 20), st.sampled_from([0, 54, 55, 56, 1000, 70000])).map(
        lambda x: bytes(zk.stretch("content", x[0], x[1]))
    ),
)
n = st.integers(0, 10**4)
BODY = st.one_of(
    st.text(max_size=10).map(lambda t: t.encode("utf-8", "replace")),
    st.sampled_from([b"", b"null", b"[]", b"{}", b'["dirnode", {}]', b'["filenode", {"size": 1}]',
                     b"URI:", b"URI:CHK", b"URI:CHK:a:b:c:d:e", b"URI:FOO:x", b"URI:DIR2-Verifier:aa:aa",
                     b'["dirnode", {"children": {"x": ["dirnode", {}]}}]']),
)
ERRORS = st.sampled_from([400, 401, 403, 404, 409, 410, 413, 416, 500, 501, 502, 503])
PLAN = zk.weighted(
    (8, st.just(["ok"])),
    (2, zk.op("pieces", n, st.booleans())),
    (2, zk.op("refused")),
    (1, zk.op("moved", st.integers(10000, 10005))),
    (2, zk.op("not-enough", st.integers(0, 1))),
    (1, zk.op("lost-before")),
    (1, zk.op("lost-after")),
    (3, zk.op("cut", n, st.booleans())),
    (2, zk.op("status", ERRORS, st.text(max_size=20).map(lambda t: t.encode("utf-8", "replace")))),
    (1, zk.op("status", ERRORS, st.sampled_from([b"", b"<html>NoServersError</html>", b"Files have no children"]))),
    (2, zk.op("instead", BODY)),
)
PLANS = st.lists(PLAN, max_size=4)
KINDS = st.sampled_from(["CHK", "LIT", "SSK", "DIR2", "DIR2-MDMF"])
OPS = zk.weighted(
    (3, zk.op("upload", CONTENT, PLANS)),
    (4, zk.op("download", n, st.integers(0, 2), PLANS)),
    (2, zk.op("mkdir", PLANS)),
    (5, zk.op("link", n, NAMES, n, st.booleans(), PLANS)),
    (3, zk.op("unlink", n, NAMES | n, st.booleans(), PLANS)),
    (4, zk.op("list", n, st.booleans(), PLANS)),
    (2, zk.op("make", KINDS, CONTENT)),
    (1, zk.op("strange", n, NAMES, st.sampled_from(["DIR2-CHK", "DIR2-LIT", "unknown"]))),
)


def programs():
    return st.fixed_dictionaries({"ops": zk.program(OPS, 1, 12)})


class Driver(World):
    def __init__(self, case, ctx):
        super().__init__(ctx)
        self.files = []
        self.dirs = []
        self.worked = set()
        self.any_fault = False
        self.dest = {}
        self.new(self.grid.add("DIR2"))

    def new(self, cap):
        n = self.grid.objects[tahoeweb.text(cap)]
        (self.dirs if n.kind == "dirnode" else self.files).append(cap)

    def model(self):
        return {
            c: dict((k, id(v.content)) for k, v in o.content.items()) if o.kind == "dirnode" else o.content
            for c, o in self.grid.objects.items()
        }

    def must_succeed(self, op):
        """
        Nothing but faults which are retried happened.
        """
        return all(p in RETRIED for p in self.faults)

    def judge(self, name, plans, r):
        from _zkapauthorizer.tahoe import TahoeAPIError

        self.any_fault = self.any_fault or bool(self.faults)
        used = plans[: len(self.grid.used)]
        last = used[-1] if len(used) == len(self.grid.used) and used else ["ok"]
        if r[0] == "error":
            retried = name != "download"
            check(
                any(p not in RETRIED for p in self.faults) or (self.faults and not retried)
                or (self.grid.last_code or 200) >= 400,
                "{} fails although it could be done: {!r}",
                name,
                r[1],
            )
            if last[0] == "status" and not (
                last[2].startswith(b"Files have no children") and name == "unlink"
            ):
                check(isinstance(r[1], TahoeAPIError), "status {} leads to {!r}", last[1], r[1])
                check_equal(
                    (r[1].status, r[1].body), (last[1], last[2].decode("utf-8")), "status and body"
                )
            if last[0] in RETRIED and retried:
                raise Violation(f"{name} is given up after a fault which is to be retried")
        else:
            check(
                last[0] in ("ok", "pieces", "instead"),
                "{} succeeds although the last answer was {!r}",
                name,
                last,
            )
            self.worked.add(name)
        return last

    def do(self, op):
        getattr(self, "op_" + op[0])(*op[1:])

    def op_make(self, kind, data):
        self.new(self.grid.add(kind, data))

    def op_upload(self, data, plans):
        opened = []
        r = self.run(plans, self.client.upload(provider(data, opened)))
        last = self.judge("upload", plans, r)
        if r[0] == "ok":
            if last[0] == "instead":
                raise Violation(f"an upload answered with {last[1]!r} gives {r[1]!r}")
            check_equal(self.grid.objects[tahoeweb.text(r[1])].content, data, "content uploaded")
            self.new(r[1])

    def op_mkdir(self, plans):
        r = self.run(plans, self.client.make_directory())
        last = self.judge("mkdir", plans, r)
        if r[0] == "ok":
            if last[0] == "instead":
                raise Violation(f"mkdir answered with {last[1]!r} gives {r[1]!r}")
            check_equal(self.grid.objects[tahoeweb.text(r[1])].content, {}, "a new directory")
            check(tahoeweb.text(r[1]) == self.grid.objects[tahoeweb.text(r[1])].rw, "not writeable")
            self.new(r[1])

    def op_download(self, which, where, plans):
        from twisted.python.filepath import FilePath

        if not self.files:
            return
        cap = self.files[which % len(self.files)]
        cap = getattr(cap, "reader", cap)
        path = os.path.join(self.top, f"destination-{where}")
        content = self.grid.objects[tahoeweb.text(cap)].content
        plans = [p for p in plans if p[0] != "instead"]
        r = self.run(plans, self.client.download(FilePath(path), cap))
        self.judge("download", plans, r)
        if r[0] == "ok":
            self.dest[path] = content
        for w in range(3):
            path = os.path.join(self.top, f"destination-{w}")
            if path in self.dest:
                with open(path, "rb") as f:
                    got = f.read()
                check(
                    got == self.dest[path],
                    "a destination has {} bytes {} rather than {} bytes {} after {}",
                    len(got), short(got), len(self.dest[path]), short(self.dest[path]), r,
                )
            else:
                check(not os.path.exists(path), "a file at the destination after {}", r)

    def op_link(self, which, name, child, readonly, plans):
        from _zkapauthorizer.tahoe import NotWriteableError

        everything = self.files + self.dirs
        d = self.dirs[which % len(self.dirs)]
        c = everything[child % len(everything)]
        self.ctx.event("link " + ("read-only" if readonly else "read-write"))
        rw = self.grid.objects[tahoeweb.text(d)]
        before = dict(rw.content)
        r = self.run(plans, self.client.link(d.reader if readonly else d, name, c))
        last = self.judge("link", plans, r)
        if readonly:
            if last[0] in ("ok", "pieces"):
                check(
                    r[0] == "error" and isinstance(r[1], NotWriteableError),
                    "linking into a read-only directory: {!r}",
                    r[1],
                )
            check_equal(rw.content, before, "a read-only directory")
        elif r[0] == "ok" and last[0] != "instead":
            nfc = tahoeweb.unicodedata.normalize("NFC", name)
            check(nfc in rw.content, "{!r} was not linked", name)
            got = rw.content[nfc]
            check_equal(got.rw or got.ro, tahoeweb.text(c), "the object linked")
            check_equal({**before, nfc: got}, rw.content, "the other links")

    def op_unlink(self, which, name, readonly, plans):
        from _zkapauthorizer.tahoe import NotADirectoryError, NotWriteableError, TahoeAPIError

        d = self.dirs[which % len(self.dirs)]
        target = self.grid.objects[tahoeweb.text(d)]
        before = dict(target.content)
        if isinstance(name, int):
            if not before:
                return
            name = sorted(before)[name % len(before)]
        nfc = tahoeweb.unicodedata.normalize("NFC", name)
        if which % 7 == 3 and self.files:
            d = self.files[which % len(self.files)]
            r = self.run(plans, self.client.unlink(d, name))
            last = self.judge("unlink", plans, r)
            if last[0] in ("ok", "pieces"):
                check(
                    r[0] == "error" and isinstance(r[1], NotADirectoryError),
                    "unlinking from a file: {!r}",
                    r[1],
                )
            return
        r = self.run(plans, self.client.unlink(d.reader if readonly else d, name))
        last = self.judge("unlink", plans, r)
        if last[0] in ("ok", "pieces"):
            if "lost-after" in self.faults or "cut" in self.faults:
                return
            if nfc not in before:
                check(
                    r[0] == "error" and isinstance(r[1], TahoeAPIError) and r[1].status == 404,
                    "unlinking what does not exist: {!r}",
                    r[1],
                )
            elif readonly:
                check(
                    r[0] == "error" and isinstance(r[1], NotWriteableError),
                    "unlinking from a read-only directory: {!r}",
                    r[1],
                )
            else:
                del before[nfc]
                check_equal(r[0], "ok", "unlinking")
                check_equal(target.content, before, "links after unlinking one")
        if readonly:
            check_equal(target.content, before, "a read-only directory")

    def op_strange(self, which, name, kind):
        d = self.dirs[which % len(self.dirs)]
        if kind == "unknown":
            child = tahoeweb.Node("unknown", None, "ro.lafs://from-the-future", b"")
        else:
            child = self.grid.objects[tahoeweb.text(self.grid.add(kind, b"x"))]
        name = tahoeweb.unicodedata.normalize("NFC", name)
        self.grid.objects[tahoeweb.text(d)].content[name] = child

    def op_list(self, which, writeable, plans):
        if which % 9 == 4 and self.files:
            cap = self.files[which % len(self.files)]
            cap = getattr(cap, "reader", cap)
            r = self.run(plans, self.client.list_directory(cap))
            check(r[0] == "error" and isinstance(r[1], ValueError), "listing a file: {!r}", r[1])
            return
        d = self.dirs[which % len(self.dirs)]
        content = self.grid.objects[tahoeweb.text(d)].content
        strange = any(
            c.kind == "unknown" or c.ro.startswith(("URI:DIR2-CHK", "URI:DIR2-LIT"))
            for c in content.values()
        )
        r = self.run(plans, self.client.list_directory(d if writeable else d.reader))
        if strange and r[0] == "error":
            # Refused, not misrepresented.
            self.ctx.event("strange entry")
            return
        last = self.judge("list", plans, r)
        if r[0] == "ok":
            if last[0] == "instead":
                return
            check_listing(r[1], content)


def check_listing(got, content):
    from _zkapauthorizer.tahoe import DirectoryNode, FileNode

    check_equal(sorted(got), sorted(content), "names listed")
    for name, child in content.items():
        e = got[name]
        check_equal(
            isinstance(e, FileNode), child.kind == "filenode", f"{name!r} listed as a file"
        )
        check_equal(
            isinstance(e, DirectoryNode), child.kind == "dirnode", f"{name!r} listed as a directory"
        )
        check_equal(tahoeweb.text(e.ro_uri), child.ro, f"capability of {name!r}")
        if child.kind == "filenode":
            check_equal(e.size, len(child.content), f"size of {name!r}")


@CHECK.test(programs, quick=2000)
def operations(case, ctx):
    w = Driver(case, ctx)
    for op in case["ops"]:
        ctx.event(op[0])
        w.do(op)
    if w.any_fault and w.worked & {"download", "link", "list"}:
        ctx.nontrivial()


# -- recovery


STREAM_NAMES = st.one_of(
    st.integers(0, 30).map("event-stream-{}".format),
    st.sampled_from(
        [
            "event-stream-",
            "event-stream-x",
            "event-stream-1/../../victim",
            "event-stream-1/../../../victim",
            "event-stream-/../victim",
            "event-stream-2/victim",
            "event-stream-x/../snapshot",
            "event-stream-x/../event-stream-1",
            "snapshot-2",
            "readme",
            "../victim",
            "event-stream-1 ",
            "Event-stream-1",
        ]
    ),
    NAMES,
)


def recoveries():
    return st.fixed_dictionaries(
        {
            "snapshot": st.none() | CONTENT,
            "entries": st.lists(st.tuples(STREAM_NAMES, KINDS, CONTENT), max_size=6),
            "plans": st.lists(PLAN.filter(lambda p: p[0] != "instead"), max_size=6),
            "present": st.lists(
                st.sampled_from(["snapshot", "event-stream-1", "../victim", "victim"]), max_size=3
            ),
        }
    )


@CHECK.test(recoveries, quick=1200)
def recovery(case, ctx):
    from re import fullmatch

    from _zkapauthorizer.recover import RecoveryStages, StatefulRecoverer, get_tahoe_lafs_downloader

    w = World(ctx)
    cap = w.grid.add("DIR2")
    directory = w.grid.objects[tahoeweb.text(cap)].content
    for name, kind, data in case["entries"]:
        child = w.grid.add(kind, data)
        name = tahoeweb.unicodedata.normalize("NFC", name)
        directory[name] = w.grid.objects[tahoeweb.text(child)]
    if case["snapshot"] is not None:
        directory["snapshot"] = w.grid.objects[tahoeweb.text(w.grid.upload(case["snapshot"]))]
    private = os.path.join(w.nodedir, "private")
    for p in case["present"]:
        with open(os.path.join(private, p), "wb") as f:
            f.write(b"here before")
    before = snapshot_of(w.top)
    states = []
    found = []
    download = get_tahoe_lafs_downloader(w.client)(cap.reader)
    recoverer = StatefulRecoverer(listeners=[states.append])

    async def downloader(set_state):
        replica = await download(set_state)
        found.append(replica)
        raise Exception("enough")

    w.run(case["plans"], recoverer.recover(downloader, None))
    check_equal(recoverer.state().stage, RecoveryStages.download_failed, "stage")
    text = json.dumps([s.marshal() for s in states])
    text += unquote(text)
    for s in w.grid.secrets():
        check(s not in text, "a capability is in a state of the recovery: {}", short(text))
    after = snapshot_of(w.top)
    inside = os.path.relpath(private, w.top) + os.sep
    for name in set(before) | set(after):
        if name == os.path.relpath(os.path.join(w.nodedir, "node.url"), w.top):
            # The model of the node writes that.
            continue
        if before.get(name) != after.get(name):
            check(
                name.startswith(inside) and os.sep not in name[len(inside) :],
                "the recovery changed {}",
                name,
            )
            check(
                "snapshot" in name or "event-stream-" in name, "the recovery changed {}", name
            )
    if not found:
        check(
            any(p not in ("ok", "pieces") for p in w.grid.used)
            or "snapshot" not in directory
            or directory["snapshot"].kind != "filenode",
            "the replica could not be downloaded: {}",
            recoverer.state(),
        )
        return
    (snapshot, streams) = found[0]

    def read(provider):
        with provider() as f:
            return f.read()

    check_equal(read(snapshot), directory["snapshot"].content, "snapshot downloaded")
    got = sorted(read(s) for s in streams)
    wanted = sorted(
        c.content
        for name, c in directory.items()
        if fullmatch("event-stream-[0-9]+", name) and c.kind == "filenode"
    )
    check_equal(got, wanted, "event streams downloaded")
    if len(wanted) > 1 and len(directory) > len(wanted) + 1:
        ctx.nontrivial()
    if w.faults:
        ctx.event("recovery after faults")
