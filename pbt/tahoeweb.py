"""
The part of the web API of a Tahoe-LAFS node which the plugin uses, over an
in-memory grid, with faults; and an HTTP client connected to it by a real HTTP
client and server which exchange bytes in memory.
"""

import json
import unicodedata
from urllib.parse import unquote_to_bytes

from . import zk
from .core import Violation

HTML = (
    "<html>\n  <head><title>{code} - {title}</title></head>\n  <body>\n"
    "    <h1>{title}</h1>\n    <p>{text}</p>\n  </body>\n</html>\n"
)


def secret(i, n, what="secret"):
    return bytes(zk.stretch(what, i, n))


def make_cap(kind, i, data=b""):
    """
    :return: A capability object.
    """
    import tahoe_capabilities as t

    def chk():
        return t.CHKRead.derive(secret(i, 16), secret(i, 32, "ueb"), 1 + i % 3, 3 + i % 7, len(data))

    def ssk():
        return t.SSKWrite.derive(secret(i, 16), secret(i, 32, "fingerprint"))

    def mdmf():
        return t.MDMFWrite.derive(secret(i, 16), secret(i, 32, "fingerprint"))

    if kind == "CHK":
        return chk()
    if kind == "LIT":
        return t.LiteralRead(data)
    if kind == "SSK":
        return ssk()
    if kind == "DIR2":
        return t.SSKDirectoryWrite(ssk())
    if kind == "DIR2-MDMF":
        return t.MDMFDirectoryWrite(mdmf())
    if kind == "DIR2-CHK":
        return t.CHKDirectoryRead(chk())
    if kind == "DIR2-LIT":
        return t.LiteralDirectoryRead(t.LiteralRead(data))
    raise ValueError(kind)


def text(cap):
    from tahoe_capabilities import danger_real_capability_string

    return danger_real_capability_string(cap)


class Node:
    """
    :ivar caps: The capability strings which give access to this.
    """

    def __init__(self, kind, rw, ro, content):
        self.kind = kind
        self.rw = rw
        self.ro = ro
        self.content = content

    def json(self):
        size = {"size": len(self.content)} if self.kind == "filenode" else {}
        d = dict(
            size,
            mutable=self.rw is not None,
            metadata={"tahoe": {"linkcrtime": 1.5, "linkmotime": 2}},
        )
        if self.rw:
            d["rw_uri"] = self.rw
        if self.ro:
            d["ro_uri"] = self.ro
        return [self.kind, d]


class Grid:
    """
    :ivar objects: From capability string to Node.
    :ivar plans: What to do with each request.
    """

    def __init__(self):
        self.objects = {}
        self.counter = 0
        self.requests = []
        self.plans = []
        self.problem = None

    def secrets(self):
        found = set()
        for c in self.objects:
            found.add(c)
            # The parts which grant the access.
            found.update(p for p in c.split(":")[2:4] if len(p) >= 20)
        return found

    def add(self, kind, data=b""):
        self.counter += 1
        if kind.endswith("LIT"):
            data = data[:55]
        cap = make_cap(kind, self.counter, data)
        if kind in ("CHK", "LIT"):
            n = Node("filenode", None, text(cap), data)
        elif kind == "SSK":
            n = Node("filenode", text(cap), text(cap.reader), data)
        elif kind in ("DIR2", "DIR2-MDMF"):
            n = Node("dirnode", text(cap), text(cap.reader), {})
        else:
            n = Node("dirnode", None, text(cap), {})
        for c in (n.rw, n.ro):
            if c:
                self.objects[c] = n
        return cap

    def upload(self, data):
        return self.add("LIT" if len(data) <= 55 else "CHK", data)

    # -- the web API

    def error(self, code, title, text=""):
        return code, HTML.format(code=code, title=title, text=text).encode("utf-8")

    def respond(self, method, segments, args, body):
        """
        :return: status, body
        """
        if not segments or segments[0] != "uri":
            return self.error(404, "No Such Resource")
        if len(segments) == 1:
            if method == "PUT" and not args:
                return 201, text(self.upload(body)).encode("ascii")
            if method == "POST" and args == {"t": "mkdir"}:
                return 200, text(self.add("DIR2")).encode("ascii")
            return self.error(400, "bad request")
        node = self.objects.get(segments[1])
        if node is None:
            return self.error(410, "NoSharesError: no shares could be found.")
        rest = segments[2:]
        if rest in ([], [""]):
            if method != "GET":
                return self.error(400, "bad method")
            if node.kind == "filenode":
                if rest:
                    return self.error(400, "Files have no children named ''")
                return 200, node.content
            if args != {"t": "json"}:
                return 200, HTML.format(code=200, title="Directory", text="").encode("utf-8")
            d = {"children": {n: c.json() for n, c in node.content.items()}, "mutable": bool(node.rw)}
            if node.rw and segments[1] == node.rw:
                d["rw_uri"] = node.rw
            d["ro_uri"] = node.ro
            return 200, (json.dumps(["dirnode", d], indent=1) + "\n").encode("utf-8")
        if len(rest) > 1 or rest[0] == "":
            return self.error(400, "The webapi does not allow empty pathname components")
        name = unicodedata.normalize("NFC", rest[0])
        if node.kind == "filenode":
            return self.error(400, f"Files have no children named {name!r}")
        writeable = segments[1] == node.rw
        if method == "PUT" and args == {"t": "uri"}:
            child = self.objects.get(body.decode("ascii", "replace").strip())
            if child is None:
                return self.error(400, "MustNotBeUnknownRWError: an operation to add a child")
            if not writeable:
                return self.not_writeable()
            if child.rw and body.decode("ascii") == child.ro:
                child = Node(child.kind, None, child.ro, child.content)
            node.content[name] = child
            return 200, body
        if method == "DELETE" and not args:
            if name not in node.content:
                return self.error(404, f"No such child: {name}")
            if not writeable:
                return self.not_writeable()
            child = node.content.pop(name)
            return 200, (child.rw or child.ro or "").encode("ascii")
        if method == "GET" and name in node.content and node.content[name].kind == "filenode":
            return 200, node.content[name].content
        return self.error(400, "bad request")

    def not_writeable(self):
        return 500, (
            b'Traceback (most recent call last):\n  File "allmydata/dirnode.py", line 1\n'
            b"allmydata.mutable.common.NotWriteableError: \n"
        )


NOT_ENOUGH = [
    "allmydata.interfaces.NoServersError: client gave us no servers",
    "allmydata.mutable.common.NotEnoughServersError: ('Publish ran out of good servers', None)",
]


class Refused:
    pass


def make_client(grid):
    """
    :return: A treq HTTPClient to be used where the plugin uses one.
    """
    from treq.client import HTTPClient
    from treq.testing import RequestTraversalAgent, _SynchronousProducer
    from twisted.internet.defer import fail
    from twisted.internet.error import ConnectionRefusedError
    from twisted.web.resource import Resource
    from twisted.web.server import NOT_DONE_YET

    class Web(Resource):
        isLeaf = True

        def render(self, request):
            try:
                return self.really_render(request)
            except BaseException as e:
                grid.problem = e
                raise

        def really_render(self, request):
            path, _, query = request.uri.partition(b"?")
            segments = [unquote_to_bytes(s).decode("utf-8") for s in path.split(b"/")[1:]]
            args = {
                k.decode("utf-8"): v[0].decode("utf-8") for k, v in request.args.items()
            }
            method = request.method.decode("ascii")
            body = request.content.read()
            plan = self.plan
            grid.requests.append((method, segments, args, body, plan[0]))
            if plan[0] == "lost-before":
                request.transport.loseConnection()
                return NOT_DONE_YET
            if plan[0] == "not-enough":
                request.setResponseCode(500)
                return ("Traceback (most recent call last):\n" + NOT_ENOUGH[plan[1]]).encode()
            if plan[0] == "status":
                request.setResponseCode(plan[1])
                return plan[2]
            if plan[0] == "instead":
                request.setResponseCode(200)
                return plan[1]
            code, answer = grid.respond(method, segments, args, body)
            request.setResponseCode(code)
            grid.last_code = code
            if plan[0] == "lost-after":
                request.transport.loseConnection()
                return NOT_DONE_YET
            if plan[0] == "cut":
                if plan[2] and answer:
                    request.setHeader(b"content-length", b"%d" % len(answer))
                request.write(answer[: plan[1] % max(1, len(answer))])
                request.transport.loseConnection()
                return NOT_DONE_YET
            if plan[0] == "pieces":
                if plan[2]:
                    request.setHeader(b"content-length", b"%d" % len(answer))
                n = 1 + plan[1] % 50
                for i in range(0, len(answer), n):
                    request.write(answer[i : i + n])
                request.finish()
                return NOT_DONE_YET
            return answer

    class Agent(RequestTraversalAgent):
        def request(self, method, uri, headers=None, bodyProducer=None):
            if grid.url is not None and not uri.startswith(grid.url.encode("ascii")):
                # There is nobody any more.
                grid.strays += 1
                if grid.strays > 20:
                    grid.problem = Violation(
                        "requests are sent to where the node does not listen any more"
                    )
                    return fail(grid.problem)
                return fail(ConnectionRefusedError())
            plan = grid.plans.pop(0) if grid.plans else ["ok"]
            grid.used.append(plan[0])
            if plan[0] == "moved":
                # The node is being restarted and will listen on another port.
                grid.move(plan[1])
                return fail(ConnectionRefusedError())
            if plan[0] == "refused":
                return fail(ConnectionRefusedError())
            web.plan = plan
            d = super().request(method, uri, headers, bodyProducer)
            self.flush()
            return d

    def producer(body):
        if hasattr(body, "read"):
            with body:
                return _SynchronousProducer(body.read())
        return _SynchronousProducer(body)

    grid.used = []
    grid.url = None
    grid.strays = 0
    grid.last_code = None
    web = Web()
    return HTTPClient(Agent(web), data_to_body_producer=producer)
