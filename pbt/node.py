"""
A client node as far as this plugin is concerned: a node directory, a
configuration, the plugin's web resources reached through a real HTTP parser,
a virtual reactor.
"""

import json
import os
import re

from . import zk
from .core import HarnessError, Violation, check, check_equal, short  # noqa

TOKEN = "pbt-api-auth-token-7f"


def config_text(sections):
    out = []
    for name, items in sections.items():
        out.append(f"[{name}]")
        for k, v in items.items():
            out.append(f"{k} = {v}")
    return "\n".join(out) + "\n"


def client_section():
    from _zkapauthorizer import NAME

    return "storageclient.plugins." + NAME


def make_config(directory, plugin_items=None, client_items=None, token=TOKEN):
    """
    A Tahoe-LAFS configuration object for a node in the given directory.
    """
    from _zkapauthorizer import NAME
    from allmydata.client import config_from_string

    private = os.path.join(directory, "private")
    os.makedirs(private, exist_ok=True)
    if token is not None:
        with open(os.path.join(private, "api_auth_token"), "wb") as f:
            f.write(token if isinstance(token, bytes) else token.encode("utf-8"))
    sections = {
        "node": {"nickname": "pbt"},
        "client": dict({"storage.plugins": NAME}, **(client_items or {})),
        client_section(): plugin_items
        if plugin_items is not None
        else {"redeemer": "dummy", "issuer-public-key": "pbt-key", "allowed-public-keys": "pbt-key"},
    }
    return config_from_string(directory, "", config_text(sections).encode("utf-8"))


class Response:
    def __init__(self, status, headers, body):
        self.status = status
        self.headers = headers
        self.body = body

    def json(self):
        return json.loads(self.body)

    def __repr__(self):
        return f"<{self.status} {short(self.body, 200)}>"


def parse_response(data):
    """
    :return: (Response, rest) or None if it is not complete yet.
    """
    head, sep, rest = data.partition(b"\r\n\r\n")
    if not sep:
        return None
    lines = head.split(b"\r\n")
    m = re.match(rb"HTTP/1\.[01] ([0-9]{3})", lines[0])
    if m is None:
        raise HarnessError(f"not a response: {lines[0]!r}")
    headers = {}
    for line in lines[1:]:
        k, _, v = line.partition(b":")
        headers.setdefault(k.strip().lower().decode("latin-1"), []).append(
            v.strip().decode("latin-1")
        )
    status = int(m.group(1))
    if headers.get("transfer-encoding") == ["chunked"]:
        body = b""
        while True:
            n, sep, more = rest.partition(b"\r\n")
            if not sep:
                return None
            n = int(n, 16)
            if len(more) < n + 2:
                return None
            body += more[:n]
            rest = more[n + 2 :]
            if n == 0:
                return Response(status, headers, body), rest
    n = int(headers.get("content-length", ["0"])[0])
    if len(rest) < n:
        return None
    return Response(status, headers, rest[:n]), rest[n:]


class Exchange:
    """
    One HTTP request (on a connection of its own) and its answer, if any yet.
    """

    def __init__(self, site, raw, head=False):
        from twisted.internet.testing import StringTransport

        self.transport = StringTransport()
        self.protocol = site.buildProtocol(None)
        self.protocol.makeConnection(self.transport)
        self.head = head
        self.protocol.dataReceived(raw)

    def response(self):
        data = self.transport.value()
        if self.head:
            h, sep, _ = data.partition(b"\r\n\r\n")
            h = re.sub(rb"(?i)\r\n(content-length|transfer-encoding):[^\r]*", b"", h)
            data = h + sep
        r = parse_response(data)
        return None if r is None else r[0]

    def close(self):
        from twisted.internet.error import ConnectionDone
        from twisted.python.failure import Failure

        self.protocol.connectionLost(Failure(ConnectionDone()))


def make_site(root, clock):
    from twisted.web.server import Site

    class QuietSite(Site):
        displayTracebacks = False

        def log(self, request):
            pass

        def startFactory(self):
            pass

    return QuietSite(root, timeout=None, reactor=clock)


def raw_request(method, path, headers=(), body=b"", auth=TOKEN):
    if isinstance(path, str):
        path = path.encode("ascii")
    out = [method.encode("latin-1") + b" " + path + b" HTTP/1.1", b"Host: 127.0.0.1"]
    if auth is not None:
        out.append(b"Authorization: tahoe-lafs " + auth.encode("latin-1"))
    for k, v in headers:
        if isinstance(v, str):
            v = v.encode("latin-1")
        out.append(k.encode("latin-1") + b": " + v)
    if body or method in ("PUT", "POST"):
        out.append(b"Content-Length: %d" % (len(body),))
    return b"\r\n".join(out) + b"\r\n\r\n" + body


def exchange(site, method, path, headers=(), body=b"", auth=TOKEN):
    return Exchange(site, raw_request(method, path, headers, body, auth), method == "HEAD")


def request(site, *a, **kw):
    """
    For requests which are answered at once.
    """
    x = exchange(site, *a, **kw)
    r = x.response()
    if r is None:
        raise Violation(f"no answer to {a[:2]!r}")
    x.close()
    return r


def make_reactor():
    from twisted.internet.testing import MemoryReactorClock

    class Reactor(MemoryReactorClock):
        started = False

        def callWhenRunning(self, f, *a, **kw):
            if self.started:
                f(*a, **kw)
            else:
                self.whenRunningHooks.append((f, a, kw))

        def start(self):
            self.started = True
            for f, a, kw in self.whenRunningHooks:
                f(*a, **kw)

        def shutdown(self):
            for phase in ("before", "during", "after"):
                for f, a, kw in self.triggers.get(phase, {}).get("shutdown", []):
                    f(*a, **kw)

    return Reactor()


def dump_path(path):
    import sqlite3

    from .replica import dump

    conn = sqlite3.connect(path)
    try:
        return dump(conn)
    finally:
        conn.close()


class Connection:
    """
    A persistent HTTP connection with requests sent one after the other.
    """

    def __init__(self, site):
        from twisted.internet.testing import StringTransportWithDisconnection

        self.transport = StringTransportWithDisconnection()
        self.protocol = site.buildProtocol(None)
        self.transport.protocol = self.protocol
        self.protocol.makeConnection(self.transport)

    @property
    def usable(self):
        return self.transport.connected and not self.transport.disconnecting

    def ask(self, raw, head=False):
        """
        :return: The response or None if there is none yet.
        """
        self.transport.clear()
        self.protocol.dataReceived(raw)
        data = self.transport.value()
        if head:
            h, sep, _ = data.partition(b"\r\n\r\n")
            h = re.sub(rb"(?i)\r\n(content-length|transfer-encoding):[^\r]*", b"", h)
            data = h + sep
        r = parse_response(data)
        return None if r is None else r[0]


class ClientNode:
    """
    The plugin in a client node, over an in-memory grid.
    """

    def __init__(self, directory, plugin_items=None, client_items=None, token=TOKEN, wrap=None):
        from _zkapauthorizer.tahoe import MemoryGrid
        from twisted.python.filepath import FilePath

        self.directory = directory
        os.makedirs(directory, exist_ok=True)
        self.grid = MemoryGrid()
        self.raw_client = self.grid.client(FilePath(directory))
        self.wrap = wrap or (lambda client: client)
        self.plugin_items = plugin_items
        self.client_items = client_items
        self.token = token
        self.start()

    def start(self):
        from _zkapauthorizer import NAME
        from _zkapauthorizer._plugin import ZKAPAuthorizer

        self.config = make_config(
            self.directory, self.plugin_items, self.client_items, self.token
        )
        self.reactor = make_reactor()
        client = self.wrap(self.raw_client)
        self.plugin = ZKAPAuthorizer(
            name=NAME, reactor=self.reactor, get_tahoe_client=lambda r, c: client
        )
        self.root = self.plugin.get_client_resource(self.config)
        self.store = self.root.store
        self.reactor.start()
        self.site = make_site(self.root, self.reactor)

    @property
    def db_path(self):
        return os.path.join(self.directory, "private", "privatestorageio-zkapauthz-v1.sqlite3")

    def close(self):
        if self.store is not None:
            self.store._connection.close()
            self.store = self.root = self.plugin = None

    def files(self):
        """
        Everything in the node directory but the database.
        """
        r = {}
        for base, dirs, names in os.walk(self.directory):
            for n in names:
                p = os.path.join(base, n)
                if not p.startswith(self.db_path):
                    with open(p, "rb") as f:
                        r[os.path.relpath(p, self.directory)] = f.read()
        return r
