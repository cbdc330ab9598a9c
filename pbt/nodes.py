"""
Real Tahoe-LAFS nodes with the plugin installed, on the loopback network: an
issuer, storage servers and client nodes in one process, used through the
clients' web interface.  The reactor only runs while somebody waits.
"""

import json
import os
import random
import shutil
import socket
import struct
import tempfile
import time
from base64 import b64encode

from twisted.internet.defer import Deferred, maybeDeferred

from . import zk
from .core import HarnessError, Violation, check, scratch_root

SERVERS = 3
DAY = 24 * 60 * 60
LEASE = 31 * DAY

SERVER_KEY = b"jX4T+oNRoNj8NaaUtPUwMRCc7x0PgifQ5nuTtHeVbg0="


def Timeout(what):
    return Violation(f"{what}: nothing after a long time")


_started = []


def reactor():
    from twisted.internet import reactor

    if not _started:
        _started.append(True)
        reactor.startRunning(installSignalHandlers=False)
    return reactor


#: How long to wait for what should take a moment.
PATIENCE = float(os.environ.get("PBT_PATIENCE", "120"))


def run(until, what, seconds=PATIENCE):
    """
    Run the reactor until something is the case.
    """
    r = reactor()
    end = time.monotonic() + seconds
    while not until():
        if time.monotonic() > end:
            raise Timeout(what)
        r.runUntilCurrent()
        r.doIteration(min(0.02, r.timeout() or 0) if r.timeout() is not None else 0.02)


def wait(d, what, seconds=PATIENCE):
    """
    :return: The result of a Deferred or coroutine.
    """
    if not isinstance(d, Deferred):
        d = Deferred.fromCoroutine(d)
    box = []
    d.addBoth(box.append)
    run(lambda: box, what, seconds)
    from twisted.python.failure import Failure

    if isinstance(box[0], Failure):
        box[0].raiseException()
    return box[0]


def pause(seconds):
    end = time.monotonic() + seconds
    run(lambda: time.monotonic() > end, "waiting")


def free_port():
    """
    :return: A port which no other worker of this run uses, and nobody makes
        outgoing connections from.
    """
    base = random.randrange(11000, 30000)
    for port in range(base, base + 2000):
        s = socket.socket()
        try:
            s.bind(("127.0.0.1", port))
            os.close(
                os.open(
                    os.path.join(scratch_root(), f"pbt-port-{port}"),
                    os.O_CREAT | os.O_EXCL | os.O_WRONLY,
                )
            )
        except OSError:
            continue
        else:
            return port
        finally:
            s.close()
    raise HarnessError("no free port")


# -- the issuer


class IssuerSite:
    def __init__(self):
        from challenge_bypass_ristretto import PublicKey, SigningKey
        from twisted.web.resource import Resource
        from twisted.web.server import Site

        self.key = SigningKey.decode_base64(SERVER_KEY)
        self.public = PublicKey.from_signing_key(self.key).encode_base64().decode()
        self.unpaid = set()
        self.issued = {}  # (voucher, counter) -> blinded tokens
        issuer = self

        class Redeem(Resource):
            isLeaf = True

            def render_POST(self, request):
                return issuer.redeem(request)

        root = Resource()
        v1 = Resource()
        root.putChild(b"v1", v1)
        v1.putChild(b"redeem", Redeem())
        self.port = reactor().listenTCP(0, Site(root), interface="127.0.0.1")
        self.url = f"http://127.0.0.1:{self.port.getHost().port}/"

    def redeem(self, request):
        from challenge_bypass_ristretto import BatchDLEQProof, BlindedToken

        body = json.loads(request.content.read())
        voucher = body["redeemVoucher"]
        request.setHeader("content-type", "application/json")
        if voucher in self.unpaid:
            request.setResponseCode(400)
            return json.dumps({"success": False, "reason": "unpaid"}).encode()
        k = (voucher, body["redeemCounter"])
        if self.issued.setdefault(k, body["redeemTokens"]) != body["redeemTokens"]:
            request.setResponseCode(400)
            return json.dumps({"success": False, "reason": "double-spend"}).encode()
        blinded = [BlindedToken.decode_base64(t.encode()) for t in body["redeemTokens"]]
        signed = [self.key.sign(b) for b in blinded]
        proof = BatchDLEQProof.create(self.key, blinded, signed)
        return json.dumps(
            {
                "success": True,
                "public-key": self.public,
                "signatures": [s.encode_base64().decode() for s in signed],
                "proof": proof.encode_base64().decode(),
            }
        ).encode()


# -- nodes


def write(path, content):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(content if isinstance(content, bytes) else content.encode("utf-8"))


def create_node(directory, sections):
    from allmydata.client import create_client_from_config, read_config

    from .node import config_text

    write(os.path.join(directory, "tahoe.cfg"), config_text(sections))
    os.makedirs(os.path.join(directory, "private"), exist_ok=True)
    config = read_config(directory, "client.port")
    node = wait(create_client_from_config(config), "creating a node")
    node.startService()
    return node


class Share:
    """
    What a share file is at the moment.
    """

    def __init__(self, path):
        from allmydata.storage.immutable import ShareFile
        from allmydata.storage.mutable import MutableShareFile

        self.path = path
        with open(path, "rb") as f:
            content = f.read()
        self.mutable = MutableShareFile.is_valid_header(content[:32])
        if self.mutable:
            share = MutableShareFile(path)
            (self.size,) = struct.unpack(">Q", content[84:92])
            self.data = content[468 : 468 + self.size]
            self.leases = sorted(
                lease.get_expiration_time() for lease in share.get_leases()
            )
            (extra,) = struct.unpack(">Q", content[92:100])
            check(
                struct.unpack(">L", content[extra : extra + 4]) == (0,),
                "more than four leases on a mutable share",
            )
        else:
            share = ShareFile(path)
            self.leases = sorted(
                lease.get_expiration_time() for lease in share.get_leases()
            )
            self.size = len(content) - 12 - 72 * len(self.leases)
            self.data = content[12 : 12 + self.size]

    def age(self, expiration):
        """
        Let every lease expire at another time.
        """
        with open(self.path, "r+b") as f:
            if self.mutable:
                for slot in range(4):
                    f.seek(100 + 92 * slot)
                    if f.read(4) != b"\0\0\0\0":
                        f.write(struct.pack(">L", int(expiration)))
            else:
                for n in range(len(self.leases)):
                    f.seek(12 + self.size + 72 * n + 68)
                    f.write(struct.pack(">L", int(expiration)))


_GRIDS = {}
_ISSUER = []


def grid(pass_value):
    """
    :return: (issuer, servers), which hold nothing.
    """
    if not _ISSUER:
        _ISSUER.append(IssuerSite())
    if pass_value not in _GRIDS:
        base = tempfile.mkdtemp(prefix="pbt-grid-", dir=scratch_root())
        _GRIDS[pass_value] = [
            ServerNode(os.path.join(base, f"server-{i}"), _ISSUER[0], pass_value)
            for i in range(SERVERS)
        ]
    _ISSUER[0].issued.clear()
    for s in _GRIDS[pass_value]:
        s.wipe()
    return _ISSUER[0], _GRIDS[pass_value]


class ServerNode:
    def __init__(self, directory, issuer, pass_value):
        from _zkapauthorizer import NAME
        from twisted.internet.error import CannotListenError

        self.directory = directory
        self.name = NAME
        self.pass_value = pass_value
        self.issuer = issuer
        self.allocated = []
        for attempt in range(20):
            self.port = free_port()
            try:
                self.start()
            except CannotListenError:
                # Somebody was faster.
                shutil.rmtree(directory)
            else:
                break
        self.public = issuer.public
        self.issuer = issuer
        with open(os.path.join(directory, "private", f"storage-plugin.{NAME}.furl")) as f:
            self.furl = f.read().strip()
        with open(os.path.join(directory, "node.pubkey")) as f:
            self.server_id = "v0-" + f.read().strip()[len("pub-v0-") :]
        self.shares_dir = os.path.join(directory, "storage", "shares")
        self.wipe()

    def start(self):
        key = os.path.join(self.directory, "signing.key")
        write(key, SERVER_KEY)
        self.node = create_node(
            self.directory,
            {
                "node": {
                    "nickname": "server",
                    "tub.port": f"tcp:{self.port}:interface=127.0.0.1",
                    "tub.location": f"tcp:127.0.0.1:{self.port}",
                },
                "storage": {"enabled": "true", "anonymous": "false", "plugins": self.name},
                "storageserver.plugins." + self.name: {
                    "ristretto-issuer-root-url": self.issuer.url,
                    "ristretto-signing-key-path": key,
                    "pass-value": self.pass_value,
                },
                "client": {},
            },
        )
        # What is allocated, which is not quite what will be used.
        storage = self.node.getServiceNamed("storage")
        allocate = storage.allocate_buckets

        def allocate_buckets(si, renew, cancel, numbers, size, *a, **kw):
            result = allocate(si, renew, cancel, numbers, size, *a, **kw)
            self.allocated.extend((si, number, size) for number in result[1])
            return result

        storage.allocate_buckets = allocate_buckets

    def stop(self):
        if self.node is not None:
            node, self.node = self.node, None
            wait(maybeDeferred(node.stopService), "stopping a node")

    def wipe(self):
        """
        Forget all shares.
        """
        del self.allocated[:]
        for name in os.listdir(self.shares_dir):
            if name != "incoming":
                shutil.rmtree(os.path.join(self.shares_dir, name))

    def share_paths(self):
        """
        :return: {(storage index, share number): path}
        """
        from allmydata.storage.common import si_a2b

        result = {}
        for prefix in os.listdir(self.shares_dir):
            if prefix == "incoming":
                continue
            for si in os.listdir(os.path.join(self.shares_dir, prefix)):
                d = os.path.join(self.shares_dir, prefix, si)
                for number in os.listdir(d):
                    result[si_a2b(si.encode("ascii")), int(number)] = os.path.join(d, number)
        return result

    def shares(self):
        return {k: Share(path) for k, path in self.share_paths().items()}

    def announcement(self):
        return {
            "nickname": "server",
            "storage-options": [
                {
                    "name": self.name,
                    "ristretto-issuer-root-url": self.issuer.url,
                    "ristretto-public-keys": [self.public],
                    "storage-server-FURL": self.furl,
                }
            ],
        }


class Process:
    """
    The state which the plugin would have in a process of its own.
    """

    def __init__(self):
        from _zkapauthorizer import NAME, _plugin
        from _zkapauthorizer.tahoe import get_tahoe_client
        from twisted.plugins import zkapauthorizer as dropin

        self.shutdown = []
        plugin = _plugin.ZKAPAuthorizer(
            name=NAME, reactor=self, get_tahoe_client=get_tahoe_client
        )
        dropin.storage_server_plugin = plugin
        _plugin.storage_server_plugin = plugin

    def __getattr__(self, name):
        return getattr(reactor(), name)

    def addSystemEventTrigger(self, phase, event, f, *a, **kw):
        if event != "shutdown":
            raise HarnessError(f"system event {event}")
        self.shutdown.append(lambda: f(*a, **kw))

    def stop(self):
        triggers, self.shutdown = self.shutdown, []
        for f in triggers:
            wait(maybeDeferred(f), "stopping a process")


class ClientNode:
    def __init__(self, directory, servers, issuer, pass_value, encoding, tokens, plugin={}):
        from _zkapauthorizer import NAME

        self.directory = directory
        self.servers = servers
        write(
            os.path.join(directory, "private", "servers.yaml"),
            json.dumps(
                {"storage": {s.server_id: {"ann": s.announcement()} for s in servers}}
            ),
        )
        needed, happy, total = encoding
        self.sections = {
            "node": {
                "nickname": "client",
                "web.port": "tcp:0:interface=127.0.0.1",
                "tub.port": "disabled",
                "tub.location": "disabled",
            },
            "storage": {"enabled": "false"},
            "client": {
                "storage.plugins": NAME,
                "shares.needed": needed,
                "shares.happy": happy,
                "shares.total": total,
            },
            "storageclient.plugins." + NAME: dict(
                {
                    "redeemer": "ristretto",
                    "ristretto-issuer-root-url": issuer.url,
                    "allowed-public-keys": issuer.public,
                    "pass-value": pass_value,
                    "default-token-count": tokens,
                },
                **plugin,
            ),
        }
        self.prefix = "storage-plugins/" + NAME + "/"
        self.node = None

    def private(self, *names):
        return os.path.join(self.directory, "private", *names)

    @property
    def database(self):
        from _zkapauthorizer.config import CONFIG_DB_NAME

        return self.private(CONFIG_DB_NAME)

    def start(self, connect=True):
        self.process = Process()
        self.node = create_node(self.directory, self.sections)
        with open(os.path.join(self.directory, "node.url")) as f:
            self.url = f.read().strip()
        with open(self.private("api_auth_token")) as f:
            self.token = f.read().strip()
        if connect:
            self.connect(len(self.servers))

    def connect(self, n):
        broker = self.node.get_storage_broker()
        run(
            lambda: len(broker.get_connected_servers()) == n,
            "connecting to the storage servers",
        )

    def stop(self):
        if self.node is not None:
            node, self.node = self.node, None
            wait(maybeDeferred(node.stopService), "stopping a node")
            self.process.stop()

    def send(self, method, path, body=None, headers=None):
        """
        :return: A Deferred of (status code, body)
        """
        from io import BytesIO

        from twisted.web.client import Agent, FileBodyProducer, readBody
        from twisted.web.http_headers import Headers

        agent = Agent(reactor())
        h = Headers({k: [v] for k, v in (headers or {}).items()})

        async def go():
            response = await agent.request(
                method.encode(),
                (self.url + path).encode("ascii"),
                h,
                None if body is None else FileBodyProducer(BytesIO(body)),
            )
            return response.code, await readBody(response)

        return Deferred.fromCoroutine(go())

    def request(self, method, path, body=None, headers=None):
        """
        :return: (status code, body)
        """
        return wait(self.send(method, path, body, headers), f"{method} {path[:60]}")

    def plugin(self, method, path, body=None):
        """
        :return: (status code, parsed body or the text if it is not JSON)
        """
        code, content = self.request(
            method,
            self.prefix + path,
            None if body is None else json.dumps(body).encode("utf-8"),
            {"Authorization": f"tahoe-lafs {self.token}", "Content-Type": "application/json"},
        )
        try:
            return code, json.loads(content)
        except ValueError:
            return code, content[:2000]
