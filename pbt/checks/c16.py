"""C16: nothing of the web interface works without the authorization token."""

import base64
import json

from hypothesis import strategies as st
from zope.interface import implementer

from .. import node, zk
from ..core import Check, Violation, check, check_equal
from ..replica import difference

CHECK = Check(
    "C16",
    rule=(
        "Generated tokens and sequences of raw HTTP requests (any method, known and"
        " unknown paths, bodies that would have an effect, on fresh and on reused"
        " connections) with exact, nearly exact and misplaced tokens, and rotations of"
        " the token. Non-trivial: a request that would be served with the token was"
        " refused for a near miss of it."
    ),
    assumptions=[
        "The scheme name is compared without regard to case, as HTTP says.",
        "A request which has the exact token in one of several Authorization headers is"
        " not judged.",
    ],
)

TOKENS = st.one_of(
    st.text(
        st.sampled_from("abcXYZ0123456789-_"), min_size=4, max_size=150
    ),
    st.text(st.characters(min_codepoint=0x21, max_codepoint=0x7E), min_size=3, max_size=100).filter(
        lambda s: "%" not in s
    ),
)

VOUCHER = zk.voucher_number(1).decode("ascii")
GOOD_BODIES = {
    "voucher": json.dumps({"voucher": VOUCHER}).encode("ascii"),
    "price": b'{"version": 1, "sizes": [1000, 2000]}',
    "none": b"",
    "junk": b"\x00\xff{]",
    "tokens": b'{"first-unspent": "x", "unblinded-tokens": []}',
}

PATHS = [
    b"/version",
    b"/voucher",
    b"/voucher/" + VOUCHER.encode("ascii"),
    b"/voucher/nonsense",
    b"/lease-maintenance",
    b"/calculate-price",
    b"/replicate",
    b"/recover",
    b"/",
    b"/unblinded-token",
    b"/nothing/here",
    b"/voucher/",
    b"/version/",
    b"//version",
    b"/./version",
    b"/voucher/../version",
    b"/%76oucher",
    b"/voucher%2f" + VOUCHER.encode("ascii"),
    b"/voucher?t=json",
    b"/replicate/",
    b"/calculate-price/x",
    b"/recover/x",
    b"/VOUCHER",
    b"/voucher/%ff%fe",
]
METHODS = ["GET", "PUT", "POST", "HEAD", "DELETE", "PATCH", "OPTIONS", "TRACE", "PROPFIND"]

LIVELY = [
    ("PUT", b"/voucher", "voucher"),
    ("POST", b"/calculate-price", "price"),
    ("POST", b"/replicate", "none"),
    ("GET", b"/voucher", "none"),
    ("GET", b"/version", "none"),
    ("GET", b"/lease-maintenance", "none"),
    ("GET", b"/voucher/" + VOUCHER.encode("ascii"), "none"),
    ("GET", b"/recover", "none"),
]

NEAR = [
    "none",
    "empty",
    "scheme only",
    "prefix",
    "suffix",
    "longer",
    "leading",
    "swapcase",
    "changed",
    "reversed",
    "doubled",
    "quoted",
    "base64",
    "two spaces",
    "tab",
    "no scheme",
    "basic",
    "bearer",
    "basic user",
    "digest",
    "scheme glued",
    "other scheme",
    "old",
    "wrong twice",
    "other header",
    "proxy",
    "cookie",
    "query",
    "nul",
    "comma",
    "realm",
    "random",
]

request = st.tuples(
    st.one_of(
        st.sampled_from(LIVELY),
        st.tuples(
            st.sampled_from(METHODS),
            st.one_of(
                st.sampled_from(PATHS),
                st.binary(max_size=8).map(
                    lambda b: b"/" + b"".join(b"%%%02x" % (c,) for c in b)
                ),
            ),
            st.sampled_from(sorted(GOOD_BODIES)),
        ),
    ),
    st.one_of(st.sampled_from(NEAR), st.sampled_from(NEAR), st.just("exact")),
    st.integers(0, 1000),
    st.booleans(),  # reuse the connection
    st.booleans(),  # content type given
    st.booleans(),  # ask for an upgrade to a websocket
)
OPS = zk.weighted((12, zk.op("request", request)), (1, zk.op("rotate", TOKENS)))


def near_miss(kind, n, token, old):
    """
    :return: headers with something which is not the token, query string
    """
    t = token.encode("ascii")
    scheme = b"tahoe-lafs "
    at = n % len(t)

    def auth(value):
        return [("Authorization", value)]

    if kind == "none":
        return [], b""
    if kind == "empty":
        return auth(b""), b""
    if kind == "scheme only":
        return auth(b"tahoe-lafs"), b""
    if kind == "prefix":
        return auth(scheme + t[:at]), b""
    if kind == "suffix":
        return auth(scheme + t[at + 1 :]), b""
    if kind == "longer":
        return auth(scheme + t + b"x" * (1 + n % 3)), b""
    if kind == "leading":
        return auth(scheme + b"x" + t), b""
    if kind == "swapcase":
        return auth(scheme + t.swapcase()), b""
    if kind == "changed":
        return auth(scheme + t[:at] + (b"~" if t[at : at + 1] != b"~" else b"!") + t[at + 1 :]), b""
    if kind == "reversed":
        return auth(scheme + t[::-1]), b""
    if kind == "doubled":
        return auth(scheme + t + t), b""
    if kind == "quoted":
        return auth(scheme + b'"' + t + b'"'), b""
    if kind == "base64":
        return auth(scheme + base64.b64encode(t)), b""
    if kind == "two spaces":
        return auth(b"tahoe-lafs  " + t), b""
    if kind == "tab":
        return auth(b"tahoe-lafs\t" + t), b""
    if kind == "no scheme":
        return auth(t), b""
    if kind == "basic":
        return auth(b"Basic " + t), b""
    if kind == "bearer":
        return auth(b"Bearer " + t), b""
    if kind == "basic user":
        return auth(b"Basic " + base64.b64encode(b"user:" + t)), b""
    if kind == "digest":
        return auth(b'Digest username="x", response="' + t + b'"'), b""
    if kind == "scheme glued":
        return auth(b"tahoe-lafs" + t), b""
    if kind == "other scheme":
        return auth([b"tahoe", b"lafs", b"tahoe_lafs", b"tahoe-lafs-2", b"xtahoe-lafs"][n % 5] + b" " + t), b""
    if kind == "old":
        return auth(scheme + old.encode("ascii")), b""
    if kind == "wrong twice":
        return auth(scheme + t[:-1]) + auth(scheme + t + b"y"), b""
    if kind == "other header":
        return [("X-Authorization", scheme + t), ("Authorisation", scheme + t)], b""
    if kind == "proxy":
        return [("Proxy-Authorization", scheme + t)], b""
    if kind == "cookie":
        return [("Cookie", b"token=" + t.replace(b";", b"") + b"; api_auth_token=x")], b""
    if kind == "query":
        return [], b"?token=x&api_auth_token=" + b"".join(b"%%%02x" % (c,) for c in t)
    if kind == "nul":
        return auth(scheme + t + b"\x00"), b""
    if kind == "comma":
        return auth(scheme + b"wrong," + t), b""
    if kind == "realm":
        return auth(b'tahoe-lafs realm="tahoe-lafs" ' + t), b""
    if kind == "random":
        return auth(scheme + b"%x" % (n * 7919 + 13,) * 3), b""
    raise AssertionError(kind)


class World:
    def __init__(self, token, ctx):
        self.ctx = ctx
        self.calls = 0
        self.token = token
        self.old = "never-was-a-token"
        self.node = node.ClientNode(
            ctx.tempdir(),
            plugin_items={
                "redeemer": "dummy",
                "issuer-public-key": "k",
                "allowed-public-keys": "k",
                "default-token-count": "16",
            },
            token=token,
            wrap=self.counting,
        )
        ctx.cleanup(self.node.close)
        self.connection = None
        self.near = False

    def counting(self, client):
        from _zkapauthorizer.tahoe import ITahoeClient

        world = self

        @implementer(ITahoeClient)
        class Counting:
            def get_config(self):
                return client.get_config()

            def get_private_path(self, name):
                return client.get_private_path(name)

        for name in ("download", "upload", "make_directory", "link", "unlink", "list_directory"):

            def method(self, *a, _name=name):
                world.calls += 1
                return getattr(client, _name)(*a)

            setattr(Counting, name, method)
        return Counting()

    def observe(self):
        return (
            node.dump_path(self.node.db_path),
            self.node.files(),
            self.calls,
            len(self.node.reactor.getDelayedCalls()),
        )

    def rotate(self, token):
        if token == self.token:
            return
        import os

        self.old, self.token = self.token, token
        with open(os.path.join(self.node.directory, "private", "api_auth_token"), "w") as f:
            f.write(token)

    def request(self, what, auth, n, reuse, typed, upgrade):
        method, path, body = what
        headers = [("Content-Type", b"application/json")] if typed else []
        if upgrade:
            headers += [
                ("Upgrade", b"websocket"),
                ("Connection", b"Upgrade"),
                ("Sec-WebSocket-Key", b"dGhlIHNhbXBsZSBub25jZQ=="),
                ("Sec-WebSocket-Version", b"13"),
            ]
        if auth == "exact":
            extra, query = [("Authorization", b"tahoe-lafs " + self.token.encode("ascii"))], b""
        else:
            extra, query = near_miss(auth, n, self.token, self.old)
            exact = b"tahoe-lafs " + self.token.encode("ascii")
            if any(k == "Authorization" and v.strip() == exact for k, v in extra):
                return  # as it happens it is the token
        raw = node.raw_request(
            method, path + query, headers + extra, GOOD_BODIES[body], auth=None
        )
        if not (reuse and self.connection is not None and self.connection.usable):
            self.connection = node.Connection(self.node.site)
        before = self.observe()
        r = self.connection.ask(raw, method == "HEAD")
        what = f"{method} {path + query!r} with {extra!r} (token {self.token!r})"
        if auth != "exact":
            check(r is not None, "{} was not answered at once", what)
            check_equal(r.status, 401, f"status of the answer to {what}")
            after = self.observe()
            if after != before:
                raise Violation(
                    f"{what} had an effect: {difference(after[0], before[0])}"
                    f" files {sorted(set(after[1]) ^ set(before[1]))}"
                    f" grid {before[2]} -> {after[2]} timers {before[3]} -> {after[3]}"
                )
            if auth not in ("reversed", "swapcase") and len(self.token) > 6:
                check(
                    self.token.encode("ascii") not in r.body, "the answer contains the token"
                )
            if (method, path, body) in LIVELY and auth not in ("none", "random", "empty"):
                self.near = True
            self.ctx.event("refused")
            return
        self.ctx.event("exact")
        if r is None:
            # A websocket handshake goes on elsewhere.
            check(b"/recover" in path, "{} was not answered at once", what)
            self.connection = None
            return
        check(r.status != 401, "{} is refused", what)
        if (method, path, body) in LIVELY and not upgrade:
            if path == b"/calculate-price":
                check_equal(r.status, 200 if typed else 400, f"status of {what}")
            elif path == b"/replicate":
                check(r.status in (201, 409), "{} got {}", what, r)
            elif path == b"/recover":
                pass
            elif path.startswith(b"/voucher/"):
                check(r.status in (200, 404), "{} got {}", what, r)
            else:
                check_equal(r.status, 200, f"status of {what}")
            if method == "PUT":
                check(
                    zk.raw_rows(self.node.db_path, "SELECT COUNT(*) FROM [vouchers]")[0][0] == 1,
                    "{} was answered {} but recorded nothing",
                    what,
                    r,
                )
        if path.startswith(b"/recover") and upgrade:
            self.connection = None


@CHECK.test(
    st.fixed_dictionaries({"token": TOKENS, "ops": zk.program(OPS, 1, 14)}), quick=1500
)
def authorization(case, ctx):
    w = World(case["token"], ctx)
    for name, *args in case["ops"]:
        if name == "rotate":
            w.rotate(*args)
        else:
            w.request(*args[0])
    w.request(("PUT", b"/voucher", "voucher"), "none", 0, True, True, False)
    w.request(("GET", b"/version", "none"), "exact", 0, True, True, False)
    if w.near:
        ctx.nontrivial()
