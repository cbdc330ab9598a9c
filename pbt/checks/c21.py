"""C21: only correctly issued, correctly bound passes are stored or accepted."""

import json
import os
import resource as limits
from base64 import b64encode

from hypothesis import strategies as st
from twisted.internet.task import Clock
from twisted.web.resource import Resource

from .. import zk
from ..core import Check, Violation, check, check_equal, short

CHECK = Check(
    "C21",
    rule=(
        "Real Ristretto blinding and signing: generated vouchers redeemed with an issuer"
        " whose answers are honest, altered in any part, signed with other keys, replayed,"
        " cut, malformed or missing, over several attempts and restarts; and passes made"
        " for generated messages checked against other messages, keys and altered passes."
        "  Non-trivial: a successful answer was altered and refused and the voucher redeemed"
        " afterwards, or passes were checked."
    ),
    assumptions=[
        "The challenge-bypass-ristretto library implements the primitives correctly.",
        "An issuer which says that a voucher was spent already is believed.",
    ],
)

KEYS = 3


def signing_key(i):
    from challenge_bypass_ristretto import SigningKey

    scalar = bytearray(zk.stretch("signing-key", i, 32))
    scalar[31] &= 0x0F
    return SigningKey.decode_base64(b64encode(bytes(scalar)))


def public_text(i):
    from challenge_bypass_ristretto import PublicKey

    return PublicKey.from_signing_key(signing_key(i)).encode_base64().decode()


# -- an issuer


class Issuer:
    """
    :ivar tamper: A function applied to each answer.
    """

    def __init__(self):
        self.previous = None

    def sign(self, key, blinded):
        from challenge_bypass_ristretto import BatchDLEQProof

        signed = [key.sign(b) for b in blinded]
        proof = BatchDLEQProof.create(key, blinded, signed)
        return (
            [s.encode_base64().decode() for s in signed],
            proof.encode_base64().decode(),
        )

    def answer(self, blinded, plan):
        """
        :return: (HTTP status, body), whether this is an unaltered success
        """
        kind = plan[0]
        code = 200
        k = plan[1] if kind == "honest" or kind == "other-key" else 0
        signatures, proof = self.sign(signing_key(k), blinded)
        honest = {
            "success": True,
            "public-key": public_text(k),
            "signatures": signatures,
            "proof": proof,
        }
        previous, self.previous = self.previous, dict(honest)
        a = dict(honest)
        n = len(signatures)
        if kind in ("honest", "other-key"):
            pass
        elif kind == "status":
            code = plan[1]
        elif kind == "replay":
            a = previous or {"success": True}
        elif kind == "part-of-replay":
            if previous:
                a[plan[1]] = previous[plan[1]]
            else:
                del a[plan[1]]
        elif kind == "wrong-key":
            a["public-key"] = public_text(1)
        elif kind == "wrong-proof":
            a["proof"] = self.sign(signing_key(1), blinded)[1]
        elif kind == "wrong-signatures":
            a["signatures"] = self.sign(signing_key(1), blinded)[0]
        elif kind == "one-wrong-signature":
            other = self.sign(signing_key(1), blinded)[0]
            i = plan[1] % n
            a["signatures"] = signatures[:i] + [other[i]] + signatures[i + 1 :]
        elif kind == "fewer":
            # The proof is right for those which are left.
            left = blinded[: plan[1] % n]
            if plan[2]:
                left = blinded[n - len(left) :]
            if left:
                a["signatures"], a["proof"] = self.sign(signing_key(0), left)
            else:
                a["signatures"] = []
        elif kind == "drop":
            i = plan[1] % n
            a["signatures"] = signatures[:i] + signatures[i + 1 :]
        elif kind == "more":
            more = [blinded[i % n] for i in plan[1]] or blinded
            if plan[2]:
                a["signatures"], a["proof"] = self.sign(signing_key(0), blinded + more)
            else:
                a["signatures"] = signatures + [signatures[i % n] for i in plan[1] or [0]]
        elif kind == "reorder":
            order = sorted(range(n), key=lambda i: (plan[1][i % len(plan[1])], -i))
            if plan[2]:
                # Consistent with itself, but not with the request.
                a["signatures"], a["proof"] = self.sign(
                    signing_key(0), [blinded[i] for i in order]
                )
            else:
                a["signatures"] = [signatures[i] for i in order]
        elif kind == "repeat":
            i = plan[1] % n
            if plan[2]:
                a["signatures"], a["proof"] = self.sign(signing_key(0), [blinded[i]] * n)
            else:
                a["signatures"] = [signatures[i]] * n
        elif kind == "flip":
            name, position, bit = plan[1:]
            if name == "signatures":
                i = position % n
                a[name] = list(signatures)
                a[name][i] = flip(signatures[i], position // n, bit)
            else:
                a[name] = flip(a[name], position, bit)
        elif kind == "set":
            a[plan[1]] = plan[2]
        elif kind == "set-signature":
            a["signatures"] = list(signatures)
            a["signatures"][plan[1] % n] = plan[2]
        elif kind == "delete":
            del a[plan[1]]
        elif kind == "refuse":
            a = {"success": plan[2]} if plan[3] is None else {"success": plan[2], "reason": plan[3]}
            if plan[1]:
                a = dict(honest, **a)
        elif kind == "json":
            a = plan[1]
        elif kind == "raw":
            return (code, plan[1]), False
        body = json.dumps(a).encode("utf-8")
        if kind == "cut":
            body = body[: plan[1] % len(body)]
        elif kind == "byte":
            i = plan[1] % len(body)
            body = body[:i] + bytes([body[i] ^ plan[2]]) + body[i + 1 :]
        return (code, body), kind in ("honest", "other-key")


def flip(text, position, bit):
    i = position % len(text)
    return text[:i] + chr(ord(text[i]) ^ (1 << bit)) + text[i + 1 :]


class Broken(Exception):
    pass


class Offline:
    """
    An HTTP client which does not get through for a while.
    """

    def __init__(self, real):
        self._real = real
        self.broken = False

    def __getattr__(self, name):
        from twisted.internet.defer import fail

        f = getattr(self._real, name)

        def request(*a, **kw):
            if self.broken:
                return fail(Broken("no route to issuer"))
            return f(*a, **kw)

        return request


# -- the world


class World:
    def __init__(self, case, ctx):
        from hyperlink import DecodedURL
        from treq.testing import StubTreq

        self.case = case
        self.ctx = ctx
        self.path = os.path.join(ctx.tempdir(), "db")
        self.groups = case["groups"]
        self.expected = case["expected"]
        self.voucher = zk.voucher_number(case["voucher"])
        self.allowed = {public_text(k) for k in case["allowed"]}
        self.issuer = Issuer()
        self.plans = list(case["answers"])
        self.sent = {}
        self.requests = 0
        self.double_spend = False
        self.refused_altered = 0
        self.verified = set()
        self.honest = {}
        self.text = ""

        world = self

        class Redeem(Resource):
            def render_POST(self, request):
                return world.redeem(request)

        v1 = Resource()
        v1.putChild(b"redeem", Redeem())
        api = Resource()
        api.putChild(b"v1", v1)
        root = Resource()
        root.putChild(b"api", api)
        self.http = Offline(StubTreq(root))
        self.url = "http://issuer.invalid/api"
        self.store = None
        before = limits.getrlimit(limits.RLIMIT_STACK)
        self.stack = before
        ctx.cleanup(lambda: limits.setrlimit(limits.RLIMIT_STACK, before))
        self.start()

    def start(self):
        from _zkapauthorizer.controller import PaymentController, RistrettoRedeemer
        from hyperlink import URL

        if self.store is not None:
            self.close()
        self.store, self.close = zk.open_voucher_store(self.path, zk.Now())
        self.ctx.cleanup(self.close)
        self.clock = Clock()
        self.redeemer = RistrettoRedeemer(self.http, URL.from_text(self.url))
        self.controller = PaymentController(
            self.clock,
            self.store,
            self.redeemer,
            default_token_count=self.expected,
            allowed_public_keys=set(self.allowed),
            num_redemption_groups=self.groups,
        )

    def redeem(self, request):
        from challenge_bypass_ristretto import BlindedToken

        text = request.content.read()
        self.requests += 1
        self.text += text.decode("utf-8")
        body = json.loads(text)
        check_equal(
            sorted(body), ["redeemCounter", "redeemTokens", "redeemVoucher"], "request to the issuer"
        )
        check_equal(body["redeemVoucher"], self.voucher.decode(), "voucher sent to the issuer")
        counter = body["redeemCounter"]
        tokens = body["redeemTokens"]
        check(counter in range(self.groups), "request for group {}", counter)
        check_equal(len(tokens), self.group_size(counter), "tokens to be signed")
        check_equal(len(set(tokens)), len(tokens), "distinct tokens to be signed")
        if counter in self.sent:
            check_equal(tokens, self.sent[counter], "tokens sent another time")
        self.sent[counter] = tokens
        for other, them in self.sent.items():
            if other != counter:
                check(not set(them) & set(tokens), "tokens sent for two groups")
        blinded = [BlindedToken.decode_base64(t.encode("ascii")) for t in tokens]
        plan = self.plans.pop(0) if self.plans else ("honest", 0)
        self.ctx.event("answer: " + plan[0])
        (code, body), honest = self.issuer.answer(blinded, plan)
        if honest:
            self.honest[counter] = public_text(plan[1] if len(plan) > 1 else 0)
        else:
            self.refused_altered += 1
        try:
            a = json.loads(body)
            if not a.get("success", False) and a.get("reason") == "double-spend":
                self.double_spend = True
        except Exception:
            pass
        request.setResponseCode(code)
        return body

    def group_size(self, counter):
        return self.expected // self.groups + (counter < self.expected % self.groups)

    def go(self):
        from twisted.internet.defer import ensureDeferred

        if self.case["start"] == "offline":
            self.http.broken = True
        d = ensureDeferred(self.controller.redeem(self.voucher))
        d.addErrback(lambda f: None)
        self.http.broken = False
        self.verify()
        attempts = 0
        while not self.over():
            attempts += 1
            check(attempts < 40, "the voucher is never redeemed: {}", self.state())
            before = self.requests
            how = self.case["how"][attempts % len(self.case["how"])]
            if how == "restart":
                self.start()
            elif how == "offline":
                self.http.broken = True
                self.clock.advance(1)
                self.http.broken = False
                self.verify()
                continue
            else:
                self.clock.advance(1)
            check(
                self.requests > before,
                "redemption is not attempted again, in state {}",
                self.state(),
            )
            self.verify()
        if self.double_spend:
            return
        check_equal(
            zk.raw_rows(self.path, "SELECT count(*) FROM [unblinded-tokens]"),
            [(self.expected,)],
            "tokens after the voucher was redeemed",
        )

    def state(self):
        return self.controller.get_voucher(self.voucher).state

    def over(self):
        from _zkapauthorizer.model import DoubleSpend, Redeemed

        state = self.state()
        if isinstance(state, DoubleSpend):
            check(self.double_spend, "the voucher counts as spent but the issuer did not say so")
            return True
        return isinstance(state, Redeemed)

    def verify(self):
        """
        What is stored is good.
        """
        from _zkapauthorizer.model import Redeemed, UnblindedToken
        from challenge_bypass_ristretto import PublicKey

        check_equal(
            limits.getrlimit(limits.RLIMIT_STACK), self.stack, "the stack size limit of the process"
        )
        self.controller.get_voucher(self.voucher).to_json_v1()
        groups = zk.raw_rows(
            self.path,
            "SELECT [rowid], [voucher], [spendable], [public-key] FROM [redemption-groups]"
            " ORDER BY [rowid]",
        )
        check_equal(
            zk.raw_rows(self.path, "SELECT [counter] FROM [vouchers]"),
            [(len(groups),)],
            "groups redeemed according to the voucher",
        )
        total = 0
        for counter, (gid, voucher, spendable, key) in enumerate(groups):
            check_equal(voucher, self.voucher.decode(), "voucher of a group of tokens")
            tokens = [
                t
                for t, in zk.raw_rows(
                    self.path,
                    "SELECT [token] FROM [unblinded-tokens] WHERE [redemption-group] = ?",
                    (gid,),
                )
            ]
            total += len(tokens)
            check_equal(len(tokens), self.group_size(counter), "tokens stored for a group")
            check_equal(bool(spendable), key in self.allowed, "whether the tokens may be spent")
            if gid in self.verified:
                continue
            self.verified.add(gid)
            try:
                raw = PublicKey.decode_base64(key.encode("ascii")).encode_base64().decode()
            except Exception as e:
                raise Violation(f"tokens are stored for {short(key)} which is not a key: {e}")
            for k in range(KEYS):
                if public_text(k) == raw:
                    break
            else:
                raise Violation(f"tokens are stored for {short(key)} which issued nothing")
            if counter in self.honest:
                check_equal(key, self.honest[counter], "key which signed the tokens")
            verify_passes(
                self.redeemer,
                b"message",
                [UnblindedToken(t.encode("ascii")) for t in tokens],
                k,
            )
        check_equal(
            zk.raw_rows(self.path, "SELECT count(*) FROM [unblinded-tokens]"),
            [(total,)],
            "unblinded tokens, those in groups",
        )
        if isinstance(self.state(), Redeemed):
            check_equal(len(groups), self.groups, "groups of a redeemed voucher")
        # Nothing which was sent tells what is spent later.
        secrets = [
            t for t, in zk.raw_rows(self.path, "SELECT [text] FROM [tokens]")
        ] + [t for t, in zk.raw_rows(self.path, "SELECT [token] FROM [unblinded-tokens]")]
        from base64 import b64decode

        for s in secrets:
            raw = b64decode(s)
            for part in (raw, raw[:64], raw[-32:], raw[:32]):
                text = b64encode(part).decode().rstrip("=")[:-1]
                check(text not in self.text, "a secret was sent to the issuer")


def verify_passes(redeemer, message, tokens, k):
    """
    Passes made of these tokens are good for the message and key k.
    """
    from _zkapauthorizer._storage_server import _ValidationResult

    passes = redeemer.tokens_to_passes(message, tokens)
    check_equal(len(passes), len(tokens), "passes")
    check_equal(len({p.preimage for p in passes}), len(tokens), "different preimages")
    data = [p.pass_bytes for p in passes]
    r = _ValidationResult.validate_passes(message, data, signing_key(k))
    check_equal(list(r.signature_check_failed), [], "passes which fail verification")
    check_equal(sorted(r.valid), sorted(p.preimage for p in passes), "valid preimages")
    for p in passes:
        check(by_library(message, p, k), "the library finds a pass invalid")
    return passes


def by_library(message, p, k):
    from challenge_bypass_ristretto import TokenPreimage, VerificationSignature

    try:
        key = (
            signing_key(k)
            .rederive_unblinded_token(TokenPreimage.decode_base64(p.preimage))
            .derive_verification_key_sha512()
        )
        return not key.invalid_sha512(VerificationSignature.decode_base64(p.signature), message)
    except Exception:
        return False


SCALARS = st.none() | st.booleans() | st.integers(-2, 10**6) | st.floats(0, 2) | st.text(max_size=6)
ZEROS = st.sampled_from([b64encode(b"\0" * n).decode() for n in (0, 32, 64, 96)])
JSON = st.recursive(
    SCALARS | ZEROS,
    lambda c: st.lists(c, max_size=3) | st.dictionaries(
        st.sampled_from(["success", "reason", "signatures", "proof", "public-key", "x"]), c, max_size=4
    ),
    max_leaves=6,
)
FIELD = st.sampled_from(["public-key", "signatures", "proof"])
n = st.integers(0, 10**4)
REASONS = st.sampled_from(
    [None, "unpaid", "double-spend", "Unpaid", "double_spend", "", 7, ["double-spend"], "\ud800", {}]
)
ANSWER = zk.weighted(
    (3, zk.op("honest", st.just(0))),
    (2, zk.op("other-key", st.integers(1, KEYS - 1))),
    (1, zk.op("status", st.sampled_from([200, 400, 404, 500, 302]))),
    (1, zk.op("replay")),
    (1, zk.op("part-of-replay", FIELD)),
    (1, zk.op("wrong-key")),
    (1, zk.op("wrong-proof")),
    (1, zk.op("wrong-signatures")),
    (1, zk.op("one-wrong-signature", n)),
    (2, zk.op("fewer", n, st.booleans())),
    (1, zk.op("drop", n)),
    (2, zk.op("more", st.lists(n, max_size=3), st.booleans())),
    (2, zk.op("reorder", st.lists(n, min_size=1, max_size=8), st.booleans())),
    (1, zk.op("repeat", n, st.booleans())),
    (3, zk.op("flip", FIELD, n, st.integers(0, 6))),
    (2, zk.op("set", FIELD | st.just("success"), JSON)),
    (2, zk.op("set-signature", n, JSON)),
    (1, zk.op("delete", FIELD | st.just("success"))),
    (2, zk.op("refuse", st.booleans(), st.sampled_from([False, None, 0, ""]), REASONS)),
    (2, zk.op("json", JSON)),
    (1, zk.op("raw", st.binary(max_size=8) | st.sampled_from([b"", b"{", b"[" * 5000, b"nul", b'"\xff"']))),
    (1, zk.op("cut", n)),
    (2, zk.op("byte", n, st.integers(1, 255))),
)


def cases():
    return st.integers(1, 3).flatmap(
        lambda groups: st.fixed_dictionaries(
            {
                "groups": st.just(groups),
                "expected": st.integers(groups, 10),
                "voucher": st.integers(0, 3),
                "allowed": st.sampled_from([[0], [0], [0, 1], [1], []]),
                "answers": st.lists(ANSWER, max_size=6),
                "how": st.lists(
                    st.sampled_from(["wait", "wait", "restart", "offline"]),
                    min_size=1,
                    max_size=5,
                ).map(lambda how: how + ["wait"]),
                "start": st.sampled_from(["online", "online", "offline"]),
            }
        )
    )


@CHECK.test(cases, quick=2500)
def issuer(case, ctx):
    w = World(case, ctx)
    w.go()
    if w.double_spend:
        ctx.event("double spend")
    elif w.refused_altered:
        ctx.nontrivial()


# -- passes


# The library wants text and takes it to end at its first NUL.  The messages which are
# used have none.
MESSAGE = st.tuples(
    st.just("raw"),
    st.text(st.characters(min_codepoint=1, blacklist_categories=["Cs"]), max_size=20).map(
        lambda t: t.encode("utf-8")
    )
    | st.sampled_from([b"", b"a", b"aa"]),
) | st.tuples(
    st.sampled_from(["allocate_buckets", "add_lease", "slot_testv_and_readv_and_writev"]),
    st.binary(min_size=16, max_size=16) | st.sampled_from([b"\0" * 16, b"\0" * 15 + b"\1", b"\xff" * 16]),
)


def make_message(kind, data):
    from _zkapauthorizer import storage_common

    if kind == "raw":
        return data
    return getattr(storage_common, kind + "_message")(data)


def binding_cases():
    return st.fixed_dictionaries(
        {
            "key": st.integers(0, KEYS - 1),
            "count": st.integers(1, 6),
            "message": MESSAGE,
            "others": st.lists(MESSAGE, min_size=1, max_size=4),
            "changes": st.lists(
                st.tuples(st.booleans(), n, st.integers(0, 6)), min_size=1, max_size=6
            ),
            "order": st.lists(n, min_size=6, max_size=6),
        }
    )


@CHECK.test(binding_cases, quick=1200)
def binding(case, ctx):
    from _zkapauthorizer._storage_server import _ValidationResult
    from _zkapauthorizer.controller import RistrettoRedeemer
    from _zkapauthorizer.model import Pass, UnblindedToken, Voucher
    from hyperlink import URL
    import challenge_bypass_ristretto as cbr

    k = case["key"]
    redeemer = RistrettoRedeemer(None, URL.from_text("http://issuer.invalid/"))
    voucher = Voucher(number=zk.voucher_number(0), expected_tokens=case["count"])
    random_tokens = redeemer.random_tokens_for_voucher(voucher, 0, case["count"])
    check_equal(len(set(random_tokens)), case["count"], "distinct random tokens")
    tokens = []
    key = signing_key(k)
    basic = [cbr.RandomToken.decode_base64(t.token_value) for t in random_tokens]
    blinded = [t.blind() for t in basic]
    signed = [key.sign(b) for b in blinded]
    proof = cbr.BatchDLEQProof.create(key, blinded, signed)
    for t in proof.invalid_or_unblind(basic, blinded, signed, cbr.PublicKey.from_signing_key(key)):
        tokens.append(UnblindedToken(t.encode_base64()))
    message = make_message(*case["message"])
    passes = verify_passes(redeemer, message, tokens, k)
    check_equal(
        redeemer.tokens_to_passes(message, tokens), passes, "passes made another time"
    )

    def verdict(message, data, k):
        r = _ValidationResult.validate_passes(message, data, signing_key(k))
        return sorted(r.signature_check_failed), sorted(r.valid)

    everything = list(range(len(passes)))
    for kind, data in case["others"]:
        other = make_message(kind, data)
        if [kind, data] == list(case["message"]):
            check_equal(other, message, "message made another time")
        elif kind != "raw" and case["message"][0] != "raw":
            check(other != message, "the same message for different operations")
        if other != message:
            check_equal(
                verdict(other, [p.pass_bytes for p in passes], k),
                (everything, []),
                f"verdict on passes for message {other!r}",
            )
    for j in range(KEYS):
        if j != k:
            check_equal(
                verdict(message, [p.pass_bytes for p in passes], j),
                (everything, []),
                "verdict on passes under another key",
            )
    # A mixture of good and bad ones, which are told apart.
    data = [p for p in passes]
    for which, position, bit in case["changes"]:
        i = position % len(passes)
        p = data[i]
        try:
            changed = Pass(
                flip(p.preimage.decode(), position // 7, bit).encode() if which else p.preimage,
                p.signature if which else flip(p.signature.decode(), position // 7, bit).encode(),
            )
        except (ValueError, TypeError):
            ctx.event("altered pass is not base64")
            continue
        if len(changed.pass_bytes.split(b" ")) == 2:
            data[i] = changed
    if case["order"][0] % 3 == 0 and len(data) > 1:
        a, b = data[0], data[1]
        data[0] = Pass(a.preimage, b.signature)
    data = [p for _, p in sorted(zip(case["order"], data), key=lambda x: x[0])]
    good = [by_library(message, p, k) for p in data]
    known = {p.pass_bytes for p in passes}
    for p, ok in zip(data, good):
        if p.pass_bytes in known:
            check(ok, "a pass is invalid")
    check_equal(
        verdict(message, [p.pass_bytes for p in data], k),
        (
            [i for i, ok in enumerate(good) if not ok],
            sorted(p.preimage for p, ok in zip(data, good) if ok),
        ),
        "verdict on altered passes",
    )
    if not all(good):
        ctx.nontrivial()
