"""
A storage server, honest and dishonest clients, and a reference model of what
the server has to do: which requests are paid enough, what they leave on disk,
which leases exist, and what gets recorded as spent.
"""

import os
from sqlite3 import OperationalError
from base64 import b64decode, b64encode
from hashlib import sha256

from hypothesis import strategies as st

from .core import HarnessError, Violation, check, check_equal, short
from .zk import op, program, stretch, sync, weighted

DAY = 24 * 60 * 60
LEASE = 31 * DAY
UPLOAD_TIMEOUT = 30 * 60
START = 1600000000

SERVER_KEY = b"jX4T+oNRoNj8NaaUtPUwMRCc7x0PgifQ5nuTtHeVbg0="
FOREIGN_KEY = b"bEpKn38j9J7SNdoi/1hBSHkyCMeEI6HGlwneaVQGMQA="

_keys = {}


def signing_key(encoded=SERVER_KEY):
    from challenge_bypass_ristretto import SigningKey

    if encoded not in _keys:
        _keys[encoded] = SigningKey.decode_base64(encoded)
    return _keys[encoded]


def public_key(encoded=SERVER_KEY):
    from challenge_bypass_ristretto import PublicKey

    return PublicKey.from_signing_key(signing_key(encoded)).encode_base64()


_verification = {}


def preimage(n):
    return b64encode(stretch("preimage", n, 64))


def pass_parts(n, message, key=SERVER_KEY):
    """The n'th pass there is, bound to the message."""
    from challenge_bypass_ristretto import TokenPreimage

    k = (n, key)
    if k not in _verification:
        if len(_verification) > 3000:
            _verification.clear()
        token = signing_key(key).rederive_unblinded_token(
            TokenPreimage.decode_base64(preimage(n))
        )
        _verification[k] = token.derive_verification_key_sha512()
    return preimage(n), _verification[k].sign_sha512(message).encode_base64()


def storage_index(i):
    """
    Storage indexes come in pairs which differ only in one bit: the last one or
    the first one.
    """
    si = bytearray(stretch("si", i // 2, 16))
    if i % 4 == 1:
        si[15] ^= 1
    elif i % 4 == 3:
        si[0] ^= 0x80
    return bytes(si)


def renew_secret(i):
    return stretch("renew", i, 32)


def cancel_secret(i):
    return stretch("cancel", i, 32)


def write_enabler(i):
    return stretch("enabler", i, 32)


def fill(seed, n):
    """n bytes telling which write they came from."""
    return (stretch("fill", seed, 32) * (n // 32 + 1))[:n]


def ceil_div(a, b):
    return -(-a // b)


def price(pass_value, sizes):
    return sum(ceil_div(s, pass_value) for s in sizes)


LABELS = {
    "alloc": b"allocate_buckets",
    "lease": b"add_lease",
    "write": b"slot_testv_and_readv_and_writev",
}


def message(kind, si):
    return LABELS[kind] + b" " + b64encode(si)


class Share:
    def __init__(self, data, leases):
        self.data = data
        self.leases = leases  # secret index -> expiration

    @property
    def size(self):
        return len(self.data)

    def active(self, now):
        return any(e > now for e in self.leases.values())


class Upload:
    def __init__(self, si, shnum, size, lease, writer, canary, expires):
        self.si = si
        self.shnum = shnum
        self.size = size
        self.lease = lease  # (secret index, expiration)
        self.writer = writer
        self.canary = canary
        self.data = bytearray(size)
        self.expires = expires


def make_canary():
    from foolscap.referenceable import LocalReferenceable

    class Canary(LocalReferenceable):
        def __init__(self):
            LocalReferenceable.__init__(self, None)
            self.watching = {}

        def notifyOnDisconnect(self, callback, *a, **kw):
            marker = len(self.watching)
            self.watching[marker] = lambda: callback(*a, **kw)
            return marker

        def dontNotifyOnDisconnect(self, marker):
            self.watching.pop(marker)

        def disconnect(self):
            for m in list(self.watching):
                self.watching[m]()

    return Canary()


class Spender:
    def __init__(self):
        self.spent = []

    def mark_as_spent(self, public_key, passes):
        self.spent.append((public_key.encode_base64(), list(passes)))


class Wallet:
    """
    The pass bookkeeping of a client: token numbers and the condition each is
    in.  Used through the real SpendingController and PassGroup.
    """

    def __init__(self, count):
        from zope.interface import implementer  # noqa

        self.state = {n: "free" for n in range(count)}
        self.order = list(range(count))
        self.reasons = {}
        self.messages = []
        # Whether each of the next outcomes can be recorded.
        self.trouble = []
        self.unrecorded = 0

    def controller(self, tokens_to_passes):
        from _zkapauthorizer.spending import SpendingController

        return SpendingController(
            get_unblinded_tokens=self._get,
            discard_unblinded_tokens=self._discard,
            invalidate_unblinded_tokens=self._invalidate,
            reset_unblinded_tokens=self._reset,
            tokens_to_passes=tokens_to_passes,
        )

    def token(self, n):
        from _zkapauthorizer.model import UnblindedToken

        from .zk import unblinded_token_bytes

        t = UnblindedToken(unblinded_token_bytes(n))
        _TOKEN_NUMBERS[t.unblinded_token] = n
        return t

    def number(self, token):
        return _TOKEN_NUMBERS[token.unblinded_token]

    def _get(self, count):
        from _zkapauthorizer.model import NotEnoughTokens

        free = [n for n in self.order if self.state[n] == "free"]
        if len(free) < count:
            raise NotEnoughTokens()
        chosen = free[:count]
        for n in chosen:
            self.state[n] = "reserved"
        return [self.token(n) for n in chosen]

    def _move(self, tokens, to):
        if self.trouble and self.trouble.pop(0):
            self.unrecorded += 1
            raise OperationalError("database or disk is full")
        for t in tokens:
            n = self.number(t)
            check(
                self.state[n] == "reserved",
                "pass {} was reported {} while it was {}",
                n,
                to,
                self.state[n],
            )
            self.state[n] = to

    def _discard(self, tokens):
        self._move(tokens, "spent")

    def _invalidate(self, reason, tokens):
        self._move(tokens, "rejected")
        for t in tokens:
            self.reasons[self.number(t)] = reason

    def _reset(self, tokens):
        self._move(tokens, "free")

    def having(self, state):
        return {n for n, s in self.state.items() if s == state}


_TOKEN_NUMBERS = {}


class World:
    """
    :param aspects: which of the model's consequences to check:

        gate: paid-enough decisions, replies and results
        data: share contents
        leases: leases on disk
        stats: the answers of the size and statistics queries
        agree: the honest client's price is the server's price
        books: spent-pass records and metrics
    """

    def __init__(self, ctx, pass_value, aspects, wallet=300):
        from allmydata.storage.server import StorageServer
        from prometheus_client import CollectorRegistry
        from twisted.internet.task import Clock
        from zope.interface import directlyProvides

        from _zkapauthorizer._storage_server import ZKAPAuthorizerStorageServer
        from _zkapauthorizer.server.spending import ISpender

        self.ctx = ctx
        self.aspects = aspects
        self.pass_value = pass_value
        self.dir = ctx.tempdir()
        self.clock = Clock()
        self.clock.advance(START)
        self.original = StorageServer(
            os.path.join(self.dir, "storage"), b"x" * 20, clock=self.clock
        )
        self.spender = Spender()
        directlyProvides(self.spender, ISpender)
        self.registry = CollectorRegistry()
        self.server = ZKAPAuthorizerStorageServer(
            self.original,
            pass_value,
            signing_key(),
            self.spender,
            self.registry,
            self.clock,
        )
        self.slots = {}  # si number -> {shnum: Share}
        self.enablers = {}  # si number -> write enabler number
        self.uploads = []
        self.next_pass = 0
        self.good_before = []
        self.expected_spent = []
        self.expected_metrics = []
        self.observed_exactly = True
        self.calls = []
        self.wallet = Wallet(wallet)
        self.remote = self._make_remote()
        self.client = self._make_client()
        self.accepted = self.rejected = 0

    # -- plumbing ---------------------------------------------------------

    def _make_remote(self):
        from _zkapauthorizer.tests.foolscap import LocalRemote

        world = self

        class Recording(LocalRemote):
            def callRemote(self, _name, *args, **kwargs):
                world.calls.append((_name, args))
                return LocalRemote.callRemote(self, _name, *args, **kwargs)

        return Recording(self.server)

    def _make_client(self):
        from _zkapauthorizer._storage_client import ZKAPAuthorizerStorageClient
        from _zkapauthorizer.model import Pass

        def tokens_to_passes(msg, tokens):
            return [
                Pass(*pass_parts(100000 + self.wallet.number(t), msg)) for t in tokens
            ]

        self.controller = self.wallet.controller(tokens_to_passes)
        return ZKAPAuthorizerStorageClient(
            self.pass_value,
            lambda: self.remote,
            self.controller.get,
            self.clock,
        )

    @property
    def now(self):
        return self.clock.seconds()

    def remote_call(self, name, *args):
        """
        :return: ("ok", result) or ("error", exception)
        """
        from _zkapauthorizer.tests.foolscap import LocalRemote

        try:
            return "ok", sync(LocalRemote.callRemote(self.remote, name, *args))
        except HarnessError:
            raise
        except Exception as e:
            return "error", e

    def fingerprint(self):
        """Everything there is on the server."""
        h = []
        for root, dirs, files in os.walk(os.path.join(self.dir, "storage", "shares")):
            for f in files:
                p = os.path.join(root, f)
                with open(p, "rb") as fo:
                    h.append((p, sha256(fo.read()).hexdigest()))
        h.sort()
        return h, sorted(str(k) for k in self.original._bucket_writers)

    # -- passes -----------------------------------------------------------

    def make_passes(self, kind, si, spec, required):
        """
        :param spec: [[delta, [[position, badness], ...]]

        :return: (encoded passes, valid preimages in order, bad positions,
            whether there are malformed ones)
        """
        delta, bad = spec
        n_valid = max(0, required + delta)
        msg = message(kind, si)
        items = []
        for _ in range(n_valid):
            n = self.next_pass
            self.next_pass += 1
            pre, sig = pass_parts(n, msg)
            items.append((pre + b" " + sig, pre))
            self.good_before.append((pre + b" " + sig, msg))
        del self.good_before[:-40]
        malformed = False
        for pos, how in bad:
            n = self.next_pass
            self.next_pass += 1
            enc, mal = self.bad_pass(n, how, kind, si, msg)
            malformed = malformed or mal
            items.insert(pos % (len(items) + 1), (enc, None))
        passes = [enc for enc, _ in items]
        valid = [pre for _, pre in items if pre is not None]
        positions = frozenset(i for i, (_, pre) in enumerate(items) if pre is None)
        return passes, valid, positions, malformed

    def bad_pass(self, n, how, kind, si, msg):
        if how == "foreign":
            pre, sig = pass_parts(n, msg, FOREIGN_KEY)
        elif how == "other operation":
            other = {"alloc": "lease", "lease": "write", "write": "alloc"}[kind]
            pre, sig = pass_parts(n, message(other, si))
        elif how == "other operation 2":
            other = {"alloc": "write", "lease": "alloc", "write": "lease"}[kind]
            pre, sig = pass_parts(n, message(other, si))
        elif how == "other index":
            other = bytearray(si)
            if n % 3 == 0:
                other[15] ^= 1
            elif n % 3 == 1:
                other[n % 16] ^= 1 << (n % 8)
            else:
                other = b64decode(b64encode(si).swapcase())
            pre, sig = pass_parts(n, message(kind, bytes(other)))
        elif how == "used before":
            # Perfectly fine, a while ago and for something else.
            for enc, for_msg in reversed(self.good_before):
                if for_msg != msg:
                    self.ctx.event("pass accepted before, for something else")
                    return enc, False
            pre, sig = pass_parts(n, b"something else")
        elif how == "label only":
            pre, sig = pass_parts(n, LABELS[kind])
        elif how == "index only":
            pre, sig = pass_parts(n, b64encode(si))
        elif how == "no message":
            pre, sig = pass_parts(n, b"")
        elif how == "signature bit":
            pre, sig = pass_parts(n, msg)
            raw = bytearray(b64decode(sig))
            raw[n % 64] ^= 1 << (n % 8)
            sig = b64encode(raw)
        elif how == "preimage bit":
            pre, sig = pass_parts(n, msg)
            raw = bytearray(b64decode(pre))
            raw[n % 64] ^= 1 << (n % 8)
            pre = b64encode(raw)
        elif how == "zero signature":
            pre, sig = preimage(n), b64encode(b"\0" * 64)
        elif how == "other signature":
            pre, _ = pass_parts(n, msg)
            _, sig = pass_parts(n + 500000, msg)
        elif how == "no separator":
            return b"A" * 177, True
        elif how == "three parts":
            pre, sig = pass_parts(n, msg)
            return pre + b" " + sig[:40] + b" " + sig[41:], True
        elif how == "not base64":
            pre, sig = pass_parts(n, msg)
            return pre + b" " + b"!" + sig[1:], True
        else:
            raise HarnessError(how)
        return pre + b" " + sig, False

    # -- prices -----------------------------------------------------------

    def slot(self, i):
        return self.slots.setdefault(i, {})

    def lease_price(self, i):
        return price(self.pass_value, [s.size for s in self.slot(i).values()])

    def write_price(self, i, writes):
        total = 0
        for shnum, (testv, datav) in writes.items():
            if not datav:
                continue
            share = self.slot(i).get(shnum)
            size = share.size if share else 0
            paid = size if share and share.active(self.now) else 0
            new = max([size] + [off + len(data) for off, data in datav])
            total += ceil_div(new, self.pass_value) - ceil_div(paid, self.pass_value)
        return total

    # -- the effect of accepted operations on the model --------------------

    def allocated(self, i, sharenums, size, secret, canary, result, room):
        existing = set(self.slot(i))
        uploading = {u.shnum for u in self.uploads if u.si == i}
        want = set(sharenums) - existing - uploading
        got, writers = result
        if "gate" in self.aspects:
            check_equal(set(got), existing, "shares reported as already held")
            if room is None or room >= len(want):
                check_equal(set(writers), want, "shares allocated")
            else:
                self.ctx.event("no room for all shares")
                check(
                    set(writers) <= want and len(writers) == room,
                    "allocated {}, wanted {}, room for {}",
                    set(writers),
                    want,
                    room,
                )
        for shnum, w in writers.items():
            self.uploads.append(
                Upload(
                    i,
                    shnum,
                    size,
                    (secret, int(self.now + LEASE)),
                    w,
                    canary,
                    self.now + UPLOAD_TIMEOUT,
                )
            )
        return len(writers)

    def leased(self, i, secret):
        for s in self.slot(i).values():
            s.leases[secret] = max(s.leases.get(secret, 0), int(self.now + LEASE))

    def written(self, i, enabler, secret, writes, readv, result):
        slot = self.slot(i)
        ok = True
        for shnum, (testv, datav) in writes.items():
            data = slot[shnum].data if shnum in slot else b""
            for off, length, specimen in testv:
                if bytes(data[off : off + length]) != specimen:
                    ok = False
        expected_read = {
            shnum: [bytes(s.data[off : off + length]) for off, length in readv]
            for shnum, s in slot.items()
        }
        if "gate" in self.aspects:
            check_equal(result, (ok, expected_read), "result of the mutable write")
        if ok and writes:
            for shnum, (testv, datav) in writes.items():
                share = slot.get(shnum)
                if share is None:
                    share = slot[shnum] = Share(bytearray(), {})
                    self.enablers.setdefault(i, enabler)
                for off, data in datav:
                    if off + len(data) > len(share.data):
                        share.data.extend(b"\0" * (off + len(data) - len(share.data)))
                    share.data[off : off + len(data)] = data
        for shnum, (testv, datav) in writes.items():
            share = slot.get(shnum)
            if datav and share is not None and not share.active(self.now):
                share.leases[secret] = max(
                    share.leases.get(secret, 0), int(self.now + LEASE)
                )
        return ok

    # -- operations ---------------------------------------------------------

    def tw_vectors(self, i, shares):
        """
        :param shares: [[shnum, tests, writes]]

        :return: {shnum: ([(offset, length, specimen)], [(offset, data)])}
        """
        out = {}
        slot = self.slot(i)
        for shnum, tests, writes in shares:
            data = bytes(slot[shnum].data) if shnum in slot else b""
            testv = []
            for off, length, good in tests:
                specimen = data[off : off + length]
                if not good:
                    specimen = specimen + b"?"
                testv.append((off, length, specimen))
            datav = [(off, fill(seed, length)) for off, length, seed in writes]
            out[shnum] = (testv, datav)
        return out

    def charge(self, kind, charged, valid, required):
        """An operation has been accepted with these valid preimages."""
        self.accepted += 1
        if kind == "alloc":
            self.expected_spent.extend(valid[:charged])
            self.expected_metrics.append((charged, charged))
        else:
            self.expected_spent.extend(valid)
            self.expected_metrics.append((required, len(valid)))

    def raw(self, kind, i, spec, required, call):
        """
        Make a paid call with the described passes and judge the server's
        decision.

        :return: None if refused; else (result, valid preimages)
        """
        si = storage_index(i)
        passes, valid, positions, malformed = self.make_passes(kind, si, spec, required)
        before = self.fingerprint()
        spent_before = len(self.spender.spent)
        metrics_before = self.metrics()
        how, result = call(passes)
        enough = len(valid) >= required
        if how == "error":
            self.rejected += 1
            self.check_nothing(before, spent_before, metrics_before, result)
        if not enough:
            self.ctx.event("underpaid")
            if "gate" in self.aspects:
                check(
                    how == "error",
                    "{} was carried out with {} of {} required passes valid"
                    " (invalid at {})",
                    kind,
                    len(valid),
                    required,
                    sorted(positions),
                )
                if not malformed:
                    self.check_refusal(result, len(valid), required, positions)
            return None if how == "error" else (result, valid)
        if how == "error":
            if malformed:
                return None
            return ("failed", result)
        if positions:
            self.ctx.event("accepted although some passes were invalid")
        return result, valid

    def check_nothing(self, before, spent_before, metrics_before, why):
        if "gate" in self.aspects:
            check_equal(
                self.fingerprint(), before, f"server state after the refusal {why!r}"
            )
        if "books" in self.aspects:
            check_equal(
                self.spender.spent[spent_before:], [], "spent by a refused request"
            )
            check_equal(self.metrics(), metrics_before, "metrics of a refused request")

    def check_refusal(self, e, valid, required, positions):
        from _zkapauthorizer.storage_common import MorePassesRequired

        check(
            isinstance(e, MorePassesRequired),
            "expected a refusal for lack of passes, got {!r}",
            e,
        )
        check_equal(
            (e.valid_count, e.required_count, frozenset(e.signature_check_failed)),
            (valid, required, positions),
            "the refusal's account of the passes",
        )

    def do_alloc(self, i, sharenums, size, secret, room, spec):
        """
        :param room: None or the number of further shares of this size for which
            there is space left.
        """
        if room is not None:
            self.original.get_available_space = (
                lambda: self.original.allocated_size() + room * size
            )
        try:
            self.allocate(i, sharenums, size, secret, room if size else None, spec)
        finally:
            self.original.__dict__.pop("get_available_space", None)

    def allocate(self, i, sharenums, size, secret, room, spec):
        sharenums = set(sharenums)
        required = len(sharenums) * ceil_div(size, self.pass_value)
        if required > 40:
            return
        canary = make_canary()
        si = storage_index(i)

        def call(passes):
            return self.remote_call(
                "allocate_buckets",
                passes,
                si,
                renew_secret(secret),
                cancel_secret(secret),
                sharenums,
                size,
                canary,
            )

        self.probe("alloc", i, required, call)
        if spec == "client":
            d = self.as_client(
                "allocate_buckets",
                lambda: self.client.allocate_buckets(
                    si,
                    renew_secret(secret),
                    cancel_secret(secret),
                    sharenums,
                    size,
                    canary,
                ),
                required,
            )
            if d is None:
                return
            result, valid = d
            n = self.allocated(i, sharenums, size, secret, canary, result, room)
            charged = n * ceil_div(size, self.pass_value)
            self.settle(valid, charged)
            self.charge("alloc", charged, valid, required)
            return
        r = self.raw("alloc", i, spec, required, call)
        if r is None:
            return
        result, valid = r
        if result == "failed":
            raise Violation(f"a paid allocation failed: {valid!r}")
        n = self.allocated(i, sharenums, size, secret, canary, result, room)
        self.charge("alloc", n * ceil_div(size, self.pass_value), valid, required)

    def do_lease(self, i, secret, spec):
        si = storage_index(i)
        required = self.lease_price(i)
        if required > 60:
            return

        def call(passes):
            return self.remote_call(
                "add_lease", passes, si, renew_secret(secret), cancel_secret(secret)
            )

        self.probe("lease", i, required, call)
        if spec == "client":
            d = self.as_client(
                "add_lease",
                lambda: self.client.add_lease(
                    si, renew_secret(secret), cancel_secret(secret)
                ),
                required,
            )
            if d is None:
                return
            result, valid = d
            self.settle(valid, required)
        else:
            r = self.raw("lease", i, spec, required, call)
            if r is None:
                return
            result, valid = r
            if result == "failed":
                raise Violation(f"a paid lease failed: {valid!r}")
        if "gate" in self.aspects:
            check_equal(result, None, "result of adding a lease")
        self.leased(i, secret)
        self.charge("lease", required, valid, required)
        if required:
            self.ctx.event("lease paid for")

    def do_write(self, i, enabler, secret, shares, readv, spec):
        readv = [tuple(r) for r in readv]
        si = storage_index(i)
        writes = self.tw_vectors(i, shares)
        required = self.write_price(i, writes)
        if required > 60:
            return
        secrets = (write_enabler(enabler), renew_secret(secret), cancel_secret(secret))
        wrong = i in self.enablers and self.enablers[i] != enabler
        server_writes = {
            shnum: (
                [(off, length, b"eq", specimen) for off, length, specimen in testv],
                datav,
                None,
            )
            for shnum, (testv, datav) in writes.items()
        }
        client_writes = {
            shnum: (testv, datav, None) for shnum, (testv, datav) in writes.items()
        }

        def call(passes):
            return self.remote_call(
                "slot_testv_and_readv_and_writev",
                passes,
                si,
                secrets,
                server_writes,
                readv,
            )

        self.probe("write", i, required, call)
        if spec == "client":
            d = self.as_client(
                "slot_testv_and_readv_and_writev",
                lambda: self.client.slot_testv_and_readv_and_writev(
                    si, secrets, client_writes, readv
                ),
                required,
                may_fail=wrong,
            )
            if d is None:
                return
            result, valid = d
            self.settle(valid, required)
        else:
            r = self.raw("write", i, spec, required, call)
            if r is None:
                return
            result, valid = r
            if result == "failed":
                check(wrong, "a paid write failed: {!r}", valid)
                self.ctx.event("wrong write enabler refused")
                return
        if "gate" in self.aspects:
            check(not wrong, "a write with the wrong write enabler was carried out")
        expired = any(
            datav
            and shnum in self.slot(i)
            and self.slot(i)[shnum].leases
            and not self.slot(i)[shnum].active(self.now)
            for shnum, (_, datav) in writes.items()
        )
        if expired:
            self.ctx.event("write to a share with an expired lease")
        if required == 0 and any(d for _, d in writes.values()):
            self.ctx.event("free rewrite")
        elif required:
            self.ctx.event("paid write")
        ok = self.written(i, enabler, secret, writes, readv, result)
        if not ok:
            self.ctx.event("test vector failed")
        self.charge("write", required, valid, required)

    def do_upload(self, pick, action):
        """Advance one of the uploads in progress."""
        if not self.uploads:
            return
        u = self.uploads[pick % len(self.uploads)]
        if action == "write":
            data = fill(pick, u.size)
            u.data[:] = data
            if data:
                u.writer.remote_write(0, data)
            u.expires = self.now + UPLOAD_TIMEOUT
            # Writing the same bytes again is fine, different ones are not.
            action = "close"
        if action == "close":
            u.writer.remote_close()
            self.uploads.remove(u)
            self.slot(u.si)[u.shnum] = Share(u.data, dict([u.lease]))
            self.ctx.event("share uploaded")
        elif action == "abort":
            u.writer.remote_abort()
            self.uploads.remove(u)
        elif action == "disconnect":
            u.canary.disconnect()
            for other in list(self.uploads):
                if other.canary is u.canary:
                    self.uploads.remove(other)
            self.ctx.event("client disconnected while uploading")

    def do_advance(self, seconds):
        self.clock.advance(seconds)
        self.uploads = [u for u in self.uploads if u.expires > self.now]

    def do_read(self, i, readv, sharenums):
        readv = [tuple(r) for r in readv]
        si = storage_index(i)
        slot = self.slot(i)
        if self.kind(i) == "mutable":
            how, result = self.remote_call("slot_readv", si, list(sharenums), readv)
            expected = {
                n: [bytes(s.data[off : off + length]) for off, length in readv]
                for n, s in slot.items()
                if not sharenums or n in sharenums
            }
            if "data" in self.aspects:
                check_equal((how, result), ("ok", expected), "mutable read")
        else:
            how, result = self.remote_call("get_buckets", si)
            if "data" in self.aspects:
                check_equal(how, "ok", f"reading {result!r}")
                got = {
                    n: [r.remote_read(off, length) for off, length in readv]
                    for n, r in result.items()
                }
                expected = {
                    n: [bytes(s.data[off : off + length]) for off, length in readv]
                    for n, s in slot.items()
                }
                check_equal(got, expected, "immutable read")

    def do_advise(self, i, shnum):
        kind = b"mutable" if self.kind(i) == "mutable" else b"immutable"
        self.remote_call(
            "advise_corrupt_share", kind, storage_index(i), shnum, b"it is bad"
        )

    def do_newlen(self, i, enabler, secret, shnum, new_length, spec):
        """The server refuses every attempt to truncate."""
        si = storage_index(i)
        secrets = (write_enabler(enabler), renew_secret(secret), cancel_secret(secret))

        def call(passes):
            return self.remote_call(
                "slot_testv_and_readv_and_writev",
                passes,
                si,
                secrets,
                {shnum: ([], [(0, b"x")], new_length)},
                [],
            )

        passes, valid, positions, malformed = self.make_passes("write", si, [3, []], 0)
        before = self.fingerprint()
        how, result = call(passes)
        if "gate" in self.aspects:
            check(how == "error", "a write giving a new length was carried out")
            check_equal(self.fingerprint(), before, "server state after refused write")

    def stats(self, i):
        return {
            n: (s.size, max(list(s.leases.values()) + [0]))
            for n, s in self.slot(i).items()
        }

    def do_stat(self, indexes, sharenums, via_client):
        want = [self.stats(i) for i in indexes]
        sis = [storage_index(i) for i in indexes]
        if via_client:
            got = sync(self.client.stat_shares(sis))
        else:
            how, got = self.remote_call("stat_shares", sis)
            if how == "error":
                raise got
        if "stats" in self.aspects:
            check_equal(
                [
                    {n: (s.size, s.lease_expiration) for n, s in answer.items()}
                    for answer in got
                ],
                want,
                "share statistics",
            )
        for i in indexes[:1]:
            for wanted in (None, set(sharenums), list(sharenums)):
                how, got = self.remote_call("share_sizes", storage_index(i), wanted)
                if how == "error":
                    raise got
                if "stats" in self.aspects:
                    check_equal(
                        got,
                        {
                            n: s.size
                            for n, s in self.slot(i).items()
                            if wanted is None or n in wanted
                        },
                        "share sizes",
                    )

    # -- the honest client -------------------------------------------------

    def probe(self, kind, i, required, call):
        """No smaller number of passes is enough."""
        if "agree" not in self.aspects or required == 0:
            return
        si = storage_index(i)
        passes, valid, positions, malformed = self.make_passes(
            kind, si, [-1, []], required
        )
        before = self.fingerprint()
        how, result = call(passes)
        check(
            how == "error",
            "the server did a {} for {} passes, one less than its price",
            kind,
            len(passes),
        )
        self.check_refusal(result, required - 1, required, frozenset())
        check_equal(self.fingerprint(), before, "server state after a refusal")

    def as_client(self, method, start, required, may_fail=False):
        """
        :return: (result, preimages presented) or None if it failed as it may
        """
        del self.calls[:]
        wallet_before = dict(self.wallet.state)
        before = self.fingerprint()
        try:
            result = sync(start())
            ok = True
        except HarnessError:
            raise
        except Violation:
            raise
        except Exception as e:
            result = e
            ok = False
        presented = [args[0] for name, args in self.calls if name == method]
        if may_fail:
            if not ok:
                if "agree" in self.aspects:
                    check_equal(
                        [len(p) for p in presented], [required], "passes presented"
                    )
                self.ctx.event("honest client's request refused")
                check_equal(self.fingerprint(), before, "server state after refusal")
                check_equal(
                    self.wallet.state, wallet_before, "wallet after a failed request"
                )
                return None
        if "agree" in self.aspects:
            check(
                len(presented) == 1,
                "{} took the honest client {} attempts, presenting {} passes when"
                " {} were required: {!r}",
                method,
                len(presented),
                [len(p) for p in presented],
                required,
                result,
            )
            check_equal(
                len(presented[0]), required, f"passes presented with {method}"
            )
            check_equal(ok, True, f"success of the honest client: {result!r}")
        elif not ok:
            raise Violation(f"honest client failed: {result!r}")
        self.ctx.event(f"honest {method}")
        return result, [p.split(b" ")[0] for p in presented[-1]]

    def settle(self, valid, charged):
        """The client's books agree with what it was charged."""
        spent = self.wallet.having("spent")
        if not hasattr(self, "_spent_before"):
            self._spent_before = set()
        now_spent = spent - self._spent_before
        self._spent_before = spent
        if "agree" in self.aspects:
            check_equal(
                sorted(preimage(100000 + n) for n in now_spent),
                sorted(valid[:charged]),
                "passes the client considers spent",
            )
            check_equal(self.wallet.having("reserved"), set(), "passes left reserved")

    # -- comparing the disk with the model -----------------------------------

    def kind(self, i):
        return "immutable" if i < IMMUTABLE_INDEXES else "mutable"

    def check_disk(self):
        from allmydata.storage.common import storage_index_to_dir
        from allmydata.storage.immutable import ShareFile
        from allmydata.storage.mutable import MutableShareFile

        for i, slot in self.slots.items():
            d = os.path.join(
                self.original.sharedir, storage_index_to_dir(storage_index(i))
            )
            names = sorted(int(n) for n in (os.listdir(d) if os.path.isdir(d) else []))
            if self.aspects & {"data", "gate", "leases"}:
                check_equal(names, sorted(slot), f"shares held for index {i}")
            for n, share in slot.items():
                path = os.path.join(d, str(n))
                if not os.path.exists(path):
                    continue
                if self.kind(i) == "mutable":
                    sf = MutableShareFile(path)
                    data = sf.readv([(0, 1 << 20)])[0]
                else:
                    sf = ShareFile(path)
                    data = sf.read_share_data(0, 1 << 20)
                if "data" in self.aspects:
                    # An immutable share may be closed before it is full.
                    check_equal(data, bytes(share.data), f"data of share {i}/{n}")
                if "leases" in self.aspects:
                    got = {}
                    unknown = 0
                    for lease in sf.get_leases():
                        for s in range(SECRETS):
                            if lease.is_renew_secret(renew_secret(s)):
                                got.setdefault(s, []).append(
                                    lease.get_expiration_time()
                                )
                                check(
                                    lease.is_cancel_secret(cancel_secret(s)),
                                    "lease {} of share {}/{} has another cancel secret",
                                    s,
                                    i,
                                    n,
                                )
                                break
                        else:
                            unknown += 1
                    check_equal(unknown, 0, "leases with unknown secrets")
                    check_equal(
                        got,
                        {s: [e] for s, e in share.leases.items()},
                        f"leases of share {i}/{n}",
                    )

    # -- metrics --------------------------------------------------------------

    METRIC = "zkapauthorizer_server_spending_successes"

    def metrics(self):
        out = {}
        for family in self.registry.collect():
            for s in family.samples:
                if s.name.startswith(self.METRIC) and not s.name.endswith("_created"):
                    out[(s.name, s.labels.get("le"))] = s.value
        return out

    def check_books(self):
        if "books" not in self.aspects:
            return
        got = []
        for key, passes in self.spender.spent:
            if passes:
                check_equal(key, public_key(), "key the spent passes are filed under")
            got.extend(passes)
        check_equal(got, self.expected_spent, "passes recorded as spent")
        check_equal(len(set(got)), len(got), "number of distinct spent passes")
        m = self.metrics()
        check_equal(
            m.get((self.METRIC + "_count", None), 0.0),
            float(len(self.expected_metrics)),
            "accepted operations counted",
        )
        low = sum(min(a, b) for a, b in self.expected_metrics)
        high = sum(max(a, b) for a, b in self.expected_metrics)
        total = m.get((self.METRIC + "_sum", None), 0.0)
        check(
            low <= total <= high,
            "the metrics say {} passes were spent, should be {}",
            total,
            low,
        )
        if low == high:
            for (name, le), value in m.items():
                if le is not None:
                    want = sum(1 for a, _ in self.expected_metrics if a <= float(le))
                    check_equal(value, float(want), f"operations of at most {le} passes")

    def run(self, ops, after=None):
        for o in ops:
            getattr(self, "do_" + o[0])(*o[1:])
            if self.aspects & {"data", "gate", "leases"}:
                self.check_disk()
            if after is not None:
                after(o)
        self.check_disk()
        self.check_books()


IMMUTABLE_INDEXES = 3
INDEXES = 5
SECRETS = 4
BAD = [
    "foreign",
    "other operation",
    "other operation 2",
    "other index",
    "used before",
    "label only",
    "index only",
    "no message",
    "signature bit",
    "preimage bit",
    "zero signature",
    "other signature",
]
MALFORMED = ["no separator", "three parts", "not base64"]


def pass_values():
    return st.one_of(st.sampled_from([1, 2, 3, 7, 10, 16, 100]), st.integers(1, 300))


def sizes(pass_value):
    """Share sizes around multiples of the pass value."""
    return st.one_of(
        st.tuples(st.integers(0, 4), st.integers(-2, 2)).map(
            lambda t: max(0, t[0] * pass_value + t[1])
        ),
        st.integers(0, 5 * pass_value),
    )


def specs(malformed=False):
    bad = st.sampled_from(BAD + (MALFORMED if malformed else []))
    bads = st.tuples(st.integers(0, 20), bad)
    return weighted(
        (4, st.tuples(st.just(0), st.just([]))),
        (2, st.tuples(st.just(0), st.lists(bads, min_size=1, max_size=4))),
        (1, st.tuples(st.integers(-3, 2), st.lists(bads, max_size=4))),
        (1, st.tuples(st.just(-1), st.lists(bads, max_size=4))),
    )


def advances():
    return weighted(
        (2, st.sampled_from([1, 60, UPLOAD_TIMEOUT - 1, UPLOAD_TIMEOUT, DAY, 30 * DAY])),
        (4, st.sampled_from([LEASE - 1, LEASE, LEASE + 1, 15 * DAY, 40 * DAY])),
        (1, st.integers(0, 70 * DAY)),
        (1, st.sampled_from([0.25, 0.5, LEASE - 0.5, LEASE + 0.5])),
    )


def readvs(pv):
    return st.lists(
        st.tuples(st.integers(0, 3 * pv), st.integers(0, 4 * pv)), max_size=2
    )


def focus(o):
    if o[0] in ("alloc", "write", "newlen", "lease", "read", "advise"):
        i = 0 if o[1] < IMMUTABLE_INDEXES else IMMUTABLE_INDEXES
        return (o[0], i) + tuple(o[2:])
    return o


def programs(spec, max_size=14, weights=None):
    """
    :param spec: strategy for how paid operations are paid: "client" or a pass
        specification.
    """
    w = dict(
        alloc=4, upload=6, lease=4, write=9, advance=5, read=1, advise=1, newlen=1, stat=1
    )
    w.update(weights or {})

    @st.composite
    def case(draw):
        pv = draw(pass_values())
        immutable = st.integers(0, IMMUTABLE_INDEXES - 1)
        mutable = st.integers(IMMUTABLE_INDEXES, INDEXES - 1)
        any_index = st.integers(0, INDEXES - 1)
        secret = st.integers(0, SECRETS - 1)
        enabler = weighted((7, st.just(0)), (1, st.just(1)))
        shnum = weighted((3, st.integers(0, 1)), (1, st.integers(2, 3)))
        tests = st.lists(
            st.tuples(
                st.integers(0, 2 * pv),
                st.integers(0, 2 * pv),
                weighted((8, st.just(True)), (1, st.just(False))),
            ),
            max_size=1,
        )
        write = st.tuples(
            weighted((2, st.just(0)), (2, sizes(pv))),
            sizes(pv),
            st.integers(0, 50),
        )
        writes = weighted(
            (1, st.just([])),
            (6, st.lists(write, min_size=1, max_size=1)),
            (2, st.lists(write, min_size=2, max_size=3)),
        )
        share = st.tuples(shnum, weighted((2, st.just([])), (1, tests)), writes)
        shares = weighted(
            (1, st.just([])),
            (6, st.lists(share, min_size=1, max_size=1)),
            (4, st.lists(share, min_size=2, max_size=3, unique_by=lambda s: s[0])),
        )
        o = weighted(
            (
                w["alloc"],
                op(
                    "alloc",
                    immutable,
                    st.lists(shnum, max_size=4, unique=True),
                    sizes(pv),
                    secret,
                    weighted((5, st.none()), (1, st.integers(0, 3))),
                    spec,
                ),
            ),
            (
                w["upload"],
                op(
                    "upload",
                    st.integers(0, 20),
                    weighted(
                        (8, st.just("write")),
                        (1, st.just("close")),
                        (1, st.just("abort")),
                        (1, st.just("disconnect")),
                    ),
                ),
            ),
            (w["lease"], op("lease", any_index, secret, spec)),
            (
                w["write"],
                op("write", mutable, enabler, secret, shares, readvs(pv), spec),
            ),
            (w["advance"], op("advance", advances())),
            (
                w["read"],
                op("read", any_index, readvs(pv), st.lists(shnum, max_size=2, unique=True)),
            ),
            (w["advise"], op("advise", any_index, shnum)),
            (
                w["newlen"],
                op(
                    "newlen",
                    mutable,
                    enabler,
                    secret,
                    shnum,
                    st.sampled_from([0, 1, 2, 5, 1000]),
                    st.none(),
                ),
            ),
            (
                w["stat"],
                op(
                    "stat",
                    st.lists(any_index, max_size=4),
                    st.lists(st.integers(0, 5), max_size=4, unique=True),
                    st.booleans(),
                ),
            ),
        )
        ops = draw(program(o, 1, max_size))
        if draw(st.booleans()):
            # Half of the histories stay with one storage index of each kind.
            ops = [focus(x) for x in ops]
        return {"pass_value": pv, "ops": ops}

    return case()
