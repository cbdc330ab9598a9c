"""C17: the voucher web interface against a model of the vouchers."""

import json
from base64 import urlsafe_b64encode

from hypothesis import strategies as st

from .. import node, redeem, zk
from ..core import Check, Violation, check, check_equal, short

CHECK = Check(
    "C17",
    rule=(
        "Generated histories of valid, repeated and invalid voucher submissions and"
        " fetches over HTTP, mixed with scripted issuer answers, delays, retries and"
        " restarts with other default values.  Non-trivial: some voucher was submitted"
        " more than once and something was refused."
    ),
    assumptions=[
        "A voucher is 32 bytes in URL-safe base64 with padding (44 characters);"
        " 44 characters of other lengths of data may be taken or refused.",
        "A body with a repeated key is not judged.",
    ],
)

GROUPS = 16


def vouchers(i):
    """
    Valid vouchers, some of them easily confused with each other.
    """
    base = zk.voucher_number(i // 4)
    kind = i % 4
    if kind == 1:
        return base.swapcase()
    if kind == 2:
        # The same but for a single bit at the end.
        return urlsafe_b64encode(
            zk.stretch("voucher", i // 4, 31) + bytes([zk.stretch("voucher", i // 4, 32)[31] ^ 4])
        )
    if kind == 3:
        return (b"-_" + base)[:43] + b"="
    return base




def invalid_voucher(kind, i):
    v = zk.voucher_number(i).decode("ascii")
    j = i % 43
    return {
        "short": v[:j],
        "one short": v[1:],
        "long": v + "A" * (1 + i % 9),
        "long by padding": v + "=",
        "bad char": v[:j] + "!+/ .~\n\t\0*"[i % 10] + v[j + 1 :],
        "bad char within": v[: j % 40] + "+/%= "[i % 5] + v[j % 40 + 1 :],
        "not ascii": v[:j] + "\u00e9\u0661\uff21\u0130\U0001f600"[i % 5] + v[j + 1 :],
        "surrogate": v[:j] + "\ud83d" + v[j + 1 :],
        "leading space": " " + v[1:],
        "trailing newline": v[:43] + "\n",
        "padded with newline": v + "\n",
        "empty": "",
        "padding only": "=" * 44,
        "too much padding": v[:40] + "====",
        "url": "http://example.invalid/" + v,
    }[kind]


INVALID_KINDS = [
    "short",
    "one short",
    "long",
    "long by padding",
    "bad char",
    "bad char within",
    "not ascii",
    "surrogate",
    "leading space",
    "trailing newline",
    "padded with newline",
    "empty",
    "padding only",
    "too much padding",
    "url",
]



def invalid_body(kind, i):
    v = zk.voucher_number(i).decode("ascii")
    good = json.dumps({"voucher": v}).encode("ascii")
    return {
        "empty": b"",
        "junk": b"\x00\x01\xff",
        "truncated": good[: 1 + i % (len(good) - 1)],
        "not utf-8": good[:14] + b"\xff" + good[15:],
        "trailing": good + b"x",
        "list": json.dumps([v]).encode("ascii"),
        "list of pairs": json.dumps([["voucher", v]]).encode("ascii"),
        "string": json.dumps(v).encode("ascii"),
        "null": b"null",
        "true": b"true",
        "number": b"%d" % (i,),
        "float": b"1.5",
        "nan": b"NaN",
        "no key": b"{}",
        "other key": json.dumps({"Voucher": v}).encode("ascii"),
        "extra key": json.dumps({"voucher": v, "x": i}).encode("ascii"),
        "extra count": json.dumps({"voucher": v, "expected-tokens": i}).encode("ascii"),
        "null voucher": json.dumps({"voucher": None}).encode("ascii"),
        "number voucher": json.dumps({"voucher": 10**43 + i}).encode("ascii"),
        "list voucher": json.dumps({"voucher": list(v)}).encode("ascii"),
        "ints voucher": json.dumps({"voucher": list(v.encode("ascii"))}).encode("ascii"),
        "object voucher": json.dumps({"voucher": {c + str(n): 0 for n, c in enumerate(v)}}).encode("ascii"),
        "bool voucher": json.dumps({"voucher": True}).encode("ascii"),
        "nested": json.dumps({"voucher": {"voucher": v}}).encode("ascii"),
        "deep": b"[" * (200 + i * 37) + b"]" * (200 + i * 37),
        "form": b"voucher=" + v.encode("ascii"),
        "bare": v.encode("ascii"),
    }[kind]


BODY_KINDS = [
    "empty",
    "junk",
    "truncated",
    "not utf-8",
    "trailing",
    "list",
    "list of pairs",
    "string",
    "null",
    "true",
    "number",
    "float",
    "nan",
    "no key",
    "other key",
    "extra key",
    "extra count",
    "null voucher",
    "number voucher",
    "list voucher",
    "ints voucher",
    "object voucher",
    "bool voucher",
    "nested",
    "deep",
    "form",
    "bare",
]


class WebWorld(redeem.RedemptionWorld):
    def __init__(self, case, ctx):
        super().__init__(case, ctx)
        self.repeated = self.refused = 0
        self.directory = ctx.tempdir()
        self.site = None

    def start(self, default):
        from _zkapauthorizer.model import VoucherStore
        from _zkapauthorizer.replicate import with_replication
        from _zkapauthorizer.resource import from_configuration
        from twisted.internet.task import Clock

        p = redeem.Proc()
        p.plan = redeem.CrashPlan()
        p.real = zk.connect(self.path)
        self.ctx.cleanup(lambda: None if p.plan.crashed else p.real.close())
        p.conn = redeem.CrashConnection(p.real, p.plan)
        p.store = VoucherStore.from_connection(
            1000, self.now, with_replication(p.conn, self.case.get("replicate", False))
        )
        p.clock = Clock()
        p.default = default
        self.proc = p
        for v in self.vouchers.values():
            v.last = None
        p.redeemer = redeem.make_redeemer(self, p)

        def no_downloader(cap):
            raise Violation("recovery was started")

        def no_setup():
            raise Violation("replication was set up")

        config = node.make_config(
            self.directory,
            {
                "redeemer": "dummy",
                "issuer-public-key": "pbt-key",
                "allowed-public-keys": ",".join(sorted(self.allowed)),
                "default-token-count": str(default),
            },
        )
        p.root = from_configuration(
            config, p.store, no_downloader, no_setup, p.redeemer, p.clock
        )
        p.controller = p.root.controller
        self.site = node.make_site(p.root, p.clock)

    def ask(self, *a, **kw):
        return node.request(self.site, *a, **kw)

    # -- operations

    def number(self, i):
        return vouchers(i)

    def op_submit_in_trouble(self, i, kind, after, count):
        """Submit a voucher while the database fails for a moment."""
        self.settle()
        number = self.number(i)
        v = self.vouchers.get(number)
        if v is None:
            v = redeem.VoucherModel(number, self.proc.default)
            v.created = self.now()
            v.possible_new = True
            self.vouchers[number] = v
        body = json.dumps({"voucher": number.decode("ascii")})
        self.proc.plan.disturb(kind, after, count)
        r = self.ask("PUT", "/voucher", [], body.encode("ascii"))
        self.proc.plan.calm()
        failed = self.proc.plan.faults
        self.settle()
        if not failed:
            check_equal(r.status, 200, f"status of submitting {number!r}")
        elif r.status == 200:
            check(
                number in self.vouchers,
                "the submission of {} was acknowledged but it is not recorded",
                number,
            )
            self.ctx.event("acknowledged in trouble")
        else:
            check(
                500 <= r.status < 600,
                "submitting {} while the database fails was answered {}",
                number,
                r,
            )
            self.ctx.event("refused in trouble")

    def op_submit(self, i, spelling):
        number = self.number(i)
        text = number.decode("ascii")
        body = {
            0: json.dumps({"voucher": text}),
            1: json.dumps({"voucher": text}, indent=3),
            2: ' \r\n{"voucher":"%s"}\t' % (text,),
            3: '{"vouch\\u0065r": "%s"}' % ("".join("\\u%04x" % ord(c) for c in text),),
        }[spelling]
        v = self.vouchers.get(number)
        if v is None:
            v = redeem.VoucherModel(number, self.proc.default)
            v.created = self.now()
            self.vouchers[number] = v
        else:
            self.repeated += 1
        r = self.ask("PUT", "/voucher", [("Content-Type", "application/json")], body.encode("ascii"))
        check_equal(r.status, 200, f"status of submitting {text!r}")

    def effects(self):
        return len(self.issuer.first_tokens), self.issuer.fresh, node.dump_path(self.path)

    def op_bad_voucher(self, kind, i):
        self.refuse_put(
            json.dumps({"voucher": invalid_voucher(kind, i)}).encode("ascii"), "voucher " + kind
        )

    def op_bad_body(self, kind, i):
        self.refuse_put(invalid_body(kind, i), "body " + kind)

    def refuse_put(self, body, what):
        before = self.effects()
        r = self.ask("PUT", "/voucher", [("Content-Type", "application/json")], body)
        check(400 <= r.status < 500, "submitting {} ({}) was answered {}", what, short(body, 200), r)
        check(before == self.effects(), "submitting {} ({}) had an effect", what, short(body, 200))
        self.refused += 1

    def op_odd_voucher(self, data):
        """
        44 characters of base64 which are not 32 bytes.
        """
        number = urlsafe_b64encode(zk.stretch("odd", data, 31 if data % 2 else 33))
        before = self.effects()
        known = number in self.vouchers
        v = redeem.VoucherModel(number, self.proc.default)
        v.created = self.now()
        self.vouchers.setdefault(number, v)
        r = self.ask("PUT", "/voucher", [], json.dumps({"voucher": number.decode("ascii")}).encode("ascii"))
        if r.status == 200:
            return
        check(400 <= r.status < 500, "submitting {} was answered {}", number, r)
        check(not known, "a recorded voucher was refused later")
        check(before == self.effects(), "a refused submission had an effect")
        del self.vouchers[number]

    def op_get_unknown(self, i):
        number = zk.voucher_number(1000 + i)
        if number in self.vouchers:
            return
        r = self.ask("GET", b"/voucher/" + number)
        check_equal(r.status, 404, "status of fetching an unknown voucher")
        self.refused += 1

    def op_get_malformed(self, kind, i, raw):
        if kind == "raw":
            segment = bytes(raw)
        else:
            segment = invalid_voucher(kind, i).encode("utf-8", "surrogatepass")
        if not segment:
            return
        quoted = b"".join(b"%%%02x" % (c,) for c in segment)
        r = self.ask("GET", b"/voucher/" + quoted)
        check(400 <= r.status < 500, "fetching {} was answered {}", segment, r)
        self.refused += 1

    def op_get_quoted(self, i):
        number = self.number(i)
        quoted = b"".join(b"%%%02X" % (c,) for c in number)
        r = self.ask("GET", b"/voucher/" + quoted)
        if number in self.vouchers:
            check_equal(r.status, 200, f"status of fetching {quoted!r}")
            check_equal(r.json()["number"], number.decode("ascii"), "number")
        else:
            check_equal(r.status, 404, "status of fetching an unknown voucher")

    def op_wrong_method(self, method, i):
        before = self.effects()
        number = self.number(i)
        body = json.dumps({"voucher": number.decode("ascii")}).encode("ascii")
        path = b"/voucher" if method in ("POST", "DELETE") else b"/voucher/" + number
        r = self.ask(method, path, [], body)
        check(400 <= r.status < 500 or r.status == 501, "{} {} was answered {}", method, path, r)
        check(before == self.effects(), "{} {} had an effect", method, path)

    # -- oracle

    def expected_state(self, v):
        active = [a for a in self.pending if a.voucher == v.number]
        if v.spent is not None:
            return {"name": "double-spend", "finished": v.spent.isoformat()}
        if v.done == self.groups:
            return {
                "name": "redeemed",
                "finished": v.finished.isoformat(),
                "token-count": v.spendable,
            }
        if active:
            return {
                "name": "redeeming",
                "started": active[0].started.isoformat(),
                "counter": v.done,
            }
        if v.last is None:
            return {"name": "pending", "counter": v.done}
        if v.last[0] == "unpaid":
            return {"name": "unpaid", "finished": v.last[1].isoformat()}
        return {"name": "error", "finished": v.last[1].isoformat(), "details": v.last[2]}

    def check_json(self, v, got):
        want_state = self.expected_state(v)
        check(isinstance(got, dict), "representation {}", got)
        if v.disturbed and want_state["name"] in ("pending", "unpaid", "error"):
            # Whether that counts as an error of the redemption is left open.
            check(
                got["state"]["name"] in ("unpaid", "error")
                or got["state"] == {"name": "pending", "counter": v.done},
                "state after database trouble with {} groups redeemed is {}",
                v.done,
                got["state"],
            )
            want_state = got["state"]
        state = dict(got.get("state", {}))
        details = None
        if want_state["name"] == "error" and state.get("name") == "error":
            details = state["details"]
            check(
                isinstance(details, str) and want_state["details"] in details,
                "details of the error {} are {}",
                want_state,
                details,
            )
            state["details"] = want_state["details"]
        check_equal(state, want_state, f"state of {v.number!r}")
        check_equal(
            {k: x for k, x in got.items() if k != "state"},
            {
                "version": 1,
                "number": v.number.decode("ascii"),
                "expected-tokens": v.expected,
                "created": v.created.isoformat(),
            },
            "representation of a voucher",
        )

    def attempt(self, proc, voucher, counter, random_tokens):
        d = super().attempt(proc, voucher, counter, random_tokens)
        for a in self.pending:
            if a.d is d:
                a.started = self.now()
        return d

    def invariant(self):
        from _zkapauthorizer.model import Voucher

        super().invariant()
        r = self.ask("GET", "/voucher")
        check_equal(r.status, 200, "status of the list of vouchers")
        check_equal(r.headers.get("content-type"), ["application/json"], "content type")
        listed = r.json()
        check_equal(list(listed), ["vouchers"], "keys of the list of vouchers")
        listed = listed["vouchers"]
        check_equal(
            sorted(x["number"] for x in listed),
            sorted(n.decode("ascii") for n in self.vouchers),
            "vouchers listed",
        )
        for x in listed:
            v = self.vouchers[x["number"].encode("ascii")]
            self.check_json(v, x)
            r = self.ask("GET", "/voucher/" + x["number"])
            check_equal(r.status, 200, "status of fetching a voucher")
            check_equal(r.headers.get("content-type"), ["application/json"], "content type")
            check_equal(r.json(), x, "a voucher fetched, and listed")
            parsed = Voucher.from_json(r.body)
            check_equal(
                parsed,
                self.proc.controller.get_voucher(v.number),
                "the voucher its representation parses back to",
            )
            self.ctx.event("state:" + x["state"]["name"])


def cases():
    outcome = zk.weighted(
        (8, st.tuples(st.just("ok"), st.integers(0, 3))),
        (2, st.tuples(st.just("error"), st.integers(0, 9))),
        (1, st.tuples(st.just("unexpected"), st.just(0))),
        (2, st.tuples(st.just("unpaid"), st.just(0))),
        (1, st.tuples(st.just("spent"), st.just(0))),
        (2, st.tuples(st.just("later"), st.just(0))),
    )
    reply = st.sampled_from(["ok", "ok", "ok", "error", "unpaid", "spent"])
    i = st.integers(0, 7)
    n = st.integers(0, 200)
    ops = zk.weighted(
        (6, zk.op("submit", i, st.integers(0, 3))),
        (
            1,
            zk.op(
                "submit_in_trouble",
                i,
                st.sampled_from(["full", "locked", "unreadable"]),
                st.integers(0, 14),
                st.integers(1, 12),
            ),
        ),
        (3, zk.op("tick", st.sampled_from([0.000001, 0.25, 0.5, 1, 2, 60]))),
        (4, zk.op("deliver", st.integers(0, 3), reply, st.integers(0, 3))),
        (2, zk.op("restart", st.integers(16, 60))),
        (2, zk.op("bad_voucher", st.sampled_from(INVALID_KINDS), n)),
        (3, zk.op("bad_body", st.sampled_from(BODY_KINDS), n)),
        (1, zk.op("odd_voucher", st.integers(0, 3))),
        (1, zk.op("get_unknown", n)),
        (
            2,
            zk.op(
                "get_malformed",
                st.sampled_from(INVALID_KINDS + ["raw"] * 5),
                n,
                st.lists(st.integers(0, 255), min_size=1, max_size=43),
            ),
        ),
        (1, zk.op("get_quoted", i)),
        (1, zk.op("wrong_method", st.sampled_from(["POST", "DELETE", "PUT", "PATCH"]), i)),
    )

    @st.composite
    def build(draw):
        return {
            "groups": GROUPS,
            "default": GROUPS + draw(st.integers(0, 30)),
            "allowed": draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True)),
            "only_allowed": draw(st.booleans()),
            "replicate": False,
            "script": draw(zk.program(outcome, 0, 24)),
            "ops": draw(zk.program(ops, 1, 20)),
        }

    return build()


@CHECK.test(lambda: cases(), quick=1000)
def voucher_interface(case, ctx):
    w = WebWorld(case, ctx)
    w.run()
    if w.repeated and w.refused:
        ctx.nontrivial()
