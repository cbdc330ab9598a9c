"""
Core of the property-based checks.

A check module defines tests with ``@test(...)``.  Each test has a Hypothesis
strategy that yields a *plain data* case (JSON-able, bytes allowed) and a
function ``run(case, ctx)`` that executes the case against the code in /repo
and an oracle, raising ``Violation`` when they disagree.  All randomness lives
in the strategy, so a case is the complete replay.
"""

import base64
import hashlib
import json
import os
import signal
import sys
import time
import traceback
from collections import Counter

REPO_SRC = os.environ.get("ZKAP_SRC", "/repo/src")
SUT = os.path.join(REPO_SRC, "_zkapauthorizer") + os.sep
SUT_TESTS = os.path.join(SUT, "tests") + os.sep


#: What was found wrong while the current case ran.  The code under test may
#: well swallow an exception which is raised in something it calls.
_found = []


class Violation(AssertionError):
    """The property does not hold for this case."""

    def __init__(self, *a):
        AssertionError.__init__(self, *a)
        _found.append(self)


class HarnessError(Exception):
    """The harness could not drive the case; says nothing about the property."""

    def __init__(self, *a):
        Exception.__init__(self, *a)
        _found.append(self)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def check_equal(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {short(got)}, expected {short(want)}")


def short(x, n=700):
    r = repr(x)
    return r if len(r) <= n else r[: n - 3] + "..."


# -- plain data encoding --------------------------------------------------


def encode(x):
    if isinstance(x, bytes):
        return {"$b": base64.b64encode(x).decode("ascii")}
    if isinstance(x, (list, tuple)):
        return [encode(e) for e in x]
    if isinstance(x, dict):
        assert all(isinstance(k, str) for k in x), x
        return {"$d": [[k, encode(v)] for k, v in x.items()]}
    if isinstance(x, (set, frozenset)):
        return {"$s": sorted(encode(e) for e in x)}
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    raise HarnessError(f"case holds non-plain data: {type(x)} {x!r}")


def decode(x):
    if isinstance(x, list):
        return [decode(e) for e in x]
    if isinstance(x, dict):
        if "$b" in x:
            return base64.b64decode(x["$b"])
        if "$s" in x:
            return set(decode(e) for e in x["$s"])
        return {k: decode(v) for k, v in x["$d"]}
    return x


# -- tests -----------------------------------------------------------------


class Test:
    def __init__(self, fn, name, strategy, quick, thorough, shards):
        self.fn = fn
        self.name = name
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough
        self.shards = shards


class Check:
    """The tests that decide one property."""

    def __init__(self, property_id, rule, assumptions=(), level="exploration"):
        self.property_id = property_id
        self.rule = rule
        self.assumptions = list(assumptions)
        self.level = level
        self.tests = []

    def test(self, strategy, quick, thorough=None, name=None):
        """
        :param strategy: a Hypothesis strategy, or a callable returning one
            (evaluated in the worker).
        :param quick: total number of examples over all shards in quick tier.
        """

        def deco(fn):
            self.tests.append(
                Test(
                    fn,
                    name or fn.__name__,
                    strategy,
                    quick,
                    thorough if thorough is not None else quick * 15,
                    None,
                )
            )
            return fn

        return deco


class Ctx:
    """What a running case reports about itself."""

    def __init__(self, stats, known):
        self._stats = stats
        self.known_findings = known
        self.is_nontrivial = False
        self._cleanups = []

    def event(self, label):
        self._stats.events[label] += 1

    def nontrivial(self):
        self.is_nontrivial = True

    def cleanup(self, fn, *a):
        self._cleanups.append((fn, a))

    def known(self, finding, text):
        """
        Report a failure of a listed known finding.  Raises Violation if the
        finding is not listed.
        """
        if finding not in self.known_findings:
            raise Violation(text)
        self._stats.known[finding] = text

    def _run_cleanups(self):
        while self._cleanups:
            fn, a = self._cleanups.pop()
            try:
                fn(*a)
            except Exception:
                traceback.print_exc()

    def tempdir(self):
        import shutil
        import tempfile

        d = tempfile.mkdtemp(prefix="pbt-case-", dir=scratch_root())
        self.cleanup(lambda: shutil.rmtree(d, ignore_errors=True))
        return d


def scratch_root():
    d = os.environ.get("PBT_SCRATCH")
    if not d:
        d = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    return d


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.nontrivial = set()
        self.events = Counter()
        self.samples = []
        self.known = {}
        self.per_test = Counter()

    def to_json(self):
        return {
            "evaluations": self.evaluations,
            "skipped": self.skipped,
            "nontrivial": sorted(self.nontrivial),
            "events": dict(self.events),
            "samples": self.samples,
            "known": self.known,
            "per_test": dict(self.per_test),
        }


def digest(test_name, encoded):
    data = test_name + json.dumps(encoded, sort_keys=True)
    return hashlib.sha256(data.encode("utf-8")).hexdigest()[:16]


def classify_exception(exc):
    """
    :return: "violation" if the exception tells about the code under test,
        "harness" otherwise.
    """
    if isinstance(exc, Violation):
        return "violation"
    if isinstance(exc, (HarnessError, MemoryError, KeyboardInterrupt)):
        return "harness"
    if isinstance(exc, AssertionError):
        # A plain assert: ours or the code's own.
        pass
    frames = traceback.extract_tb(exc.__traceback__)
    in_sut = any(
        f.filename.startswith(SUT) and not f.filename.startswith(SUT_TESTS)
        for f in frames
    )
    if in_sut and not isinstance(exc, (ImportError,)):
        return "violation"
    # An exception delivered through a Failure loses its frames; see zk.sync.
    f = getattr(exc, "_pbt_from_sut", False)
    return "violation" if f else "harness"


HANG_CPU_SECONDS = int(os.environ.get("PBT_HANG_CPU", "90"))


class Hang(BaseException):
    pass


#: How often the current case was told that it takes too long, and what to do
#: if it does not listen.
_hangs = 0
_give_up = None


def _on_hang(signum, frame):
    global _hangs
    _hangs += 1
    if _hangs > 5 and _give_up is not None:
        _give_up()
    raise Hang()


def execute(test, encoded, ctx):
    """Run one case; returns None or raises."""
    global _hangs
    _hangs = 0
    del _found[:]
    signal.signal(signal.SIGVTALRM, _on_hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, HANG_CPU_SECONDS, 2)
    try:
        test.fn(decode(encoded), ctx)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        ctx._run_cleanups()
    if _hangs:
        raise Hang()
    if _found:
        raise _found[0]


def describe(exc):
    tb = traceback.format_exception(type(exc), exc, exc.__traceback__)
    text = "".join(tb)
    return text[-6000:]


def load_known(property_id):
    path = os.path.join(
        os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
        "known_findings.json",
    )
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {
        k["id"]: k["what"]
        for k in data.get("findings", [])
        if k["property"] == property_id
    }


def run_worker(chk, tier, seed, shard, nshards, budget_s, bail=None):
    """
    Run this shard's part of every test of a check.

    :param bail: What to call with the result if a case cannot be ended.

    :return: a result dict.
    """
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine as _engine

    try:
        _engine.MAX_SHRINKING_SECONDS = 60 if tier == "quick" else 200
    except Exception:
        pass

    known = load_known(chk.property_id)
    stats = Stats()
    started = time.monotonic()
    result = {"violation": None, "error": None}

    for test in chk.tests:
        total = test.quick if tier == "quick" else test.thorough
        n = total // nshards + (1 if shard < total % nshards else 0)
        if n == 0:
            continue
        tseed = int.from_bytes(
            hashlib.sha256(
                f"{seed}/{chk.property_id}/{test.name}/{shard}".encode()
            ).digest()[:8],
            "big",
        )
        last = {}
        seen = [0]
        # The first few examples Hypothesis makes are small ones.  They are
        # left out where there are only a few.
        skip = [11 if n < 60 else 0]
        deadline = started + budget_s

        # The function is used up before the loop variables change.
        def inner(case):
            if time.monotonic() > deadline and "exc" not in last:
                stats.skipped += 1
                return
            if skip[0]:
                skip[0] -= 1
                return
            encoded = encode(case)
            ctx = Ctx(stats, known)
            if "exc" not in last:
                stats.evaluations += 1
                stats.per_test[test.name] += 1
            hang = {
                "test": test.name,
                "case": encoded,
                "error": f"no result after {HANG_CPU_SECONDS} s of CPU time",
            }

            def give_up():
                result["violation"] = hang
                result["stats"] = stats.to_json()
                bail(result)

            global _give_up
            _give_up = None if bail is None else give_up
            try:
                execute(test, encoded, ctx)
            except Hang:
                # Shrinking a hang would take forever: report it as it is.
                raise _Abort(hang)
            except hypothesis.errors.HypothesisException:
                raise
            except Exception as e:
                last["case"] = encoded
                last["exc"] = e
                last["text"] = describe(e)
                last["kind"] = classify_exception(e)
                raise
            if ctx.is_nontrivial and "exc" not in last:
                d = digest(test.name, encoded)
                if d not in stats.nontrivial:
                    stats.nontrivial.add(d)
                    seen[0] += 1
                    # Later ones tend to be less simple than the first.
                    if seen[0] in (1, 10, 25):
                        text = json.dumps(encoded)
                        stats.samples.append(
                            {
                                "test": test.name,
                                "case": encoded if len(text) < 3000 else text[:3000],
                            }
                        )

        strategy = test.strategy() if callable(test.strategy) else test.strategy
        wrapped = hypothesis.seed(tseed)(
            settings(
                max_examples=n + skip[0],
                database=None,
                deadline=None,
                print_blob=False,
                report_multiple_bugs=False,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=[
                    HealthCheck.too_slow,
                    HealthCheck.data_too_large,
                    HealthCheck.large_base_example,
                    HealthCheck.filter_too_much,
                ],
            )(given(strategy)(inner))
        )
        try:
            with _quiet():
                wrapped()
        except _Abort as e:
            result["violation"] = e.args[0]
            break
        except Exception as e:
            if "exc" not in last:
                result["error"] = describe(e)
                break
            if last["kind"] == "violation":
                result["violation"] = {
                    "test": test.name,
                    "case": last["case"],
                    "error": last["text"],
                }
            else:
                result["error"] = (
                    f"harness error in {test.name} on case "
                    f"{json.dumps(last['case'])[:3000]}\n{last['text']}"
                )
            break
    result["stats"] = stats.to_json()
    return result


class _Abort(BaseException):
    pass


class _quiet:
    """Hide Hypothesis' own report printing (we write our own)."""

    def __enter__(self):
        import io

        self._old = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        sys.stdout = self._old


def replay(chk, path):
    with open(path) as f:
        data = json.load(f)
    known = load_known(chk.property_id)
    for test in chk.tests:
        if test.name == data["test"]:
            ctx = Ctx(Stats(), known)
            try:
                execute(test, data["case"], ctx)
            except Hang:
                print("hang")
                return 1
            except Exception as e:
                kind = classify_exception(e)
                print(describe(e))
                if kind == "violation":
                    print(f"VIOLATION property={chk.property_id} replay={path}")
                    return 1
                return 2
            print(f"held: property={chk.property_id} replay={path}")
            return 0
    print("no such test", data["test"])
    return 2
