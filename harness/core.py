"""Case runner: generated search (Hypothesis) with JSON cases, shrinking, replay
and evidence.  Every case is a JSON value, so a shrunk failure is replayed
without Hypothesis by `python -m harness.replay FILE`."""

import contextlib
import hashlib
import importlib
import json
import os
import signal
import sys
import threading
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(AssertionError):
    """The property does not hold for this case."""


class Reject(Exception):
    """The case is outside the domain of the property (counted, not judged)."""


class Sub:
    """One generated check of a property.

    name      : identifies the check in replay files
    strategy  : zero-argument callable giving a Hypothesis strategy of JSON cases
    check     : case -> None or dict(nontrivial=bool, labels=[...])
    quick     : number of generated cases over all shards, quick tier
    thorough  : ditto, thorough tier
    """

    def __init__(self, name, strategy, check, quick, thorough=None, shards=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.shards = shards


def key_of(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True).encode()
    ).hexdigest()[:16]


def derive_seed(*parts):
    s = "/".join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(s.encode()).digest()[:6], "big")


def load_property(pid):
    return importlib.import_module(f"harness.props.{pid.lower()}")


def is_env_error(exc):
    if isinstance(exc, MemoryError):
        # workers have an address space limit (worker.py) that is many times
        # what a case needs: running into it inside the library is a runaway
        return not through_library(exc)
    return isinstance(exc, KeyboardInterrupt) or (
        isinstance(exc, OSError) and exc.errno in (28, 24, 12, 30)
    )


def through_library(exc):
    """Did the exception pass through the code under test (or the refnx
    machinery that it configures)?"""
    tb = exc.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + os.sep) or f"{os.sep}refnx{os.sep}" in fn:
            return True
        tb = tb.tb_next
    return False


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.format_exception(type(exc), exc, exc.__traceback__)
    where = (
        "exception on an input in the domain: "
        if through_library(exc)
        # what the library handed out could not be used as documented: no such
        # exception occurs with answers of the documented type
        else "an answer of an unusable kind (exception when examining it): "
    )
    return where + "".join(tb[-6:])


class Hang(Violation):
    pass


CASE_SECONDS = 150  # a case takes milliseconds to a few seconds


@contextlib.contextmanager
def time_limit(seconds):
    """A case that doesn't come to an end is a violation."""
    if threading.current_thread() is not threading.main_thread():
        yield
        return

    def stop(signum, frame):
        raise Hang(f"no answer within {seconds} s")

    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def run_case(sub, case):
    """Run one case. Returns (status, info): ok / violation / reject.
    Raises anything that is an error of the harness or of the sandbox."""
    import numpy as np

    # cases only ever contain JSON values: work on a copy
    case = json.loads(json.dumps(case))
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            with time_limit(CASE_SECONDS):
                out = sub.check(case) or {}
        except Reject as e:
            return "reject", str(e)
        except Violation as e:
            return "violation", describe(e)
        except Exception as e:
            if is_env_error(e):
                raise
            return "violation", describe(e)
    return "ok", out


class _Fail(AssertionError):
    pass


class Search:
    """Hypothesis search of one Sub in one shard."""

    SHRINK_CALLS = 1500
    SHRINK_SECONDS = 40.0

    def __init__(self, pid, sub, n, seed, deadline):
        self.pid, self.sub, self.n, self.seed = pid, sub, n, seed
        self.deadline = deadline
        self.evaluations = 0
        self.rejected = 0
        self.skipped = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.failing = {}
        self.last_fail = None
        self.first_fail_t = None
        self.calls_after = 0
        self.error = None

    def one(self, case):
        k = key_of(case)
        if self.error is not None:
            return
        if self.first_fail_t is not None:
            if k in self.failing:
                self.last_fail = case
                raise _Fail(self.failing[k])
            self.calls_after += 1
            if (
                self.calls_after > self.SHRINK_CALLS
                or time.time() - self.first_fail_t > self.SHRINK_SECONDS
            ):
                return
        elif time.time() > self.deadline:
            self.skipped += 1
            return
        try:
            status, info = run_case(self.sub, case)
        except BaseException as e:  # an error of the harness: stop, exit 2
            self.error = (
                f"{self.pid}/{self.sub.name}: harness error on case "
                f"{json.dumps(case)[:2000]}\n"
                + "".join(
                    traceback.format_exception(type(e), e, e.__traceback__)
                )
            )
            return
        if self.first_fail_t is None:
            self.evaluations += 1
        if status == "reject":
            self.rejected += 1
            return
        if status == "violation":
            if self.first_fail_t is None:
                self.first_fail_t = time.time()
            self.failing[k] = info
            self.last_fail = case
            raise _Fail(info)
        for lab in info.get("labels", ()):
            self.labels[lab] = self.labels.get(lab, 0) + 1
        if info.get("nontrivial", True):
            if k not in self.keys and len(self.samples) < 2:
                self.samples.append(case)
            self.keys.add(k)

    def run(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        from . import uniform  # noqa: F401  registers the backend

        @hypothesis.seed(self.seed)
        @settings(
            max_examples=self.n,
            deadline=None,
            database=None,
            backend="uniform",
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
        )
        @given(self.sub.strategy())
        def test(case):
            self.one(case)

        try:
            test()
        except _Fail:
            pass
        except BaseException:
            if self.last_fail is None:
                self.error = self.error or traceback.format_exc()
        return self.result()

    def result(self):
        r = dict(
            sub=self.sub.name,
            evaluations=self.evaluations,
            rejected=self.rejected,
            skipped=self.skipped,
            keys=sorted(self.keys),
            labels=self.labels,
            samples=self.samples,
            error=self.error,
            fail=None,
        )
        if self.last_fail is not None and self.error is None:
            r["fail"] = dict(
                case=self.last_fail,
                message=self.failing[key_of(self.last_fail)],
            )
        return r


def regression_cases(pid):
    p = os.path.join(VERIF, "regressions", f"{pid}.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.strip():
                    d = json.loads(line)
                    yield d["sub"], d["case"]


def setup_imports():
    os.environ.setdefault("MPLBACKEND", "Agg")
    v = os.path.join(VERIF, "vendor")
    for p in (v, REPO):
        while p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, v)
    sys.path.insert(0, REPO)
    # the code under test is always compiled from the present source
    from importlib.machinery import SourceFileLoader

    get_code = SourceFileLoader.get_code

    def fresh(self, fullname):
        if os.path.abspath(self.path).startswith(REPO + os.sep):
            return self.source_to_code(self.get_data(self.path), self.path)
        return get_code(self, fullname)

    if get_code.__name__ != "fresh":
        SourceFileLoader.get_code = fresh
    import refellips

    if not os.path.abspath(refellips.__file__).startswith(REPO + os.sep):
        raise RuntimeError(f"refellips imported from {refellips.__file__}")
