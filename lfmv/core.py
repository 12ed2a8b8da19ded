"""
Core of the monitoring framework: case execution, verdicts, evidence.

A check is a module with
    PROPERTY          id
    RULE              how cases are made / what is non-trivial (evidence)
    REQUIRED          {counter: minimum} that must have been observed (otherwise inconclusive)
    cases(tier, seed) -> list of JSON-able dicts
    run(case, obs)    executes the real code and reports to the observer `obs`
"""
import contextlib
import hashlib
import io
import os
import sys
import traceback

REPO = os.environ.get('LFMV_REPO', '/repo')

_lom = None


def load():
    """import the library under test from the repository's working tree."""
    global _lom
    if _lom is None:
        sys.path.insert(0, REPO)
        with quiet():
            import lom
            import lom.experiments
        here = os.path.realpath(lom.__file__)
        assert here.startswith(os.path.realpath(REPO) + os.sep), here
        _lom = lom
    return _lom


@contextlib.contextmanager
def quiet():
    """swallow what the library prints."""
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = old


class Violated(Exception):
    def __init__(self, mech, msg):
        Exception.__init__(self, msg)
        self.mech, self.msg = mech, msg


class Inconclusive(Exception):
    pass


class StepLimit(Exception):
    """raised out of an instrumented call when a logical step bound is exceeded."""


class Api(object):
    """`with API('what'):` any exception of the library on valid input is a violation."""

    def __init__(self, what, allow=()):
        self.what, self.allow = what, allow

    def __enter__(self):
        self.q = quiet()
        self.out = self.q.__enter__()
        return self

    def __exit__(self, et, ev, tb):
        self.q.__exit__(None, None, None)
        if et is None or issubclass(et, (Violated, Inconclusive, StepLimit, KeyboardInterrupt, CaseTimeout)):
            return False
        if self.allow and issubclass(et, self.allow):
            return False
        if issubclass(et, MemoryError):
            raise Inconclusive('out of memory')
        last = traceback.extract_tb(tb)[-3:]
        where = ' <- '.join('%s:%s(%s)' % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(last))
        raise Violated('exception', '%s raised %s: %s [%s]' % (self.what, et.__name__, str(ev)[:200], where)) from None


class CaseTimeout(BaseException):
    pass


class Observer(object):
    """collects what the monitors of one case observed."""

    def __init__(self):
        self.evals = 0
        self.keys = set()
        self.counters = {}
        self.violations = []
        self.sample = None

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def saw(self, *key):
        """a distinct non-trivial observation, identified by its content."""
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def ok(self, cond, mech, msg, n=1):
        """one oracle decision."""
        self.evals += n
        if not cond:
            self.fail(mech, msg() if callable(msg) else msg)
        return cond

    def fail(self, mech, msg):
        raise Violated(mech, msg)


def digest(*arrays):
    h = hashlib.blake2b(digest_size=12)
    import numpy as np
    for a in arrays:
        a = np.asarray(a)
        h.update(str((a.shape, a.dtype.str)).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()


def seed_of(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=4).digest()
    return int.from_bytes(h, 'little')
