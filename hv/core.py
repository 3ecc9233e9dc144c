"""Shared vocabulary of the checks: violations, SUT guards, per-case context."""

import contextlib
import hashlib
import json
import math


class Violation(Exception):
    """The property does not hold for the current case."""


class Discard(Exception):
    """The generated case lies outside the property's domain (counted, never silent)."""


class Case:
    """Per-case bookkeeping handed to ``check(spec, case)``."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False
        self.excluded = None

    def label(self, *names):
        self.labels.update(names)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def ensure(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


@contextlib.contextmanager
def sut(what, allow=()):
    """Run code of the system under test on an input it must accept."""
    try:
        yield
    except (Violation, Discard):
        raise
    except allow:
        raise
    except (Exception, SystemExit) as e:
        raise Violation(
            "%s: raised %s: %s" % (what, type(e).__name__, str(e)[:500])
        ) from e


def expect_raises(what, exc, fn):
    """fn() must raise exc."""
    try:
        r = fn()
    except exc:
        return
    except Violation:
        raise
    except (Exception, SystemExit) as e:
        raise Violation(
            "%s: expected %s, got %s: %s"
            % (what, getattr(exc, "__name__", exc), type(e).__name__, str(e)[:300])
        ) from e
    raise Violation(
        "%s: expected %s, but it was accepted and gave %.200r"
        % (what, getattr(exc, "__name__", exc), r)
    )


def is_missing(v):
    if v is None:
        return True
    try:
        return bool(v != v)
    except Exception:
        return False


def same(a, b, tol=1e-9):
    """Value equality: missing == missing; numbers within a relative tolerance."""
    ma, mb = is_missing(a), is_missing(b)
    if ma or mb:
        return ma and mb
    if isinstance(a, (bool, str)) or isinstance(b, (bool, str)):
        return a == b
    try:
        fa, fb = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if math.isinf(fa) or math.isinf(fb):
        return fa == fb
    if fa == fb:
        return True
    return abs(fa - fb) <= tol * max(1.0, abs(fa), abs(fb))


def canon_json(spec):
    return json.dumps(spec, sort_keys=True, separators=(",", ":"))


def spec_hash(spec):
    return hashlib.sha1(canon_json(spec).encode()).hexdigest()[:16]
