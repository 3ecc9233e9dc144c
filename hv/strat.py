"""Structured random generators over a recorded choice sequence, with shrinking.

Every primitive draws integers choice(n) in [0, n) from a Source, so a case is
determined by its choice sequence; shrinking edits that sequence (shorter and
smaller is simpler) and regenerates the case. Drop-in for the part of the
hypothesis.strategies API the properties use, but with uniform draws.
"""

import random


class Source:
    """Replays ``prefix`` (clamped), then draws from rng (or zeros)."""

    def __init__(self, prefix=(), rng=None, limit=20000):
        self.prefix = prefix
        self.rng = rng
        self.rec = []
        self.limit = limit

    def choice(self, n):
        k = len(self.rec)
        if k >= self.limit:
            v = 0
        elif k < len(self.prefix):
            v = min(self.prefix[k], n - 1)
        elif self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = 0
        self.rec.append(v)
        return v


class Strategy:
    def __init__(self, gen):
        self.gen = gen

    def map(self, f):
        return Strategy(lambda s: f(self.gen(s)))


def integers(lo, hi):
    assert lo <= hi, (lo, hi)
    return Strategy(lambda s: lo + s.choice(hi - lo + 1))


def booleans():
    return Strategy(lambda s: bool(s.choice(2)))


def just(v):
    return Strategy(lambda s: v)


def sampled_from(seq):
    seq = list(seq)
    assert seq
    return Strategy(lambda s: seq[s.choice(len(seq))])


def one_of(*opts):
    return Strategy(lambda s: opts[s.choice(len(opts))].gen(s))


def permutations(seq):
    seq = list(seq)

    def gen(s):
        out = list(seq)
        for i in range(len(out) - 1):
            j = i + s.choice(len(out) - i)
            out[i], out[j] = out[j], out[i]
        return out

    return Strategy(gen)


def lists(el, min_size=0, max_size=5, unique=False):
    def gen(s):
        n = min_size + s.choice(max_size - min_size + 1)
        out = []
        tries = 0
        while len(out) < n and tries < 20 * n + 20:
            tries += 1
            v = el.gen(s)
            if unique and v in out:
                continue
            out.append(v)
        return out

    return Strategy(gen)


def composite(f):
    def make(*a, **k):
        def gen(s):
            return f(lambda st: st.gen(s), *a, **k)

        return Strategy(gen)

    make.__name__ = f.__name__
    return make


def generate(strategy, seed):
    """(spec, choices)"""
    s = Source(rng=random.Random(seed))
    return strategy.gen(s), s.rec


def regenerate(strategy, choices):
    s = Source(prefix=choices)
    spec = strategy.gen(s)
    # drop unread choices and zeros that are the default anyway
    rec = s.rec
    while rec and rec[-1] == 0:
        rec = rec[:-1]
    return spec, rec


def shrink(strategy, choices, fails, more=lambda: True):
    """Smallest choice sequence found whose spec still fails; fails(spec) -> bool."""
    best = list(choices)
    seen = set()

    def key(c):
        return (len(c), sum(1 for x in c if x), c)

    def attempt(cand):
        nonlocal best
        if not more():
            return False
        t = tuple(cand)
        if t in seen:
            return False
        seen.add(t)
        try:
            spec, rec = regenerate(strategy, cand)
        except Exception:
            return False
        if key(rec) < key(best) and fails(spec):
            best = rec
            return True
        return False

    improved = True
    while improved and more():
        improved = False
        for k in (64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best) - k
            while i >= 0 and more():
                if attempt(best[:i] + best[i + k:]):
                    improved = True
                else:
                    # deleting an element often needs a smaller count before it
                    for back in (1, 2, 3):
                        j = i - back
                        if j >= 0 and best[j] > 0 and i + k <= len(best):
                            if attempt(best[:j] + [best[j] - 1] + best[j + 1:i] + best[i + k:]):
                                improved = True
                                break
                i -= 1
                i = min(i, len(best) - k)
        for k in (16, 8, 4, 2):
            i = len(best) - k
            while i >= 0 and more():
                if any(best[i:i + k]) and attempt(best[:i] + [0] * k + best[i + k:]):
                    improved = True
                i -= k
                i = min(i, len(best) - k)
        i = 0
        while i < len(best) and more():
            v = best[i]
            if v:
                for w in sorted({0, 1, v // 2, v - 1}):
                    if w < v and i < len(best) and best[i] == v and attempt(best[:i] + [w] + best[i + 1:]):
                        improved = True
                        break
            i += 1
    return best
