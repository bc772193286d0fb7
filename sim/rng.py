"""Randomness seam: while active, every unseeded generator the code under test creates, and the global one, draws from the plan's seed, or
from an adversarial pattern."""
import contextlib
import random

import numpy as np

_RS, _DR = np.random.RandomState, np.random.default_rng


class Pattern(_RS):
    """Uniform draws follow a pattern (0: lower bound, 1: upper bound, ...) instead of being spread evenly."""

    def __init__(self, pattern):
        super().__init__(0)
        self._p = pattern
        self._i = 0

    def _u(self, size):
        n = 1 if size is None else int(np.prod(size))
        v = np.array([self._p[(self._i + j) % len(self._p)] for j in range(n)], dtype=float)
        self._i += n
        return float(v[0]) if size is None else v.reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._u(size)

    def random_sample(self, size=None):
        return self._u(size)

    def random(self, size=None):
        return self._u(size)

    def rand(self, *size):
        return self._u(size or None)


@contextlib.contextmanager
def seam(seed, pattern=None):
    """Every call of the constructor inside yields the same stream, as a fresh process with that entropy would."""
    def rs(s=None):
        if s is not None:
            return _RS(s)
        return Pattern(pattern) if pattern else _RS(seed)

    def dr(s=None):
        if s is not None:
            return _DR(s)
        return Pattern(pattern) if pattern else _DR(seed)
    state = np.random.get_state()
    pstate = random.getstate()
    np.random.seed(seed)
    random.seed(seed)
    np.random.RandomState, np.random.default_rng = rs, dr
    try:
        yield
    finally:
        np.random.RandomState, np.random.default_rng = _RS, _DR
        np.random.set_state(state)
        random.setstate(pstate)
