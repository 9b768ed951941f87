"""Random generators whose draws are chosen by the explorer instead of by chance."""
from __future__ import annotations

import numpy as np


class Scripted(np.random.Generator):
    """Answers choice() from a script of index lists; every other draw comes from a fixed stream."""

    def __new__(cls, script, seed=0):
        return super().__new__(cls, np.random.PCG64(seed))

    def __init__(self, script, seed=0):
        super().__init__(np.random.PCG64(seed))
        self.script = [list(s) for s in script]
        self.pos = 0
        self.asked = []

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        self.asked.append((a if np.isscalar(a) else len(a), size))
        if self.pos >= len(self.script):
            return super().choice(a, size=size, replace=replace, p=p)
        s = self.script[self.pos]
        self.pos += 1
        pool = np.arange(a) if np.isscalar(a) else np.asarray(a)
        if size is None:
            return pool[s[0] % len(pool)]
        k = int(np.prod(size))
        if len(s) != k or max(s) >= len(pool):
            raise ScriptMismatch(f"asked for {k} of {len(pool)}, script holds {s}")
        return pool[np.array(s)].reshape(size)

    @property
    def used(self):
        return self.pos


class ScriptMismatch(BaseException):
    """the code draws differently from what the script was written for"""
