"""Exhaustive explorers."""
from __future__ import annotations

import itertools
from collections import deque


def multisets(alphabet, n):
    return itertools.combinations_with_replacement(alphabet, n)


def grow(alphabet, depth, start=()):
    """Breadth-first search over the histories 'append one observation'; states are canonical (sorted) multisets.
    Yields (state, parents...) level by level: every multiset of at most `depth` values."""
    seen = {tuple(sorted(start))}
    frontier = deque(seen)
    while frontier:
        s = frontier.popleft()
        yield s
        if len(s) < depth:
            for a in alphabet:
                t = tuple(sorted(s + (a,)))
                if t not in seen:
                    seen.add(t)
                    frontier.append(t)


def subsets_upto(items, kmax, kmin=0):
    items = list(items)
    for k in range(kmin, kmax + 1):
        yield from itertools.combinations(items, k)


class Chooser:
    """Answers every nondeterministic choice of one execution: replays `prefix`, then takes answer 0, and remembers
    how many answers there were.  `explore_choices` walks the whole tree, never sampling."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []  # (answer, number of answers)

    def pick(self, n):
        i = len(self.trace)
        if i < len(self.prefix):
            a = self.prefix[i]
            if a >= n:
                raise RuntimeError("replay diverged: fewer answers than in the recorded execution")
        else:
            a = 0
        self.trace.append((a, n))
        return a


def explore_choices(run, max_execs=None):
    """run(chooser) executes once; returns the number of executions. Depth-first over all answers."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        run(ch)
        n += 1
        if max_execs and n >= max_execs:
            raise RuntimeError("choice tree larger than the stated bound")
        for i in range(len(ch.trace) - 1, len(prefix) - 1, -1):
            a, k = ch.trace[i]
            for alt in range(k - 1, a, -1):
                stack.append([t[0] for t in ch.trace[:i]] + [alt])
    return n
