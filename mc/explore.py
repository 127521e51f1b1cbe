"""Exhaustive stateless exploration by re-execution of choice sequences."""


class Diverged(BaseException):
    """A replayed prefix met a different number of alternatives: the run is not deterministic."""


class Chooser:
    """Replays prefix, then takes alternative 0.  dev: remaining budget of non-default
    choices (None: unbounded, every alternative of every point is explored)."""
    def __init__(self, prefix=(), dev=None):
        self.prefix, self.trace, self.dev = list(prefix), [], dev

    def choose(self, n, free=False):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise Diverged('choice %d of %d at point %d' % (c, n, i))
        self.trace.append((c, n, free))
        return c

    def choices(self):
        return [t[0] for t in self.trace]


def dfs(run, dev=None, roots=((),), limit=None):
    """run(chooser) for every choice sequence; yields (chooser, value) per execution.

    With dev=k only sequences with at most k non-default, non-free choices are run."""
    count = 0
    for root in roots:
        root = list(root)
        prefix = list(root)
        while True:
            ch = Chooser(prefix)
            val = run(ch)
            count += 1
            yield ch, val
            t = ch.trace
            nxt = None
            used = [0]
            for x in t:
                used.append(used[-1] + (1 if x[0] and not x[2] else 0))
            for i in range(len(t) - 1, len(root) - 1, -1):
                c, n, free = t[i]
                if c + 1 < n:
                    if dev is not None:
                        if not free and used[i] + 1 > dev:
                            continue
                    nxt = [x[0] for x in t[:i]] + [c + 1]
                    break
            if nxt is None:
                break
            if limit is not None and count >= limit:
                raise RuntimeError('exploration limit hit: bounds are wrong')
            prefix = nxt


def frontier(ch, fixed, dev=None):
    """Roots of all subtrees not yet explored after the execution ch of a DFS below its first `fixed` choices."""
    out = []
    t = ch.trace
    used = sum(1 for x in t[:fixed] if x[0] and not x[2])
    for i in range(fixed, len(t)):
        c, n, free = t[i]
        before = used
        used += 1 if c and not free else 0
        if dev is not None and not free and before + 1 > dev:
            continue
        for a in range(c + 1, n):
            out.append([x[0] for x in t[:i]] + [a])
    return out
