"""Linearizability of one object from the program-ordered histories of several clients.

Every client history is a list of (inv, res, op); op is applied by step(state, op) -> list of successor states
(empty: the recorded response is impossible in that state).  Program order of one client is respected.
pure(op) says that op, given its recorded response, cannot have changed the state wherever it is linearized (a read, or
a refused statement).  Only those may be consumed as soon as they fit: a write that happens to change nothing in the
current state (or one whose outcome is unknown) may still have taken effect in a later one."""


class Limit(Exception):
    pass


def check(hist, init, step, pure, limit=400000):
    """hist: list of per-client lists.  Returns (True, None) or (False, furthest) ; raises Limit."""
    hist = [h for h in hist if h]
    n = len(hist)
    ends = [len(h) for h in hist]
    start = tuple([0] * n)
    seen = set()
    stack = [(start, s) for s in init]
    best = (-1, None)
    nodes = 0
    while stack:
        pos, st = stack.pop()
        # greedy: pure steps commute with each other, and taking them early only relaxes what follows
        moved = True
        pos = list(pos)
        while moved:
            moved = False
            horizon = None
            for c in range(n):
                if pos[c] < ends[c]:
                    r = hist[c][pos[c]][1]
                    if horizon is None or r < horizon:
                        horizon = r
            if horizon is None:
                return True, st
            for c in range(n):
                while pos[c] < ends[c]:
                    inv, res, op = hist[c][pos[c]]
                    if inv > horizon:
                        break
                    if pure(op) and step(st, op):
                        pos[c] += 1
                        moved = True
                    else:
                        break
        pos = tuple(pos)
        key = (pos, st)
        if key in seen:
            continue
        seen.add(key)
        nodes += 1
        if nodes > limit:
            raise Limit()
        done = sum(pos)
        if done > best[0]:
            best = (done, (pos, st))
        horizon = min(hist[c][pos[c]][1] for c in range(n) if pos[c] < ends[c])
        for c in range(n):
            if pos[c] < ends[c] and hist[c][pos[c]][0] <= horizon:
                for s2 in step(st, hist[c][pos[c]][2]):
                    p2 = list(pos)
                    p2[c] += 1
                    stack.append((tuple(p2), s2))
    pos, st = best[1]
    return False, dict(state=repr(st), linearized=best[0],
                       pending=[(hist[c][pos[c]] if pos[c] < ends[c] else None) for c in range(n)],
                       before=[hist[c][max(0, pos[c] - 3):pos[c]] for c in range(n)])
