"""Exploration of the states reachable by applying solving steps."""
from collections import deque

from mc import ref
from mc.lib import cflat, fail, flat, mk, need, show, snap

SINGLES = ("NakedSingle", "HiddenSingle")
NAKED = {"NakedPair": 2, "NakedTriple": 3, "NakedQuad": 4, "NakedQuint": 5}
HIDDEN = {"HiddenPair": 2, "HiddenTriple": 3, "HiddenQuad": 4, "HiddenQuint": 5}
POINTING = {"PointingPair": 2, "PointingTriple": 3}
FISH = {"XWing": 2, "Swordfish": 3, "Jellyfish": 4}
HUMAN = ("CalculateCandidates",) + SINGLES + (
    "NakedPair", "HiddenPair", "NakedTriple", "HiddenTriple", "NakedQuad", "HiddenQuad",
    "NakedQuint", "HiddenQuint", "PointingPair", "PointingTriple", "XWing", "Swordfish", "Jellyfish")


def technique(name):
    from sudokutools import solvers
    return getattr(solvers, name)


def key(step):
    """Observable description of a step."""
    return (type(step).__name__, frozenset(map(tuple, step.clues)),
            frozenset(map(tuple, step.affected)), frozenset(step.values))


def start(w, h, grid):
    """State after calculating the candidates."""
    return tuple(grid), tuple(frozenset(c) for c in ref.all_candidates(w, h, grid))


def build(w, h, state):
    return mk(w, h, state[0], state[1])


def find(name, s):
    return list(technique(name).find(s))


def find_all(s):
    """[(technique name, step)] of all human techniques."""
    res = []
    for name in HUMAN:
        for step in technique(name).find(s):
            res.append((name, step))
    return res


def bfs(w, h, grid, depth, visit, first=None):
    """Breadth first search over all states reachable by at most `depth` found
    steps. visit(state, sudoku) returns the found steps of the state."""
    N = w * h
    s0 = start(w, h, grid) if first is None else first
    seen = {s0}
    queue = deque([(s0, 0)])
    while queue:
        state, d = queue.popleft()
        s = build(w, h, state)
        steps = visit(state, s)
        if d >= depth:
            continue
        for name, step in steps:
            t = s.copy(include_candidates=True)
            step.apply(t)
            nxt = snap(t, N)
            if nxt not in seen:
                seen.add(nxt)
                queue.append((nxt, d + 1))
    return len(seen)


def path(w, h, grid, rot, mode, visit, limit=400):
    """One complete solving path: techniques in the order rotated by `rot`; of
    the first technique which finds anything, mode "all" applies every step while
    searching, "first"/"last" only that one. Visits every state in between."""
    N = w * h
    order = HUMAN[1:][rot:] + HUMAN[1:][:rot]
    s = build(w, h, start(w, h, grid))
    n = 0
    while n < limit:
        n += 1
        state = snap(s, N)
        visit(state, s)
        for name in order:
            cls = technique(name)
            if mode == "all":
                any_step = False
                for step in cls.find(s):
                    step.apply(s)
                    any_step = True
                if any_step:
                    break
            else:
                found = list(cls.find(s))
                if found:
                    (found[0] if mode == "first" else found[-1]).apply(s)
                    break
        else:
            return n
    fail("no end of solving %dx%d %s", w, h, show(grid))


def puzzles(w, h, v, ks, stride=1, offset=0, max_solutions=64):
    """4x4 puzzles: sub-patterns of a complete grid with k givens and few solutions."""
    from itertools import combinations
    from mc.domains import base
    g0 = base(w, h, v)
    i = 0
    for k in ks:
        for keep in combinations(range(len(g0)), k):
            i += 1
            if (i + offset) % stride:
                continue
            g = tuple([x if p in keep else 0 for p, x in enumerate(g0)])
            if ref.count_solutions(w, h, g, max_solutions + 1) <= max_solutions:
                yield g
