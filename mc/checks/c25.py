"""C25: undo and redo in the game walk the exact history."""
from itertools import product

from mc import game, ref
from mc.lib import fail, show
from mc.domains import corpus

ID = "C25"
RULE = ("explicit-state exploration of the history: every sequence of game commands over several alphabets up to a depth is "
        "played; the boards (numbers and candidates) shown before each prompt must be those of a list with a position, "
        "filled with the boards shown after the moves")
BOUNDS = {"quick": "4 commands to depth 6-7, 7 commands to depth 5, 12 commands and 20 commands to depth 3, on 3 puzzles; "
                   "walks to 1025 moves and back",
          "thorough": "4 commands to depth 9, 7 commands to depth 6, 12 commands to depth 5, 20 commands to depth 4"}


def puzzle(i):
    """A puzzle with one solution; the more is empty the larger i."""
    g = corpus((4, 0, 6)[i])
    sol = ref.solutions(3, 3, g, 2)
    if len(sol) != 1:
        raise ValueError("puzzle %d" % i)
    sol = sol[0]
    if i == 0:
        return tuple(0 if k % 9 == 0 or k in (10, 20, 40) else v for k, v in enumerate(sol))
    if i == 1:
        return tuple(v if g[k] or k % 2 else 0 for k, v in enumerate(sol))
    return g


_cache = {}


def words(i):
    """Named moves on puzzle i."""
    if i in _cache:
        return _cache[i]
    g = puzzle(i)
    sol = ref.solutions(3, 3, g)[0]
    geo = ref.geo(3, 3)
    empty = [k for k, v in enumerate(g) if not v]
    cands = [ref.candidates(3, 3, g, k) for k in range(81)]

    def at(k):
        return "r%dc%d" % (k // 9 + 1, k % 9 + 1)
    several = [k for k in empty if len(cands[k]) > 1] or empty
    a = several[0]
    b = next(k for k in reversed(empty) if k != a and k not in geo.fpeers[a])
    c = next(k for k in several if k not in (a, b))
    other = next((v for v in sorted(cands[a]) if v != sol[a]), 0)
    given = next(k for k, v in enumerate(g) if v)
    d = next(k for k in empty if k not in (a, b, c))
    two = "%s,%s" % (at(c), at(d))
    _cache[i] = {
        "a": "%s=%d" % (at(a), sol[a]),
        "A": "%s=%d" % (at(a), other),
        "b": "%s = %d" % (at(b), sol[b]),
        "B": "%s=0" % at(b),
        "c": "%s<>%d" % (at(c), min(cands[c])),
        "C": "-%s %s" % ("".join(str(v) for v in sorted(cands[c])), at(c)),
        "d": "%s<>%d%d" % (two, sol[d], max(cands[c])),
        "g": "%s=%d" % (at(given), g[given]),
        "n": "%s<>%s" % (at(c), "".join(str(v) for v in range(1, 10) if v not in cands[c])),
        "u": "undo", "r": "redo", "k": "candidates", "h": "hint", "e": "", "?": "nonsense", "s": "settings", "x": "check",
        "f": "conflicts", "q": "r1c1=", "z": "r0c1=5"}
    return _cache[i]


MOVES = "aAbBcCdk"

SETS = ["abur", "aBur", "cCur", "aAbckur", "acdCurh", "aABbckurhe?g", "aAbBcCdgnurkhe?sxfqz"]

LONG = [63, 65, 101, 129, 257, 300, 513, 1025]


def units(tier):
    q = tier == "quick"
    us = []
    depths = [7, 6, 6, 5, 4, 3, 3] if q else [9, 9, 8, 6, 6, 5, 4]
    for p in range(3):
        for i, abc in enumerate(SETS):
            if p and q and i in (1, 2, 4):
                continue
            # the full alphabet not so deep on the puzzle with many fields
            d = depths[i] - (1 if p and (i < 6 or q and p == 1) else 0)
            for first in (abc if len(abc) ** d > 3000 else [""]):
                us.append({"m": "all", "p": p, "abc": abc, "len": d, "first": first})
        us.append({"m": "walk", "p": p})
        for n in LONG if not q or not p else LONG[:3]:
            us.append({"m": "long", "p": p, "n": n})
    return us


def cases(unit):
    if unit["m"] == "all":
        rest = unit["len"] - len(unit["first"])
        for seq in product(unit["abc"], repeat=rest):
            yield [unit["p"], unit["first"] + "".join(seq)]
    elif unit["m"] == "long":
        n = unit["n"]
        forth = ("abBdcCAB" * n)[:n]
        yield [unit["p"], forth + "u" * n + "r" * (n + 1) + "u" * (n + 1) + "k"]
        yield [unit["p"], forth + "u" * (n // 2) + "B" + "ru" * 3 + "u" * n + "r" * n]
        yield [unit["p"], "abur" * (n // 2) + "u" * n + "r" * n]
        yield [unit["p"], "a" + "ur" * n + "u" * 3]
        yield [unit["p"], "aucubu" * (n // 3) + "r" * 3 + "u" * 3]
        yield [unit["p"], "ab" + "u" * n + "r" * n + "c" + "r" * n + "u" * 5]
        yield [unit["p"], "ab" + "e?h" * (n // 3) + "uur"]
    else:
        # long walks
        for n in (1, 2, 5, 10, 30):
            forth = ("abcCdA" * n)[:n]
            for back in (n, n + 1, n // 2):
                for again in (back, back + 2, 1):
                    for then in ("", "B", "k", "h?e", "BuruurB"):
                        yield [unit["p"], forth + "u" * back + "r" * again + then + "u" * 3 + "r" * 4]


def check(case, st):
    p, seq = case
    w = words(p)
    texts = game.play(puzzle(p), [w[x] for x in seq])
    boards = [game.split(t)[1:] for t in texts]
    if len(boards) != len(seq) + 1:
        fail("%d boards for %d commands", len(boards), len(seq))
    hist, at = [boards[0]], 0
    for i, x in enumerate(seq):
        board = boards[i + 1]
        if x == "u":
            at = max(0, at - 1)
        elif x == "r":
            at = min(len(hist) - 1, at + 1)
        elif x in MOVES and board != hist[at]:
            hist = hist[:at + 1] + [board]
            at += 1
        if board != hist[at]:
            fail("after %r (%s) the board is\n%s\n%s\ninstead of\n%s\n%s", [w[y] for y in seq[:i + 1]],
                 show(puzzle(p)), show(board[0]), cshow(board), show(hist[at][0]), cshow(hist[at]))
        st.state(hash(tuple(hist)), at)
    st.step(len(seq))
    st.outcome(boards[-1])


def cshow(board):
    return " ".join("-" if c is None else "*" + "".join(sorted(c)) for c in board[1])
