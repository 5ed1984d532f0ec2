"""C32: a new game is a proper sudoku, and can be played to its solution."""
import re

from mc import choices, game, ref
from mc.checks import c26, c29
from mc.lib import fail, mk, need, show

ID = "C32"
RULE = ("stateless exploration of new games over random choices (policies, schedules with one deviation from a policy): each game "
        "is played with the real generator, solver and rating along enumerated orders of the fields to the solution, back to "
        "the beginning and forth again, and with every wrong number in every field; every board, report and hint must be that of an independent "
        "model of the game built from the numbers shown at the beginning; also several games on the same shell, and every combination of "
        "the automatic settings")
BOUNDS = {"quick": "16 policies x 8 orders, 60 further policies, every 25th schedule with one deviation from two policies, wrong numbers "
                   "in all fields of 4 games, 6 games on one shell for 24 policies, 8 settings x 12 policies",
          "thorough": "100 policies x 8 orders, 1000 further policies, all schedules with one deviation from 2 policies, wrong "
                      "numbers in all fields of 40 games, 6 games on one shell for 200 policies, 8 settings x 100 policies"}
CASE_CPU = 60.0
BASES = ["first", "last", "mid", "alt"]
ORDERS = 8


def bases(n):
    return (BASES + list(range(1, n)))[:n]


def units(tier):
    q = tier == "quick"
    us = []
    for b in bases(16 if q else 100):
        us.append({"m": "orders", "base": b})
    n = 60 if q else 1000
    for lo in range(0, n, 5):
        us.append({"m": "more", "lo": 1000 + lo, "hi": 1000 + lo + 5})
    parts = 16
    for b in ("last", 3):
        for part in range(parts):
            us.append({"m": "dev", "base": b, "part": part, "parts": parts, "step": 25 if q else 1})
    for b in bases(4 if q else 40):
        us.append({"m": "wrong", "base": b})
    for b in range(50, 74 if q else 250):
        us.append({"m": "again", "base": b})
    for b in bases(12 if q else 100):
        us.append({"m": "settings", "base": b})
    return us


def cases(unit):
    m = unit["m"]
    b = unit.get("base")
    if m == "orders":
        for o in range(ORDERS):
            yield ["order", b, [], o]
    elif m == "more":
        for b in range(unit["lo"], unit["hi"]):
            yield ["order", b, [], b % ORDERS]
    elif m == "dev":
        # choice points: as many as the game of the policy has
        points = choices.run(lambda: start(), b)[1]
        n = 0
        for i, c in enumerate(points):
            for v in range(c):
                n += 1
                if n % unit["parts"] == unit["part"] and n // unit["parts"] % unit["step"] == unit["step"] // 2:
                    yield ["order", b, [[i, v]], n % ORDERS]
    elif m == "wrong":
        for row in range(9):
            yield ["wrong", b, row]
    elif m == "again":
        yield ["again", b]
    else:
        for s in range(8):
            yield ["settings", b, s]


def order(o, fields, sol):
    """The fields in one of several orders."""
    if o == 0:
        return fields
    if o == 1:
        return fields[::-1]
    if o == 2:
        return sorted(fields, key=lambda k: (k % 9, k // 9))
    if o == 3:
        return sorted(fields, key=lambda k: (sol[k], k))
    if o == 4:
        return sorted(fields, key=lambda k: (ref.geo(3, 3).box_no[divmod(k, 9)], -k))
    if o == 5:
        return sorted(fields, key=lambda k: (k * 37) % 81)
    if o == 6:
        return sorted(fields, key=lambda k: (-sol[k], (k * 50) % 81))
    return fields[::2] + fields[1::2][::-1]


class Player(c26.Checker):
    """Follows a game from the text shown at its beginning."""

    def __init__(self, text, st):
        msgs, numbers, cands = game.split(text)
        need(all(0 <= v <= 9 for v in numbers), "the board shows %r", numbers)
        sols = ref.solutions(3, 3, numbers, 2)
        need(len(sols) == 1, "the new sudoku %s has %s", show(numbers), "several solutions" if sols else "no solution")
        found = [x for line in msgs for x in re.findall(r"([-+.0-9]+)\s*/\s*10", line)]
        need(len(found) == 1 and found[0].isdigit(), "the rating is announced as %r", msgs)
        from sudokutools.analyze import rate
        want = rate(mk(3, 3, numbers))
        need(int(found[0]) == want, "%s: rating %s announced, but it is %r", show(numbers), found[0], want)
        c26.Checker.__init__(self, numbers, [], st)
        self.numbers, self.sol = numbers, sols[0]
        self.played = []
        self.same(numbers, cands, "at the beginning of %s" % show(numbers))
        st.state(numbers)

    def answer(self, line, text):
        self.played.append(line)
        msgs, numbers, cands = game.split(text)
        what = "%s after %r" % (show(self.numbers), self.played[-8:])
        if not self.step(line, [m for m in msgs if m.strip()], what, (numbers, cands)):
            fail("%s: not understood", what)
        self.same(numbers, cands, what)
        self.st.step()


def at(k):
    return "r%dc%d" % (k // 9 + 1, k % 9 + 1)


def start(games=1, settings=None):
    """The text at the beginning of a game."""
    seen = []

    def player():
        seen.append((yield))
    game.live([player() for _ in range(games)], settings)
    return seen


def solve(o, st, hints=False, end=None):
    text = yield
    p = Player(text, st)
    fields = order(o, [k for k in range(81) if not p.numbers[k]], p.sol)
    lines = ["check", "conflicts", "undo", "redo"]
    for i, k in enumerate(fields):
        lines.append("%s=%d" % (at(k), p.sol[k]))
        if i % 7 == o % 7:
            lines.append("check")
        if i % 11 == o:
            lines += ["conflicts", "candidates"]
        if i % 17 == o % 17:
            lines.append("hint")
    for line in lines + ["check", "conflicts", "hint"]:
        text = yield line
        p.answer(line, text)
    need(p.model.state[0] == p.sol, "%s is not solved", show(p.numbers))
    for line in ["undo"] * (len(p.model.history) + 1) + ["check", "conflicts"] + ["redo"] * (len(p.model.history) + 1) + ["check"]:
        text = yield line
        p.answer(line, text)
    st.outcome(p.numbers)
    if end is not None:
        end.append(p.numbers)


def wrong(row, st):
    text = yield
    p = Player(text, st)
    for c in range(9):
        k = row * 9 + c
        for v in range(1, 10):
            for line in ["%s=%d" % (at(k), v), "check", "conflicts", "undo"]:
                text = yield line
                p.answer(line, text)


def check(case, st):
    m, b = case[:2]
    if m == "order":
        dev, o = [tuple(x) for x in case[2]], case[3]
        choices.run(lambda: game.live([solve(o, st)]), b, dev)
    elif m == "wrong":
        choices.run(lambda: game.live([wrong(case[2], st)]), b)
    elif m == "again":
        # each game begins anew, whatever the one before was like
        end = []

        def some(n):
            text = yield
            p = Player(text, st)
            k = [k for k in range(81) if not p.numbers[k]]
            lines = ["undo", "redo", "hint"]
            for i in range(n):
                lines += ["%s=%d" % (at(k[i]), p.sol[k[i]] % 9 + 1 if i % 2 else p.sol[k[i]])]
            for line in lines + ["undo", "hint", "undo", "check"]:
                text = yield line
                p.answer(line, text)
        choices.run(lambda: game.live([some(3), some(1), some(0), some(0), solve(b % ORDERS, st, end=end), some(0)]), b)
        need(len(end) == 1, "%r", end)
    else:
        settings = c29.SETTINGS[case[2]]
        numbers = game.split(choices.run(start, b)[0][0])[1]
        text, = choices.run(lambda: start(settings=settings), b)[0]
        try:
            model = c29.Model(numbers, settings)
        except c29.Unclear:
            fail("%s: contradictions", show(numbers))
        c29.same(model, text, "%s at the beginning with %r" % (show(numbers), settings), [])
        st.state(b, case[2])
        st.step()
