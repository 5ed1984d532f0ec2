"""C26: game commands report and update the board exactly."""
import re
from collections import Counter
from itertools import product

from mc import game, ref, refnot
from mc.checks.c25 import puzzle
from mc.lib import fail, mk, show

ID = "C26"
RULE = ("complete enumeration: every sequence of game commands (moves setting right, wrong and conflicting numbers in single "
        "fields, rows and boxes, removals, undo, redo, candidates, with every report after each) up to a depth, and all input "
        "lines over small alphabets up to a length, each followed by undo; boards and messages must be those of an "
        "independent model of the game, with hints taken from the library for the board as shown")
BOUNDS = {"quick": "14 moves to depth 3 on one puzzle, to depth 2 on two others, with all reports after each; lines up to length 4 "
                   "over 13 characters (every eighth of length 5), and all actions of a grammar; one and two moves on whole rows, columns, boxes and boards",
          "thorough": "14 moves to depth 4; all lines up to length 5; every sixteenth of length 6"}

ABC = "r1c=5<>-b p0"
_moves = {}


def moves(i):
    if i in _moves:
        return _moves[i]
    g = puzzle(i)
    sol = ref.solutions(3, 3, g)[0]
    geo = ref.geo(3, 3)
    empty = [k for k, v in enumerate(g) if not v]
    given = [k for k, v in enumerate(g) if v]

    def at(k):
        return "r%dc%d" % (k // 9 + 1, k % 9 + 1)
    a, b = empty[0], empty[-1]
    c = empty[len(empty) // 2]
    # a number which conflicts with a given, and a given next to that field
    clash = next(g[p] for p in geo.fpeers[a] if g[p])
    cand = ref.candidates(3, 3, g, c)
    _moves[i] = [
        "%s=%d" % (at(a), sol[a]), "%s = %d" % (at(a), clash), "%s=%d" % (at(b), sol[b]),
        "%s=%d" % (at(c), sol[c] % 9 + 1), "%s=%d" % (at(given[3]), g[given[3]] % 9 + 1),
        "b%dr%d=%d" % (ref.geo(3, 3).box_no[geo.coords[b]] + 1, b // 9 + 1, sol[b]),
        "%s,%s<>%d" % (at(c), at(a), min(cand)), "-%s %s" % ("".join(str(v) for v in sorted(cand)), at(c)),
        "r123456789<>%d" % sol[b], "p%d <>%d" % (geo.part_no[geo.coords[a]] + 1, sol[a]),
        "undo", "redo", "candidates", "hint"]
    return _moves[i]


REPORTS = ["check", "conflicts", "hint", "hint"]


def units(tier):
    q = tier == "quick"
    us = []
    for p in range(3):
        d = (3 if not p else 2) if q else (4 if not p else 3)
        for f in range(14):
            us.append({"m": "seq", "p": p, "first": f, "len": d, "reports": True})
            us.append({"m": "seq", "p": p, "first": f, "len": d + 1 if p or not q else d, "reports": False,
                       "step": 1 if not q or not p else 4})
    for p in range(3):
        us.append({"m": "hints", "p": p, "depth": 1 if q else 2})
    for f in range(len(ABC)):
        us.append({"m": "lines", "first": f, "len": 4, "step": 1})
        us.append({"m": "lines", "first": f, "len": 5, "step": 8 if q else 1})
        if not q:
            us.append({"m": "lines", "first": f, "len": 6, "step": 16})
    us.append({"m": "grammar", "part": 0})
    us.append({"m": "grammar", "part": 1})
    us.append({"m": "odd"})
    for p in range(3):
        for f in range(len(WIDE)):
            us.append({"m": "wide", "p": p, "first": f, "step": (60 if p else 30) if q else 1})
    return us


# moves changing many fields at once
WIDE = ["r%s", "c%s", "b%s", "p%s", "r1%s9", "r123456789c%s", "b123456789p%s", "r%sc123456789,b9", "r123456789"]


ODD = ["", " ", "\t", "  undo  ", "Undo", "UNDO", "undo undo2"[:0], "hint\t", "candidate", "exit", "quit", "help", "exit()", "new", "set r1c1 5",
       "solve", "r1c1=", "=5", "=", "<>", "-", "--", "-5", "- r1c1", "-x r1c1", "-5 ", "-5 x", "r1c1", "r1c1<>x", "r1c1<>-5",
       "r1c1=x", "r1c1=5=5", "r1c1==5", "r1c1<>5<>5", "r1c1=5<>5", "r1c1<>5=5", "r0c1=5", "r10c1=5", "r1c0=5", "x1c1=5",
       "r1c1,=5", ",r1c1=5", "r1c1 r2c2=5", "r1r2=5", "c=5", "rc=5", "r=5", "b1=", "b1p=5", "r1c1=99", "r1c1=10", "r1c1=0",
       "r1c1=-1", "b1=0", "r1=0", "r123456789=0", "r123456789=5", "r123456789<>123456789", "r1c1=1e3", "r1c1=1.5",
       "r1c1=0x5", "r1c1=5 5", "r1c1='5'", "r1c1=[5]", "r1c1=None", "r1c1<>", "r1c1<>0", "r1c1<>1 2", "r1c1<>1,2",
       "r1c1=" + "9" * 50, "r1c1=" + "9" * 5000, "r" + "1" * 500 + "c1=5", "r1c1<>" + "5" * 500, "\\", "#", ";", "%s", "{}", "%d%n",
       "\x00", "\x1b[A", "\x07", "\xa0", "\u00e4\u00f6\u00fc", "\u0663", "r1c1=\u0663", "r\u0661c1=5", "r1c1<>\u0663", "\u00b2",
       "r\u00b2c1=5", "r1c1=\u00b2", "r1c1<>\u00b2", "\ud800", "r1c1 = \u2160", "\U0001f600", "'", '"', "(", ")", "[]", "{", "import os",
       "__import__('os')", "None", "True", "1", "5", "r", "c", "b", "p", "r1c1=5;r1c2=6", "r1c1=5#", "r1c1=5 ", " r1c1=5", "r1 c1 = 5",
       "R1C1=5", "r1C1=5", "r1c1-5", "r1c1+5", "r1c1:5", "r1c1>5", "r1c1<5", "r1c1><5", "r1c1< >5", "r1c1!=5", "conflict", "checks",
       "settings x", "setting", "autocheck", "autocheck=1", "autoset=True", "dim", "rating=5", "conflicts r1c1"]


def lines_of(unit):
    m = unit["m"]
    if m == "lines":
        n = 0
        first = ABC[unit["first"]]
        for length in range(1 if unit["len"] == 4 else unit["len"], unit["len"] + 1):
            for rest in product(ABC, repeat=length - 1):
                n += 1
                if n % unit["step"] == 0:
                    yield first + "".join(rest)
    elif m == "grammar":
        if not unit["part"]:
            coords = ["r1c1", "r1", "c9", "b5", "p9", "b1p9", "r5b5", "c1p1", "r12c34", "b12p1", "r1c1,r9c9", "r1c1,b9", "r1b9",
                      "r1c1b1p1", "r9c9,r9c9", "c9r1", "r11c1", "r123456789", "r1 c1", "r1c1, r2c2", "", "r", "rc", "r1c", "r0", "x1",
                      "r1c1,", ",r1", "r1,2", "r1c1c2", "r10", "r-1", "r1c1r1c1", "r1c1 ,r2c2", "b1b2", "1", "r1c1.", "r1;c1"]
            for c in coords:
                for v in ("0", "1", "5", "9", "10", "55", "123456789", "", "x", "-1", "+5", "5x", " 5 ", "5 5", "1_0", "5.0"):
                    for form in ("%s=%s", "%s = %s", "%s<>%s", "%s <> %s", "-%s %s"):
                        yield form % ((v, c) if form.startswith("-") else (c, v))
        else:
            for r in range(1, 10):
                for c in range(1, 10):
                    yield "r%dc%d=%d" % (r, c, (r * c) % 9 + 1)
                    yield "b%dp%d<>%d%d" % (r, c, (r + c) % 9 + 1, c)
                    yield "-%d%d r%dc%d" % (r, c, r, c)
                    yield "r%dc%d<>123456789" % (r, c)
    else:
        for line in ODD:
            yield line


def cases(unit):
    m = unit["m"]
    if m == "seq":
        w = moves(unit["p"])
        n = 0
        for seq in product(range(len(w)), repeat=unit["len"] - 1):
            n += 1
            if n % unit.get("step", 1) == 0:
                yield ["seq", unit["p"], [unit["first"]] + list(seq), unit["reports"]]
    elif m == "wide":
        n = 0
        form = WIDE[unit["first"]]
        for x in range(1, 10):
            if "1%s" in form and x == 1 or "%s9" in form and x == 9:
                continue
            one = form % x if "%" in form else form
            for v in range(1, 10):
                yield ["wide", unit["p"], ["%s=%d" % (one, v)]]
                for k, other in enumerate(WIDE):
                    for y in range(1, 10):
                        n += 1
                        if n % unit["step"] == 0 and y % 8 + 1 not in (1, 9):
                            two = other % (y % 8 + 1) if "%" in other else other
                            yield ["wide", unit["p"], ["%s=%d" % (one, v), "%s%s%d" % (two, "=" if k % 3 else "<>", (v * y + k) % 9 + 1)]]
    elif m == "hints":
        for seq in product(range(11), repeat=unit["depth"]):
            yield ["hints", unit["p"], list(seq)]
        yield ["hints", unit["p"], []]
    else:
        batch = []
        for line in lines_of(unit):
            batch.append(line)
            if len(batch) == 40:
                yield ["lines", batch]
                batch = []
        if batch:
            yield ["lines", batch]


KNOWN = {"hint", "undo", "redo", "candidates", "check", "conflicts", "settings"}


class Checker(object):
    """Plays lines, comparing everything with the model."""

    def __init__(self, p, lines, st):
        self.p, self.lines, self.st = p, lines, st
        self.model = game.Game(p if isinstance(p, tuple) else puzzle(p))
        self.offered = Counter()
        self.ever = {}
        self.unclear = None

    def run(self):
        texts = game.play(puzzle(self.p), self.lines)
        if len(texts) != len(self.lines) + 1:
            fail("%d prompts for %d lines", len(texts), len(self.lines))
        msgs, numbers, cands = game.split(texts[0])
        self.same(numbers, cands, "at the beginning")
        for i, line in enumerate(self.lines):
            msgs, numbers, cands = game.split(texts[i + 1])
            what = "after %r" % (self.lines[max(0, i - 8):i + 1],)
            if not self.step(line, [m for m in msgs if m.strip()], what, (numbers, cands)):
                return
            self.same(numbers, cands, what)
            self.st.state(self.model.state)
        self.st.step(len(self.lines))
        self.st.outcome(texts[-1])

    def same(self, numbers, cands, what):
        want = game.visible(self.model.state)
        if (numbers, cands) != want:
            bad = [self.model.geo.coords[k] for k in range(81) if (numbers[k], cands[k]) != (want[0][k], want[1][k])]
            k = self.model.geo.idx(bad[0])
            fail("%s: %d fields are wrong, (row, column) %s shows %s instead of %s", what, len(bad), bad[0],
                 numbers[k] or sorted(cands[k]), want[0][k] or sorted(want[1][k]))

    def step(self, line, msgs, what, shown):
        m = self.model
        words = line.split()
        before = m.state
        name = words[0] if words else None
        if name in KNOWN and len(words) > 1:
            # unclear, but the game has to go on
            return False
        if name is None:
            if msgs:
                fail("%s: an empty line is answered: %r", what, msgs)
        elif name == "undo":
            if (not msgs) != (m.at > 0):
                fail("%s: answer %r", what, msgs)
            m.undo()
        elif name == "redo":
            if (not msgs) != (m.at + 1 < len(m.history)):
                fail("%s: answer %r", what, msgs)
            m.redo()
        elif name == "candidates":
            m.candidates()
        elif name == "settings":
            if not msgs:
                fail("%s: no settings", what)
        elif name == "check":
            found = Counter(report(x, 1, what) for x in msgs)
            want = Counter(((rc,), m.state[0][m.geo.idx(rc)]) for rc in m.wrong())
            if found != want:
                fail("%s: %r listed instead of %r", what, sorted(found.elements()), sorted(want))
        elif name == "conflicts":
            found = Counter(report(x, 2, what) for x in msgs)
            want = Counter((tuple(sorted(pair)), v) for pair, v in m.conflicts())
            if found != want:
                fail("%s: %r listed instead of %r", what, sorted(found.elements()), sorted(want))
        elif name == "hint":
            self.hint(msgs, what)
        else:
            try:
                act = game.action(line)
            except game.Unknown:
                if not msgs:
                    fail("%s: no answer", what)
            except refnot.Unclear:
                # either refused or done; whatever it was, the game has to go on
                return False
            else:
                gone = m.act(act)
                found = {}
                for x in msgs:
                    got = re.match(r"autoremove: (.*)<>(.*)$", x)
                    if not got:
                        continue
                    v = int(got.group(2))
                    found.setdefault(v, set()).update(refnot.read(got.group(1), 3, 3))
                if found != gone:
                    fail("%s: removed automatically: %r, reported: %r", what, gone, found)
        if m.state != before:
            self.offered = Counter()
        return True

    def hint(self, msgs, what):
        m = self.model
        if any(v < 0 or v > 9 for v in m.state[0]) or any(0 in c for c in m.state[1]):
            return
        if len(msgs) != 1:
            fail("%s: hint answers %r", what, msgs)
        key = m.state
        valid = hints(key)
        if msgs[0] in valid:
            self.offered[msgs[0]] += 1
            self.ever.setdefault(key, Counter())[msgs[0]] += 1
            if self.offered[msgs[0]] > valid[msgs[0]]:
                fail("%s: %r is offered again", what, msgs[0])
        elif "at " in msgs[0]:
            fail("%s: %r is not valid for the board", what, msgs[0])
        elif valid - self.ever.get(key, Counter()):
            fail("%s: %r, but there is %r", what, msgs[0], sorted(valid)[:3])


_hints = {}


def hints(state):
    if state not in _hints:
        from sudokutools.solvers import hints as find
        s = mk(3, 3, state[0], state[1])
        if len(_hints) > 3000:
            _hints.clear()
        _hints[state] = Counter(str(h) for h in find(s))
    return _hints[state]


def report(text, n, what):
    """[F] fields = value -> (fields, value)"""
    got = re.match(r"\[F\]\s*(.*?)\s*=\s*([0-9]+)\s*$", text) if n == 1 else \
        re.match(r"\[F\]\s*(.*?)\s*=\s*(.*?)\s*=\s*([0-9]+)\s*$", text)
    if not got:
        fail("%s: unexpected message %r", what, text)
    fields = []
    for x in got.groups()[:-1]:
        try:
            f = refnot.read(x, 3, 3)
        except refnot.Bad:
            f = ()
        if len(f) != 1:
            fail("%s: %r is no field", what, x)
        fields.append(f[0])
    return tuple(sorted(fields)), int(got.groups()[-1])


def check(case, st):
    if case[0] == "seq":
        _, p, seq, reports = case
        w = moves(p)
        lines = []
        for i in seq:
            lines.append(w[i])
            if reports:
                lines += REPORTS
        if not reports:
            lines += ["check", "conflicts", "hint", "undo", "check"]
        Checker(p, lines, st).run()
    elif case[0] == "wide":
        _, p, moves_ = case
        lines = []
        for x in moves_:
            lines += [x, "conflicts", "check"]
        Checker(p, lines + ["undo", "conflicts", "check", "redo", "conflicts"], st).run()
    elif case[0] == "hints":
        _, p, seq = case
        w = moves(p)
        n = 0
        g = game.Game(puzzle(p))
        lines = [w[i] for i in seq]
        # all hints of the board, twice more than there are
        for line in lines:
            if line == "undo":
                g.undo()
            elif line != "redo":
                g.act(game.action(line))
        if max(g.state[0]) <= 9:
            n = sum(hints(g.state).values())
        tail = []
        for i in range(n + 2):
            tail.append("hint")
            if i % 3 == 1:
                tail += ["", "check", "settings", "nonsense"][:i % 5]
        Checker(p, lines + tail, st).run()
        Checker(p, lines + ["hint"] * (n + 1) + [w[2], "hint", "undo", "hint"], st).run()
    else:
        # every line from the beginning, and undone afterwards
        lines = case[1]
        play = []
        for line in lines:
            play += [line, "undo"]
        texts = game.play(puzzle(0), play)
        if len(texts) != len(play) + 1:
            fail("%d prompts for %d lines", len(texts), len(play))
        start = game.split(texts[0])[1:]
        for i, line in enumerate(lines):
            board = game.split(texts[2 * i + 1])
            if game.split(texts[2 * i + 2])[1:] != start:
                fail("after %r and undo: the board is not as it was", line)
            model = Checker(0, [], st)
            what = "after %r" % line
            if model.step(line, [m for m in board[0] if m.strip()], what, board[1:]):
                model.same(board[1], board[2], what)
            st.state(line)
            st.outcome(board[1:])
        st.step(2 * len(lines))
