"""C29: the game's automatic actions follow its settings."""
import re
from itertools import product

from mc import game, ref, refnot
from mc.checks.c25 import puzzle
from mc.checks.c26 import moves
from mc.lib import fail

ID = "C29"
RULE = ("explicit-state exploration: for every combination of the settings autocandidates, autoremove and autoset all sequences of "
        "game commands (right, wrong and conflicting numbers, emptied fields, removals which leave one candidate or none, "
        "undo, redo, candidates) up to a depth are played, and games in which one number determines a chain of many fields; boards and reports must be those of an independent model which carries "
        "out the enabled automatic actions until nothing more follows")
BOUNDS = {"quick": "8 settings x 4 puzzles x all sequences of length 2 of 18 commands (length 3 sliced by 9); listed settings with 8 settings and unchanged ones x 3 puzzles; 8 settings x 20 games with chains of up to 60 fields",
          "thorough": "8 settings x 4 puzzles x all sequences of length 3 of 18 commands (length 4 sliced by 60); listed settings; 8 settings x 108 games with chains"}
CASE_CPU = 20.0

SETTINGS = [dict(zip(("autocandidates", "autoremove", "autoset"), v)) for v in product((True, False), repeat=3)]
_words = {}


def grid(i):
    return puzzle(i) if i < 3 else ref.solutions(3, 3, puzzle(0))[0][:40] + (0,) * 4 + ref.solutions(3, 3, puzzle(0))[0][44:79] + (0, 0)


def words(i):
    if i not in _words:
        g = grid(i)
        sol = ref.solutions(3, 3, g)[0]
        empty = [k for k, v in enumerate(g) if not v]

        def at(k):
            return "r%dc%d" % (k // 9 + 1, k % 9 + 1)
        c = empty[len(empty) // 2]
        d = empty[1]
        cand = sorted(ref.candidates(3, 3, g, c))
        if i < 3:
            base = [m for m in moves(i) if m != "hint"]
        else:
            base = ["%s=%d" % (at(empty[0]), sol[empty[0]]), "%s=%d" % (at(empty[0]), sol[empty[0]] % 9 + 1), "undo", "redo", "candidates"]
        given = next(k for k, v in enumerate(g) if v)
        base += [
            # one candidate is left, or none
            "%s<>%s" % (at(c), "".join(str(v) for v in range(1, 10) if v != cand[0])),
            "%s<>%s" % (at(d), "".join(str(v) for v in range(1, 10) if v != sol[d])),
            "%s<>123456789" % at(d),
            "%s=0" % at(c), "%s=0" % at(given)]
        _words[i] = base
    return _words[i]


_chains = {}


def chain(start, n):
    """A path of up to n fields, each one seeing the one before it, whose number is seen by it at no earlier field of the path."""
    if (start, n) not in _chains:
        geo = ref.geo(3, 3)
        sol = ref.solutions(3, 3, puzzle(0))[0]
        path = [start]
        while len(path) < n:
            last = path[-1]
            options = [k for k in sorted(geo.fpeers[last]) if k not in path and not any(
                sol[j] == sol[last] and j in geo.fpeers[k] for j in path[:-1])]
            if not options:
                break
            # few ways to go on first
            path.append(min(options, key=lambda k: (len([j for j in geo.fpeers[k] if j not in path]), (k * 37 + start) % 81)))
        _chains[start, n] = path
    return _chains[start, n]


def chain_lines(start, n):
    """Commands which leave two candidates in each field of a chain, and one which sets the first field."""
    sol = ref.solutions(3, 3, puzzle(0))[0]
    path = chain(start, n)

    def at(k):
        return "r%dc%d" % (k // 9 + 1, k % 9 + 1)
    lines = []
    for a, b in zip(path, path[1:]):
        lines.append("%s<>%s" % (at(b), "".join(str(v) for v in range(1, 10) if v not in (sol[a], sol[b]))))
    return lines + ["%s=%d" % (at(path[0]), sol[path[0]])]


class Unclear(Exception):
    """Contradictions: the order of automatic actions matters."""


class Model(game.Game):
    def __init__(self, puzzle, settings):
        game.Game.__init__(self, puzzle)
        self.settings = settings
        if settings["autocandidates"]:
            numbers, cands = list(self.state[0]), list(self.state[1])
            self.auto(numbers, cands)
        else:
            numbers = list(puzzle)
            cands = [frozenset((v,)) if v else frozenset() for v in puzzle]
        self.history = [(tuple(numbers), tuple(cands))]

    def auto(self, numbers, cands):
        """-> ({(field, value)} removed, {field: value} set); numbers and cands are changed."""
        removed, filled = set(), {}
        self.turns = 0
        while True:
            self.turns += 1
            changed = False
            if self.settings["autoremove"]:
                for k, v in enumerate(numbers):
                    if v:
                        for p in self.geo.fpeers[k]:
                            if v in cands[p]:
                                cands[p] = cands[p] - {v}
                                removed.add((self.geo.coords[p], v))
                                changed = True
            if self.settings["autoset"]:
                for k, v in enumerate(numbers):
                    if not v and len(cands[k]) == 1:
                        n, = cands[k]
                        if n:
                            numbers[k] = n
                            filled[self.geo.coords[k]] = n
                            changed = True
            if not changed:
                break
        if self.settings["autoremove"] and self.settings["autoset"]:
            for rc, v in filled.items():
                k = self.geo.idx(rc)
                if any(numbers[p] == v for p in self.geo.fpeers[k]):
                    raise Unclear()
        return removed, filled

    def act(self, act):
        kind, fields, arg = act
        numbers, cands = list(self.state[0]), list(self.state[1])
        for rc in fields:
            k = self.geo.idx(rc)
            if kind == "set":
                numbers[k] = arg
                cands[k] = frozenset((arg,))
            else:
                cands[k] = cands[k] - arg
        try:
            found = self.auto(numbers, cands)
        except Unclear:
            return None, (tuple(numbers), tuple(cands))
        self.push((tuple(numbers), tuple(cands)))
        return found, None


def units(tier):
    q = tier == "quick"
    us = []
    for s in range(8):
        for p in range(4):
            n = len(words(p)) if False else 18 if p < 3 else 10
            for f in range(n):
                us.append({"s": s, "p": p, "first": f, "len": 2 if q else 3, "step": 1})
            for f in range(n):
                us.append({"s": s, "p": p, "first": f, "len": 3 if q else 4, "step": 9 if q else 60})
    for s in range(8):
        us.append({"s": s, "listed": 4 if q else 18})
    us.append({"s": None, "listed": 18})
    for s in range(8):
        us.append({"s": s, "chains": [(a, n) for a in range(0, 81, 20 if q else 3) for n in (6, 13, 27, 60)]})
    return us


def cases(unit):
    if "chains" in unit:
        for a, n in unit["chains"]:
            yield [unit["s"], -1, [a, n]]
        return
    if "listed" in unit:
        for p in range(3):
            for i in range(unit["listed"]):
                yield [unit["s"], p, [i, (i * 7 + 3) % 18], "listed"]
        return
    w = words(unit["p"])
    if unit["first"] >= len(w):
        return
    n = 0
    for seq in product(range(len(w)), repeat=unit["len"] - 1):
        n += 1
        if n % unit["step"] == 0:
            yield [unit["s"], unit["p"], [unit["first"]] + list(seq)]


def reports(msgs, what):
    removed, filled = set(), {}
    for x in msgs:
        got = re.match(r"autoremove: (.*)<>([0-9]+)$", x)
        if got:
            for rc in refnot.read(got.group(1), 3, 3):
                if (rc, int(got.group(2))) in removed:
                    fail("%s: %r is reported again", what, x)
                removed.add((rc, int(got.group(2))))
            continue
        got = re.match(r"autoset: (.*)=([0-9]+)$", x)
        if got:
            for rc in refnot.read(got.group(1), 3, 3):
                if rc in filled:
                    fail("%s: %r is reported again", what, x)
                filled[rc] = int(got.group(2))
    return removed, filled


def listed(msgs, what):
    """The values shown by the command settings."""
    values = {}
    for x in msgs:
        got = re.match(r"(autocandidates|autoremove|autoset)\s*=\s*(True|False)\b", x)
        if got:
            if got.group(1) in values:
                fail("%s: %s is listed twice", what, got.group(1))
            values[got.group(1)] = got.group(2) == "True"
    if len(values) < 3:
        fail("%s: settings lists %r", what, msgs)
    return values


def check_listed(case, st):
    """The settings command lists the settings which the game follows, changed or not."""
    s, p, seq = case[:3]
    w, g = words(p), grid(p)
    lines = ["settings"] + [w[i] for i in seq if i < len(w)] + ["settings"]
    texts = game.play(g, lines, SETTINGS[s] if s is not None else None)
    what = "%r with %s" % (lines, SETTINGS[s] if s is not None else "unchanged settings")
    values = listed(game.split(texts[1])[0], what)
    if s is not None and values != SETTINGS[s]:
        fail("%s: settings lists %r", what, values)
    if listed(game.split(texts[-1])[0], what) != values:
        fail("%s: the settings change", what)
    if s is None:
        st.note("default settings: %s" % ", ".join(sorted(k for k in values if values[k])))
        check([SETTINGS.index(values), p, seq], st, None)
    st.step()
    st.state(s, p, tuple(seq))


def check(case, st, use=True):
    if len(case) > 3:
        check_listed(case, st)
        return
    s, p, seq = case
    settings = SETTINGS[s]
    if p < 0:
        lines, g = chain_lines(*seq), (0,) * 81
    else:
        w = words(p)
        lines, g = [w[i] for i in seq if i < len(w)], grid(p)
    lines += ["undo", "redo"]
    try:
        model = Model(g, settings)
    except Unclear:
        fail("puzzle %d", p)
    texts = game.play(g, lines, settings if use else None)
    if len(texts) != len(lines) + 1:
        fail("%d prompts for %d lines", len(texts), len(lines))
    same(model, texts[0], "at the beginning with %r" % settings, [])
    for i, line in enumerate(lines):
        what = "after %r with %r" % (lines[:i + 1], settings)
        if line == "undo":
            model.undo()
        elif line == "redo":
            model.redo()
        elif line == "candidates":
            # nothing is said about automatic actions here
            before = model.state
            model.candidates()
            if settings["autoset"] and any(len(c) == 1 and not n for n, c in zip(*model.state)):
                break
            if settings["autoremove"] and model.state != before and any(
                    n and n in model.state[1][q] for k, n in enumerate(model.state[0]) for q in model.geo.fpeers[k]):
                break
        else:
            found, unclear = model.act(game.action(line))
            if unclear:
                st.note("contradictions")
                break
            msgs, numbers, cands = game.split(texts[i + 1])
            got = reports(msgs, what)
            if got != found:
                fail("%s: reported %r, expected %r", what, got, found)
            st.note("turns of automatic actions of one command: %s" % (model.turns if model.turns < 10 else "10 or more"))
        same(model, texts[i + 1], what, lines)
        st.step()
        st.state(s, p, model.state)
    st.outcome(texts[-1])


def same(model, text, what, lines):
    msgs, numbers, cands = game.split(text)
    want = game.visible(model.state)
    if (numbers, cands) != want:
        k = next(k for k in range(81) if (numbers[k], cands[k]) != (want[0][k], want[1][k]))
        fail("%s: (row, column) %s shows %s instead of %s", what, model.geo.coords[k], numbers[k] or sorted(cands[k]),
             want[0][k] or sorted(want[1][k]))
