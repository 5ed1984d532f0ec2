"""Playing the game shell on scripted input, and a model of it."""
import re
import sys

from mc import ref, refnot
from mc.lib import fail, mk
from mc.session import Tap

W = H = 3
N = 9


class Over(BaseException):
    """No more input."""


class Input(object):
    def __init__(self, lines, out):
        self.lines = lines
        self.pos = 0
        self.out = out
        self.marks = []

    def fileno(self):
        raise OSError("no file")

    def isatty(self):
        return False

    def flush(self):
        pass

    def readline(self, size=-1):
        self.marks.append(self.out.length)
        if self.pos >= len(self.lines):
            raise Over()
        line = self.lines[self.pos]
        self.pos += 1
        return line + "\n"


_known = {}


def remember(name, func):
    """Call the function only once for the same sudoku (it takes most of the time of a session)."""
    def call(sudoku, *args, **kwargs):
        try:
            if args or kwargs:
                return func(sudoku, *args, **kwargs)
            key = name, sudoku.encode(include_candidates=True)
            if key not in _known:
                _known[key] = next(func(sudoku)) if name == "bruteforce" else func(sudoku)
        except StopIteration:
            return iter(())
        if name == "bruteforce":
            return rest(func, sudoku, _known[key].copy(include_candidates=True))
        return _known[key]

    def rest(func, sudoku, first):
        yield first
        it = func(sudoku)
        next(it)
        for s in it:
            yield s
    return call


def play(puzzle, lines, settings=None):
    """Play a game of the given puzzle (flat tuple). Returns the texts shown before each request of input.
    A game which ends or crashes is a violation."""
    from sudokutools import shell
    import sudokutools.generate as gen

    def generate(*args, **kwargs):
        return mk(W, H, puzzle)

    out, err = Tap(), Tap()
    inp = Input(lines, out)
    old = sys.stdin, sys.stdout, sys.stderr
    names = [(m, n, getattr(m, n)) for m, n in ((shell, "generate"), (gen, "generate"), (shell, "rate"),
                                                (shell, "bruteforce")) if callable(getattr(m, n, None))]
    for m, n, f in names:
        setattr(m, n, generate if n == "generate" else remember(n, f))
    sys.stdin, sys.stdout, sys.stderr = inp, out, err
    try:
        try:
            game = shell.GameShell()
            if settings:
                game.settings.update(settings)
            game.run()
        finally:
            sys.stdin, sys.stdout, sys.stderr = old
            for m, n, f in names:
                setattr(m, n, f)
    except Over:
        text = out.text()
        marks = [0] + inp.marks
        return [text[a:b] for a, b in zip(marks, marks[1:])]
    except Exception as e:
        fail("line %r ends the game: %s: %s", lines[inp.pos - 1] if inp.pos else None, type(e).__name__, e)
    except SystemExit:
        fail("line %r ends the game", lines[inp.pos - 1] if inp.pos else None)
    fail("line %r ends the game", lines[inp.pos - 1] if inp.pos else None)


class Live(object):
    """Input from a generator, which is sent what was shown since its last line."""

    def __init__(self, player, out):
        self.player = player
        next(player)
        self.out = out
        self.mark = 0
        self.last = None

    def fileno(self):
        raise OSError("no file")

    def isatty(self):
        return False

    def flush(self):
        pass

    def readline(self, size=-1):
        text = self.out.text()[self.mark:]
        self.mark += len(text)
        try:
            self.last = self.player.send(text)
        except StopIteration:
            raise Over()
        return self.last + "\n"


def live(players, settings=None):
    """Play games, one after the other on the same shell, with the real functions. Each player is a generator which
    gets the text shown before each request of input and yields the lines; the game is over when it returns."""
    from sudokutools import shell
    game = shell.GameShell()
    if settings:
        game.settings.update(settings)
    for player in players:
        out, err = Tap(), Tap()
        inp = Live(player, out)
        old = sys.stdin, sys.stdout, sys.stderr
        sys.stdin, sys.stdout, sys.stderr = inp, out, err
        try:
            try:
                game.run()
            finally:
                sys.stdin, sys.stdout, sys.stderr = old
        except Over:
            continue
        except Exception as e:
            if type(e).__name__ == "Violation":
                raise
            fail("after line %r the game ends: %s: %s", inp.last, type(e).__name__, e)
        except SystemExit:
            fail("line %r ends the game", inp.last)
        fail("line %r ends the game", inp.last)


def split(text):
    """-> (message lines, numbers, shown candidates (None for filled fields)), all as shown."""
    lines = text.split("\n")
    if lines and lines[-1].strip() in (">", ""):
        lines.pop()
    while lines and not lines[-1].strip():
        lines.pop()
    if len(lines) < 11:
        fail("no board is shown: %r", text)
    board = lines[-11:]
    numbers, cands = [], []
    for i, line in enumerate(board):
        tokens = line.replace("|", " ").split()
        if i in (3, 7):
            if not re.match(r"\s*[-+]+\s*$", line):
                fail("no rule after row %d: %r", i - 1, line)
            continue
        if len(tokens) != N:
            fail("row %d of the board is shown as %r", i - i // 4, line)
        for t in tokens:
            if t.startswith("*"):
                numbers.append(0)
                cands.append(frozenset(t[1:]))
            else:
                numbers.append(int(t))
                cands.append(None)
    return lines[:-11], tuple(numbers), tuple(cands)


def visible(state):
    numbers, cands = state
    return numbers, tuple(None if n else frozenset("".join(str(v) for v in c)) for n, c in zip(numbers, cands))


# ------------------------------------------------------------------ the model
class Unknown(Exception):
    """Not an action."""


def action(line):
    """-> ("set", fields, number) or ("remove", fields, values); raises Unknown or refnot.Unclear."""
    text = line.strip()
    if text.startswith("-"):
        left, sep, right = text.partition(" ")
        return _remove(right, left[1:])
    if "<>" in text:
        left, sep, right = text.partition("<>")
        return _remove(left, right)
    if len(text) > 1000:
        raise refnot.Unclear(len(text))
    if "=" in text:
        left, sep, right = text.partition("=")
        value = right.strip()
        fields = _fields(left)
        if not re.match(r"[0-9]+$", value):
            if not any(c.isdigit() for c in value):
                raise Unknown()
            raise refnot.Unclear(value)
        return "set", fields, int(value)
    raise Unknown()


def _fields(text):
    try:
        return refnot.read(text, W, H)
    except refnot.Bad:
        raise Unknown()


def _remove(text, values):
    fields = _fields(text)
    if not re.match(r"[0-9]*$", values):
        if re.match(r"[0-9\s]*$", values) or any(c.isdigit() for c in values if not "0" <= c <= "9"):
            raise refnot.Unclear(values)
        raise Unknown()
    return "remove", fields, frozenset(int(v) for v in values)


class Game(object):
    """What a game has to do."""

    def __init__(self, puzzle):
        self.geo = ref.geo(W, H)
        self.solution = ref.solutions(W, H, puzzle, 2)[0]
        self.history = [(tuple(puzzle), tuple(frozenset(c) for c in ref.all_candidates(W, H, puzzle)))]
        self.at = 0

    @property
    def state(self):
        return self.history[self.at]

    def push(self, state):
        if state != self.state:
            del self.history[self.at + 1:]
            self.history.append(state)
            self.at += 1

    def act(self, act):
        """Returns {value: fields} of the candidates removed automatically."""
        kind, fields, arg = act
        numbers, cands = list(self.state[0]), list(self.state[1])
        for rc in fields:
            k = self.geo.idx(rc)
            if kind == "set":
                numbers[k] = arg
                cands[k] = frozenset((arg,))
            else:
                cands[k] = cands[k] - arg
        gone = {}
        for k, v in enumerate(numbers):
            if v:
                for p in self.geo.fpeers[k]:
                    if v in cands[p]:
                        cands[p] = cands[p] - {v}
                        gone.setdefault(v, set()).add(self.geo.coords[p])
        self.push((tuple(numbers), tuple(cands)))
        return gone

    def candidates(self):
        numbers = self.state[0]
        self.push((numbers, tuple(frozenset(c) for c in ref.all_candidates(W, H, numbers))))

    def undo(self):
        self.at = max(0, self.at - 1)

    def redo(self):
        self.at = min(len(self.history) - 1, self.at + 1)

    def wrong(self):
        return {self.geo.coords[k] for k, v in enumerate(self.state[0]) if v and v != self.solution[k]}

    def conflicts(self):
        return {(frozenset((a, b)), v) for a, b, v in ref.conflicts(W, H, self.state[0])}
