"""Running the command shell on scripted input, and a model of it.

The model keeps its own sudokus and calls the library functions the commands
stand for; the shell is only observed through its input, output, standard error
and exit."""
import io
import sys
from ast import literal_eval

from mc.lib import fail


class Tap(object):
    """Output file which can interrupt."""

    def __init__(self):
        self.parts = []
        self.n = 0
        self.length = 0
        self.hook = None        # called with the number of the write

    def write(self, s):
        if self.hook:
            self.hook(self.n, s)
        self.n += 1
        self.parts.append(s)
        self.length += len(s)
        return len(s)

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def text(self):
        return "".join(self.parts)


class Feed(object):
    """Input file. items: lines (with newline) or exception classes to raise."""

    def __init__(self, items, out, err, tty=False):
        self.items = list(items)
        self.pos = 0
        self.out, self.err = out, err
        self.marks = []         # (length of output, length of standard error) at each request
        self.tty = tty
        self.eof = 0

    def isatty(self):
        return self.tty

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def readline(self, size=-1):
        self.marks.append((self.out.length, self.err.length))
        if self.pos >= len(self.items):
            self.eof += 1
            if self.eof > 50:
                raise RuntimeError("input is read again and again after its end")
            return ""
        item = self.items[self.pos]
        self.pos += 1
        if isinstance(item, type):
            raise item()
        return item

    def __iter__(self):
        return self

    def __next__(self):
        s = self.readline()
        if not s:
            raise StopIteration
        return s

    def read(self, size=-1):
        res = []
        while True:
            s = self.readline()
            if not s:
                return "".join(res)
            res.append(s)

    def readlines(self):
        return list(self)


class Result(object):
    pass


def run(items, interactive=False, out_hook=None, tty=None, trace=None):
    """Run a session. items: lines without newline (or exception classes)."""
    from sudokutools.shell import Shell
    out, err = Tap(), Tap()
    out.hook = out_hook
    feed = Feed([i if isinstance(i, type) or i.endswith("\n") else i + "\n" for i in items], out, err,
                interactive if tty is None else tty)
    res = Result()
    res.exit = None
    res.error = None
    old = sys.stderr, sys.stdout
    sys.stderr, sys.stdout = err, out
    try:
        try:
            shell = (Shell(infile=feed, outfile=out) if tty is not None else
                     Shell(interactive=interactive, infile=feed, outfile=out))
            if trace:
                sys.settrace(trace)
            shell.run()
        finally:
            if trace:
                sys.settrace(None)
            sys.stderr, sys.stdout = old
    except SystemExit as e:
        res.exit = 0 if e.code is None else e.code
    except KeyboardInterrupt:
        res.error = "KeyboardInterrupt"
    except Exception as e:
        res.error = "%s: %s" % (type(e).__name__, e)
    res.out, res.err = out.text(), err.text()
    res.marks = feed.marks + [(out.length, err.length)]
    res.read = feed.pos
    return res


def segments(res):
    """Output and errors between the requests of input: [(out, err)], starting before the first one."""
    marks = [(0, 0)] + res.marks
    return [(res.out[a[0]:b[0]], res.err[a[1]:b[1]]) for a, b in zip(marks, marks[1:])]


def run_line(line, interactive=False):
    """Execute a single line on a shell object (as -c does)."""
    from sudokutools.shell import Shell
    out, err = Tap(), Tap()
    res = Result()
    res.exit = None
    res.error = None
    old = sys.stderr, sys.stdout
    sys.stderr, sys.stdout = err, out
    try:
        try:
            Shell(interactive=interactive, infile=Feed([], out, err), outfile=out).execute_line(line)
        finally:
            sys.stderr, sys.stdout = old
    except SystemExit as e:
        res.exit = 0 if e.code is None else e.code
    except KeyboardInterrupt:
        res.error = "KeyboardInterrupt"
    except Exception as e:
        res.error = "%s: %s" % (type(e).__name__, e)
    res.out, res.err = out.text(), err.text()
    return res


# ------------------------------------------------------------------ the model
class Failure(Exception):
    """The command fails."""


class Died(Exception):
    """The session ended because of an error."""


END = object()


def arguments(words):
    args, kwargs = [], {}
    for word in words:
        if "=" in word and not word.startswith(("'", '"')):
            name, value = word.split("=", 1)
            kwargs[name] = literal_eval(value)
        elif word == "end":
            args.append(END)
        else:
            args.append(literal_eval(word))
    return args, kwargs


class Model(object):
    """What a session has to do."""

    def __init__(self, interactive=False):
        from sudokutools.sudoku import Sudoku
        self.interactive = interactive
        self.sudoku = Sudoku()
        self.errors = 0
        self.stack = []
        self.loop = None
        self.body = []
        self.ended = False
        self.out = []

    def copy_of(self, s):
        from sudokutools.sudoku import Sudoku
        new = Sudoku(tuple(s.box_size))
        for row, col in s:
            new[row, col] = s[row, col]
            new.set_candidates(row, col, frozenset(s.get_candidates(row, col)))
        return new

    def line(self, text):
        for c in text.split(";"):
            if self.ended:
                return
            self.command(c.strip())

    def failed(self):
        self.errors += 1
        if not self.interactive:
            raise Died()

    def command(self, text):
        try:
            self._command(text)
        except Failure:
            self.failed()

    def _command(self, text):
        """One command; Failure leaves everything as it was."""
        words = text.split(" ")
        name = words[0]
        if name == "exit":
            if len(words) > 1:
                raise Failure(text)
            self.ended = True
            return
        try:
            args, kwargs = arguments(words[1:])
        except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
            raise Failure(text)
        if name == "loop":
            return self.do_loop(args, kwargs)
        if name not in LIBRARY and name not in ("push", "pop", "stack", "solve"):
            raise Failure(text)
        if self.loop:
            self.body.append((name, args, kwargs))
            return
        self.execute(name, args, kwargs)

    def do_loop(self, args, kwargs):
        if kwargs or len(args) != 1:
            raise Failure("loop")
        n = args[0]
        if n is END:
            if not self.loop:
                raise Failure("no loop")
            count, body = self.loop, self.body
            self.loop, self.body = None, []
            for _ in range(count):
                for c in body:
                    try:
                        self.execute(*c)
                    except Failure:
                        self.failed()
            return
        if isinstance(n, bool) or not isinstance(n, int) or n < 1 or self.loop:
            raise Failure("loop")
        self.loop = n

    def execute(self, name, args, kwargs):
        from sudokutools.sudoku import Sudoku
        old = self.sudoku, list(self.stack)
        # functions work on a copy, so that a failure changes nothing
        work = self.copy_of(self.sudoku)
        try:
            if name == "push":
                if args or kwargs:
                    raise Failure(name)
                self.stack.append(self.copy_of(self.sudoku))
                return
            if name == "stack":
                if args or kwargs:
                    raise Failure(name)
                self.out.append("stack has %d sudokus\n" % len(self.stack))
                return
            if name == "pop":
                pos = self.pop_position(*args, **kwargs)
                self.sudoku = self.stack.pop(pos)
                return
            if name == "solve":
                if args or kwargs:
                    raise Failure(name)
                from sudokutools.solve import bruteforce
                self.sudoku = next(bruteforce(work))
                return
            result = LIBRARY[name](work, *args, **kwargs)
        except Failure:
            raise
        except Exception:
            self.sudoku, self.stack = old
            raise Failure(name)
        self.sudoku = work
        if isinstance(result, Sudoku):
            self.sudoku = result
        elif result is not None:
            self.out.append(str(result) + "\n")

    def pop_position(self, position=None):
        if not self.stack:
            raise Failure("empty")
        if position is None:
            return len(self.stack) - 1
        if isinstance(position, bool) or not isinstance(position, int) or not 0 <= position < len(self.stack):
            raise Failure("position")
        return position

    def take(self):
        res = "".join(self.out)
        self.out = []
        return res

    def state(self):
        def key(s):
            return (tuple(s.box_size), tuple(s[rc] for rc in s), tuple(tuple(sorted(s.get_candidates(*rc), key=str)) for rc in s))
        return key(self.sudoku), tuple(key(s) for s in self.stack), self.loop, str(self.body), self.ended


def _library():
    def new(s, *a, **k):
        from sudokutools.sudoku import Sudoku
        return Sudoku(*a, **k)

    def decode(s, *a, **k):
        from sudokutools.sudoku import Sudoku
        return Sudoku.decode(*a, **k)

    def init_candidates(s, *a, **k):
        from sudokutools.solve import init_candidates
        return init_candidates(s, *a, **k)

    def view(s, *a, **k):
        from sudokutools.sudoku import view
        return view(s, *a, **k)

    def as_str(s, *a, **k):
        if a or k:
            raise TypeError()
        return str(s)

    def generate(s, *a, **k):
        from sudokutools.generate import generate
        return generate(*a, **k)

    def generate_from_template(s, *a, **k):
        from sudokutools.generate import generate_from_template
        return generate_from_template(s, *a, **k)

    def clear(s):
        # what it does to the terminal is left open (see without_clearing)
        return None

    def method(name):
        def call(s, *a, **k):
            return getattr(s, name)(*a, **k)
        return call
    return {"new": new, "decode": decode, "init_candidates": init_candidates, "view": view, "print": as_str,
            "set": method("set_number"), "get": method("get_number"), "set_candidates": method("set_candidates"),
            "get_candidates": method("get_candidates"), "remove_candidates": method("remove_candidates"),
            "encode": method("encode"), "generate": generate, "generate_from_template": generate_from_template,
            "clear": clear}


LIBRARY = _library()

def without_clearing(text):
    return text.replace("\033[H\033[J", "")


# Shows everything: current sudoku and the whole stack.
SHOW = "encode '/' '.' True"
OBSERVE = ["stack", SHOW, "print"]


def observers(depth):
    res = list(OBSERVE)
    for _ in range(depth):
        res += ["pop", SHOW]
    return res
