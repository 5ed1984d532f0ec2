"""C34: a call which is interrupted leaves no trace."""
import os
import pickle
import sys
import traceback

from mc import choices, ref
from mc.checks.c27 import grids, package, take, text, thin
from mc.core import Violation
from mc.lib import fail, flat, mk, need, show, snap

ID = "C34"
RULE = ("exhaustive fault injection: every call is interrupted at its k-th executed line of the package (KeyboardInterrupt, MemoryError and an exception "
        "of the caller in turn) for every k, in a process in which it is the first call (a process of its own for each k) and in one in which it is not; every callback and iterable given by the caller raises at its j-th use, every stream is closed or gets an "
        "exception thrown in after its j-th value, for every j; afterwards the exception has arrived, all arguments are as before (for "
        "calls which change a sudoku: every number as before or as after the complete call), and the same call and another one give what they give in a fresh process")
BOUNDS = {"quick": "72 calls, every line of calls with up to 500 lines, otherwise first, second and last visit of every line and 500 more; as first call: first, second and last visit and 40 more",
          "thorough": "72 calls, every line of calls with up to 20000 lines, with up to 1000 lines as first call"}
CASE_CPU = 300.0


class Stop(Exception):
    """The caller's exception."""


class Chooser(choices.Chooser):
    def __init__(self):
        choices.Chooser.__init__(self, "first")
        self.i = 0

    def below(self, n):
        self.i += 1
        if self.i > self.limit:
            raise choices.Endless("more than %d random choices" % self.limit)
        return (self.i * 7919 + n * 31) % n


RANDOM = Chooser()


def sudoku(k, cands=True):
    w, h, g = grids(k)
    return mk(w, h, g, ref.all_candidates(w, h, g) if cands else None)


# Calls which don't change what they are given: name -> function(sudoku, k) -> value
def p_dlx(s, k):
    from sudokutools.solve import dlx
    return [text(x) for x in take(dlx(s), 3)]


def p_brute(s, k):
    from sudokutools.solve import bruteforce
    return [text(x) for x in take(bruteforce(s), 3)]


def p_unique(s, k):
    from sudokutools.analyze import is_unique
    return is_unique(s)


def p_conflicts(s, k):
    from sudokutools.analyze import find_conflicts, is_solved
    return list(find_conflicts(s)), is_solved(s)


def p_solve(s, k):
    from sudokutools.solvers import solve
    steps = []
    return text(solve(s, steps.append)), [repr(x) for x in steps]


def p_rate(s, k):
    from sudokutools.analyze import rate, score
    return rate(s), score(s)


def p_hints(s, k):
    from sudokutools.solvers import hints
    return [str(x) for x in hints(s)]


def p_find(s, k):
    from sudokutools import solvers
    return [repr(x) for cls in solvers.SOLVERS for x in cls.find(s)]


def p_template(s, k):
    from sudokutools.generate import generate_from_template
    try:
        return text(generate_from_template(s, 3))
    except RuntimeError:
        return "none"


def p_generate(s, k):
    from sudokutools.generate import generate
    return text(generate(symmetry=(None, "mirror-x", "rotate-90", "rotate-180")[k], min_count=k, box_size=s.box_size))


def p_text(s, k):
    from sudokutools.sudoku import Sudoku, view
    t = s.encode(include_candidates=True)
    return t, view(s), str(s), text(Sudoku.decode(t, box_size=s.box_size)), s.encode("/", ".")


def p_copy(s, k):
    t, u = s.copy(), s.copy(include_candidates=True)
    return text(t), text(u), s == t, s.equals(u, candidates=True), list(s.diff(t)), s.count(), list(s.empty()), list(s.filled()), len(s)


def p_calc(s, k):
    from sudokutools.solve import calc_candidates
    return [sorted(calc_candidates(s, r, c)) for r, c in s], s.surrounding_of(0, 1), s.box_of(0, 0), s.box_at(0, 1)


def p_notation(s, k):
    from sudokutools import notation
    w, h = s.box_size
    fields = [rc for rc in s if (rc[0] * 3 + rc[1] + k) % 4 == 0]
    t = notation.encode(fields, w, h)
    a = notation.decode_action(t + "<>12", w, h)
    return t, notation.decode(t, w, h), notation.encode_action(a, w, h)


PURE = (p_dlx, p_brute, p_unique, p_conflicts, p_solve, p_rate, p_hints, p_find, p_template, p_generate, p_text, p_copy, p_calc, p_notation)


# Calls which change a sudoku
def m_init(s, k):
    from sudokutools.solve import init_candidates
    init_candidates(s, filled_only=k % 2 == 1)


def m_action(s, k):
    from sudokutools import notation
    w, h = s.box_size
    notation.decode_action(("r1=%d" % (k % 2 + 1), "c1<>2", "-1 b1", "b1=2")[k], w, h)(s)


def m_step(s, k):
    from sudokutools import solvers
    for cls in solvers.SOLVERS:
        for step in cls.find(s):
            step.apply(s)
            return


def m_set(s, k):
    s[0, 1] = 2
    s.set_number(1, 0, 1)
    s.set_candidates(0, 0, [1, 2])
    s.remove_candidates(1, 1, (1,))


CHANGE = (m_init, m_action, m_step, m_set)
CALLS = [(f, k) for f in PURE for k in range(4)] + [(f, k) for f in CHANGE for k in range(4)]


def subject(i):
    f, k = CALLS[i]
    s = sudoku(k, f not in (p_dlx, p_solve))
    if f is m_init:
        s.set_candidates(0, 0, ())
        s.set_candidates(1, 1, (1, 2))
    return s


def name(i):
    f, k = CALLS[i]
    w, h, g = grids(k)
    return "%s of %dx%d %s" % (f.__name__[2:], w, h, show(g))


def other(i, n):
    return (i + (1, 7, 30)[n // 2 % 3]) % len(CALLS)


class Tracer(object):
    """Raises an exception at a line event of the package."""

    def __init__(self, root, at=None, exc=None, places=None):
        self.root, self.at, self.exc, self.places = root, at, exc, places
        self.n = 0

    def __call__(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(self.root) else None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.places is not None:
                self.places.append((frame.f_code, frame.f_lineno))
            if self.n == self.at:
                sys.settrace(None)
                raise self.exc
        return self.local


def perform(i, s, tracer=None):
    RANDOM.i = 0
    f, k = CALLS[i]
    if tracer:
        sys.settrace(tracer)
    try:
        return f(s, k)
    finally:
        sys.settrace(None)


def state(s):
    N = s.box_size[0] * s.box_size[1]
    return snap(s, N)


def child(func, *args):
    """func(*args), in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            try:
                data = "value", func(*args)
            except Violation as e:
                data = "violation", str(e)
            except BaseException:
                data = "error", traceback.format_exc()
            with os.fdopen(w, "wb") as f:
                pickle.dump(data, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    need(data, "%r: the process was ended", args)
    kind, value = pickle.loads(data)
    if kind == "violation":
        raise Violation(value)
    if kind == "error":
        raise RuntimeError(value)
    return value


_alone = {}


def one(i):
    s = subject(i)
    v = perform(i, s)
    return v, state(s)


def alone(i):
    """(value, state of the sudoku afterwards) of the call in a fresh process."""
    if i not in _alone:
        _alone[i] = child(one, i)
    return _alone[i]


def places(i, root):
    res = []
    perform(i, subject(i), Tracer(root, places=res))
    return [(c.co_filename, c.co_firstlineno, n) for c, n in res]


def points(pl, limit):
    if len(pl) <= limit:
        return list(range(1, len(pl) + 1))
    seen = {}
    for n, p in enumerate(pl):
        seen.setdefault(p, []).append(n + 1)
    res = set()
    for v in seen.values():
        res.update((v[0], v[min(1, len(v) - 1)], v[-1]))
    res.update(thin(list(range(1, len(pl) + 1)), limit))
    return sorted(res)


def units(tier):
    q = tier == "quick"
    us = []
    for i in range(len(CALLS)):
        for part in range(1 if q else 4):
            us.append({"m": "lines", "i": i, "part": part, "parts": 1 if q else 4, "limit": 500 if q else 20000})
        us.append({"m": "cold", "i": i, "limit": 40 if q else 1000})
    for k in range(4):
        us.append({"m": "report", "k": k})
        us.append({"m": "stream", "k": k})
        us.append({"m": "items", "k": k})
    return us


def cases(unit):
    if unit["m"] == "lines":
        yield ["lines", unit["i"], unit["part"], unit["parts"], unit["limit"]]
    elif unit["m"] == "cold":
        yield ["cold", unit["i"], unit["limit"]]
    elif unit["m"] == "report":
        for x in range(len(KINDS)):
            yield ["report", unit["k"], x]
    elif unit["m"] == "stream":
        for x in range(len(streams())):
            yield ["stream", unit["k"], x]
    else:
        for x in range(len(ITEMS)):
            yield ["items", unit["k"], x]


def streams():
    from sudokutools import analyze, solve, solvers
    return [solve.dlx, solve.bruteforce, solvers.hints, analyze.find_conflicts] + [c.find for c in solvers.SOLVERS] + [
        lambda s: s.empty(), lambda s: s.filled(), lambda s: s.diff(s.copy()), iter]


def check(case, st):
    with RANDOM:
        globals()["check_" + case[0]](case, st)


def check_lines(case, st):
    _, i, part, parts, limit = case
    root = package()
    value, after = alone(i)
    before = state(subject(i))
    if CALLS[i][0] in PURE:
        need(after == before, "%s changes the sudoku", name(i))
    for n in (0, 2, 4):
        alone(other(i, n))
    # the second call, so that nothing which is done only once is counted
    one(i)
    pl = places(i, root)
    for n, p in enumerate(points(pl, limit)):
        if n % parts == part:
            interrupt(i, n, p, len(pl), root, st)
    st.outcome(i, repr(value)[:500])


def check_cold(case, st):
    _, i, limit = case
    root = package()
    value, after = alone(i)
    pl = child(places, i, root)
    for n, p in enumerate(points(pl, limit)):
        alone(other(i, n))
        child(interrupt, i, n, p, len(pl), root, None)
        st.step(3)
        st.state("cold", i, p)
    st.outcome(i, repr(value)[:500])


def interrupt(i, n, p, count, root, st):
    """Interrupts call i at line p, and compares what follows."""
    f, k = CALLS[i]
    value, after = alone(i)
    before = state(subject(i))
    exc = (KeyboardInterrupt(), MemoryError(), Stop())[n % 3 if f in PURE else 0]
    s = subject(i)
    where = "%s%s interrupted at line %d of %d (%s)" % ("" if st else "first call: ", name(i), p, count, type(exc).__name__)
    try:
        got = perform(i, s, Tracer(root, p, exc))
    except (KeyboardInterrupt, MemoryError, Stop) as e:
        need(e is exc, "%s: %r arrives", where, e)
    except Exception as e:
        fail("%s: %s: %s arrives", where, type(e).__name__, e)
    else:
        # a stream is closed by its reader after the last value taken: the interrupt may be lost there
        need(got == value, "%s: returns %.300r", where, got)
    now = state(s)
    if f in PURE:
        need(now == before, "%s: the sudoku was changed to %r", where, now)
    else:
        for a, b, c in zip(now[0], before[0], after[0]):
            need(a in (b, c), "%s: a field has %r, neither %r nor %r", where, a, b, c)
    # the same call again, and another one
    t = s if f in PURE else subject(i)
    got = perform(i, t)
    need(got == value and state(t) == after, "%s: then the same call gives %.300r instead of %.300r", where, got, value)
    j = other(i, n)
    if n % 2 or not st:
        want = alone(j)
        t = subject(j)
        got = perform(j, t)
        need((got, state(t)) == want, "%s: then %s gives %.300r instead of %.300r", where, name(j), got, want[0])
    if st:
        st.step(2 + n % 2)
        st.state(i, p)


KINDS = (Stop, KeyboardInterrupt, ValueError, KeyError, IndexError, TypeError, AttributeError, RuntimeError, RecursionError)


class Report(object):
    def __init__(self, n, exc):
        self.n, self.exc, self.seen = n, exc, []

    def __call__(self, step):
        if len(self.seen) == self.n:
            raise self.exc
        self.seen.append(repr(step))


def check_report(case, st):
    from sudokutools.solvers import solve
    _, k, x = case
    want = Report(None, None)
    sol = text(solve(sudoku(k), want))
    for n in range(len(want.seen)):
        s = sudoku(k)
        before = state(s)
        exc = KINDS[x]("report")
        rep = Report(n, exc)
        where = "%s: report raises %s at step %d" % (show(flat(s, len(s.indices))), type(exc).__name__, n)
        try:
            solve(s, rep)
            fail("%s: nothing arrives", where)
        except KINDS as e:
            need(e is exc, "%s: %r arrives", where, e)
        need(rep.seen == want.seen[:n], "%s: other steps before", where)
        need(state(s) == before, "%s: the sudoku was changed", where)
        again = Report(None, None)
        need(text(solve(s, again)) == sol and again.seen == want.seen, "%s: solved differently then", where)
        st.step(2)
        st.state(k, n)
    st.outcome(sol)


def content(x):
    return text(x) if hasattr(x, "get_candidates") else repr(x)


def check_stream(case, st):
    _, k, x = case
    make = streams()[x]
    w, h, g = grids(k)
    g = list(g)
    if x % 2:
        g[0] = g[1] = 1
    s = mk(w, h, g, ref.all_candidates(w, h, g))
    before = state(s)
    want = [content(v) for v in make(s)]
    need(state(s) == before, "the sudoku was changed")
    for j in range(min(len(want), 40) + 1):
        for how in range(3):
            where = "stream %d of %s after %d values" % (x, show(g), j)
            stream = make(s)
            got = [content(next(stream)) for _ in range(j)]
            need(got == want[:j], "%s: %.300r", where, got)
            if how == 0 and hasattr(stream, "close"):
                stream.close()
            elif how == 1 and hasattr(stream, "throw"):
                exc = KeyboardInterrupt()
                try:
                    stream.throw(exc)
                    fail("%s: an exception thrown in is swallowed", where)
                except KeyboardInterrupt as e:
                    need(e is exc, "%s: %r arrives", where, e)
            else:
                stream = iter(())
            need(next(stream, None) is None, "%s: closed, but there is another value", where)
            need(state(s) == before, "%s: the sudoku was changed", where)
            again = [content(v) for v in make(s)]
            need(again == want, "%s: then %.300r instead of %.300r", where, again, want)
            st.step(2)
        st.state(k, x, j)
    st.outcome(k, x, len(want))


def items(values, j, exc):
    for n, v in enumerate(values):
        if n == j:
            raise exc
        yield v
    if j >= len(values):
        raise exc


def i_set(s, it):
    s.set_candidates(0, 1, it([1, 2]))


def i_remove(s, it):
    s.remove_candidates(0, 1, it([1, 2]))


def i_encode(s, it):
    from sudokutools import notation
    notation.encode(it([(0, 0), (0, 1), (1, 1)]), *s.box_size)


def i_step(s, it):
    from sudokutools import solvers
    solvers.NakedPair(it([(0, 0), (0, 1)]), it([(1, 1)]), it([1, 2])).apply(s)


def i_action(s, it):
    from sudokutools.actions import RemoveCandidates
    RemoveCandidates([(0, 1)], it([1, 2]))(s)


def i_conflicts(s, it):
    from sudokutools.analyze import find_conflicts
    list(find_conflicts(s, *it([(0, 0), (0, 1)])))


def i_new(s, it):
    from sudokutools.sudoku import Sudoku
    Sudoku(it([2, 2]))


ITEMS = (i_set, i_remove, i_encode, i_step, i_action, i_conflicts, i_new)


def check_items(case, st):
    _, k, x = case
    f = ITEMS[x]
    for j in range(4):
        for exc in (Stop(), KeyboardInterrupt(), ValueError(), IndexError(), KeyError()):
            s = sudoku(k)
            before = state(s)
            where = "%s with an iterable which raises after %d items" % (f.__name__[2:], j)
            try:
                f(s, lambda values: items(values, j, exc))
                if x != 6:
                    fail("%s: nothing arrives", where)
            except KINDS as e:
                # iterators are no valid box size
                need(e is exc or x == 6, "%s: %r arrives", where, e)
            need(state(s) == before, "%s: the sudoku was changed", where)
            st.step()
            st.state(k, x, j)
    st.outcome(k, x)
