"""C35: calls which only read a sudoku can share it."""
import sys

from mc import ref
from mc.checks import c27, c34
from mc.checks.c27 import LOCAL, PerThread, grids, package, thin, visits
from mc.lib import fail, mk, need, show

ID = "C35"
RULE = ("stateless exploration of schedules: two calls which only read the same sudoku object run in two threads under a controlled scheduler (line events), the "
        "first one preempted at its k-th line by the second one, which runs to its m-th line or its end (every fourth: in the thread of the first one); both must return what they "
        "return alone; and at every single line of every call, at every reported step and after every value of a stream, numbers and candidates of the sudoku are the same")
BOUNDS = {"quick": "13 calls on each of 6 sudokus; watching: every line (up to 30000); one preemption: every line of calls with up to 400 lines, otherwise 400 lines; all pairs at 12 lines; "
                   "two preemptions: 6 x 6 lines for every third pair",
          "thorough": "13 calls on each of 6 sudokus; watching: every line (up to 2000000); one preemption: every line of calls with up to 5000 lines; all pairs at 150 lines; "
                      "two preemptions: 16 x 16 lines for all pairs"}
CASE_CPU = 300.0


def sudoku(k):
    if k < 4:
        w, h, g = grids(k)
        return mk(w, h, g, ref.all_candidates(w, h, g))
    if k == 4:
        # conflicts, other candidates than calculated
        return mk(2, 2, (1, 1, 0, 0, 2, 0, 0, 3, 0, 0, 0, 0, 4, 0, 0, 2), [frozenset(x) for x in ((1,), (2,), (1, 2), (3,), (), (4, 3), (1, 2, 3, 4), (2,)) * 2])
    # candidates missing
    return mk(2, 2, (1, 0, 0, 0, 0, 0, 3, 0, 0, 2, 0, 0, 0, 0, 0, 4), [frozenset()] * 16)


FUNCS = tuple(f for f in c34.PURE if f is not c34.p_generate)
K = range(6)


def name(f, k):
    return "%s of sudoku %d" % (f.__name__[2:], k)


def perform(f, k, s):
    LOCAL.n = 0
    LOCAL.base = k
    try:
        return "value", f(s, k)
    except Exception as e:
        return "exception", type(e).__name__, str(e)[:200]


class Tracer(c27.Tracer):
    def run(self, f, k, s):
        sys.settrace(self)
        try:
            return perform(f, k, s)
        finally:
            sys.settrace(None)


class Second(c27.Second):
    def __init__(self, root, f, k, s, m):
        c27.Second.__init__(self, root, None, m)
        self.call = f, k, s

    def run(self):
        try:
            if self.m is None:
                self.result = perform(*self.call)
            else:
                self.result = Tracer(self.root, self.m, self.pause).run(*self.call)
        finally:
            self.paused.set()


def schedule(root, f, g, k, line, m):
    s = sudoku(k)
    if m == "nested":
        result = []

        def nested():
            state = LOCAL.n, LOCAL.base
            result.append(perform(g, k, s))
            LOCAL.n, LOCAL.base = state
        ra = Tracer(root, line, nested).run(f, k, s)
        return ra, result[0] if result else None, bool(result), s
    second = Second(root, g, k, s, m)

    def preempt():
        second.start()
        second.paused.wait(5)
    ra = Tracer(root, line, preempt).run(f, k, s)
    second.go.set()
    if not second.ident:
        return ra, None, False, s
    second.join(60)
    if second.is_alive():
        fail("%s does not end if %s is preempted by it", name(g, k), name(f, k))
    return ra, second.result, True, s


_alone = {}


def alone(root, f, k):
    if (f, k) not in _alone:
        places = []
        s = sudoku(k)
        before = c34.state(s)
        v = Tracer(root, None, None, places).run(f, k, s)
        need(c34.state(s) == before, "%s changes it", name(f, k))
        need(perform(f, k, s) == v, "%s gives different results", name(f, k))
        _alone[f, k] = v, places
    return _alone[f, k]


class Watch(object):
    """Looks at the sudoku at every line."""

    def __init__(self, root, s, limit):
        self.root, self.s, self.limit = root, s, limit
        self.before = c34.state(s)
        self.n = 0
        self.seen = None

    def __call__(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(self.root) else None

    def local(self, frame, event, arg):
        if event == "line" and self.n < self.limit:
            self.n += 1
            if self.seen is None:
                now = c34.state(self.s)
                if now != self.before:
                    self.seen = now
        return self.local


def units(tier):
    q = tier == "quick"
    us = []
    for k in K:
        for x in range(len(FUNCS)):
            us.append({"m": "watch", "k": k, "x": x, "limit": 30000 if q else 2000000})
            us.append({"m": "lines", "k": k, "x": x, "limit": 400 if q else 5000})
            us.append({"m": "pairs", "k": k, "x": x, "limit": 12 if q else 150})
            us.append({"m": "two", "k": k, "x": x, "limit": 6 if q else 16, "step": 3 if q else 1})
        us.append({"m": "between", "k": k})
    return us


def cases(unit):
    m, k = unit["m"], unit["k"]
    if m in ("watch", "lines"):
        yield [m, k, unit["x"], unit["limit"]]
    elif m == "between":
        for x in range(len(FUNCS)):
            yield [m, k, x]
    else:
        for y in range(unit["x"] % unit.get("step", 1), len(FUNCS), unit.get("step", 1)):
            yield [m, k, unit["x"], unit["limit"], y]


def check(case, st):
    root = package()
    with PerThread():
        if case[0] == "watch":
            check_watch(case, st, root)
        elif case[0] == "between":
            check_between(case, st, root)
        else:
            check_schedules(case, st, root)


def check_watch(case, st, root):
    _, k, x, limit = case
    f = FUNCS[x]
    va = alone(root, f, k)[0]
    s = sudoku(k)
    watch = Watch(root, s, limit)
    sys.settrace(watch)
    try:
        v = perform(f, k, s)
    finally:
        sys.settrace(None)
    need(watch.seen is None, "%s: the sudoku changes to %r meanwhile", name(f, k), watch.seen)
    need(v == va, "%s gives different results", name(f, k))
    st.step(watch.n)
    st.note("lines", watch.n)
    st.state("watch", k, x)
    st.outcome(k, x, repr(va)[:500])


def check_schedules(case, st, root):
    m, k, x, limit = case[:4]
    f = FUNCS[x]
    va, places = alone(root, f, k)
    n = len(FUNCS)
    if m == "lines":
        pts = thin(list(range(1, len(places) + 1)), limit)
        runs = [(FUNCS[(x + i) % n], p, None if (i + i // n) % 4 else "nested") for i, p in enumerate(pts)]
    elif m == "pairs":
        runs = [(FUNCS[case[4]], p, None) for p in thin(visits(places), limit)]
    else:
        g = FUNCS[case[4]]
        runs = [(g, p, q) for p in thin(visits(places), limit) for q in thin(visits(alone(root, g, k)[1]), limit)]
    for g, p, q in runs:
        vb = alone(root, g, k)[0]
        ra, rb, done, s = schedule(root, f, g, k, p, q)
        where = "%s preempted at its line %d by %s%s" % (name(f, k), p, name(g, k), "" if q is None else " in the same thread" if q == "nested" else " until its line %d" % q)
        need(ra == va, "%s gives %.300r instead of %.300r", where, ra, va)
        need(not done or rb == vb, "%s: the latter gives %.300r instead of %.300r", where, rb, vb)
        need(c34.state(s) == c34.state(sudoku(k)), "%s changed the sudoku", where)
        st.step(2 if done else 1)
        st.state(f.__name__, g.__name__, k, p, q)
        st.note("schedules")
    st.outcome(m, k, x)


def check_between(case, st, root):
    """Another call after every reported step and every value of a stream."""
    from sudokutools.solvers import solve
    _, k, x = case
    g = FUNCS[x]
    vb = alone(root, g, k)[0]
    before = c34.state(sudoku(k))
    seen = []
    solution = c34.text(solve(sudoku(k), lambda step: seen.append(repr(step))))
    s = sudoku(k)
    got = []

    def report(step):
        got.append(repr(step))
        where = "%s at step %d of solving sudoku %d" % (name(g, k), len(got), k)
        need(c34.state(s) == before, "%s: the sudoku is %r", where, c34.state(s))
        v = perform(g, k, s)
        need(v == vb, "%s gives %.300r instead of %.300r", where, v, vb)
        st.step()
    need(c34.text(solve(s, report)) == solution and got == seen, "sudoku %d: solved differently if %s is called meanwhile", k, g.__name__[2:])
    for j, make in enumerate(c34.streams()):
        want = [c34.content(v) for _, v in zip(range(12), make(sudoku(k)))]
        s = sudoku(k)
        res = []
        for v in make(s):
            res.append(c34.content(v))
            where = "%s after value %d of stream %d of sudoku %d" % (name(g, k), len(res), j, k)
            need(c34.state(s) == before, "%s: the sudoku is %r", where, c34.state(s))
            v = perform(g, k, s)
            need(v == vb, "%s gives %.300r instead of %.300r", where, v, vb)
            st.step(2)
            if len(res) == 12:
                break
        need(res == want, "stream %d of sudoku %d gives %.300r instead of %.300r if %s is called meanwhile", j, k, res, want, g.__name__[2:])
        st.state(k, x, j)
    st.outcome(k, x, len(seen))
