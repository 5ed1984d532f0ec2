"""C27: calls working on different sudokus never influence each other."""
import io
import os
import sys
import threading

from mc import choices, ref
from mc.domains import base
from mc.lib import fail, mk, show

ID = "C27"
RULE = ("stateless exploration of schedules: two calls of the library working on different sudokus run in two threads under a "
        "controlled scheduler (line events); the first is preempted at its k-th line, the second runs to its m-th line or its "
        "end, then the first finishes, then the second (at every fourth line the second call runs in the thread of the first one); every call must return what it returns alone")
BOUNDS = {"quick": "50 calls; every line of every call (of calls with more than 1500: every n-th) as the point of one preemption (second call in turn), all pairs of calls at the first, "
                   "second and last visit of the lines (sliced); two preemptions for calls of the same function and neighbours, 8 x 8 points",
          "thorough": "50 calls; all pairs of calls, every line (every n-th of calls with more than 6000) with one preemption; two preemptions for all "
                      "pairs, 12 x 12 points, 40 x 40 points for calls of the same function"}
CASE_CPU = 240.0

LOCAL = threading.local()


class PerThread(choices.Chooser):
    """Random numbers which only depend on the call which asks for them."""

    def __init__(self):
        choices.Chooser.__init__(self, "first")

    def below(self, n):
        i = getattr(LOCAL, "n", 0)
        if i > self.limit:
            raise choices.Endless("more than %d random choices" % self.limit)
        LOCAL.n = i + 1
        return (i * 7919 + getattr(LOCAL, "base", 0) * 104729 + n * 31) % n


# ---------------------------------------------------------------------- calls
def grids(k):
    """Two different sudokus for every kind of call: w, h, grid."""
    g = base(2, 2, 100)
    return [
        (2, 2, tuple(v if i in (0, 3, 6, 9, 12) else 0 for i, v in enumerate(g))),
        (1, 4, tuple(v if i in (0, 5, 10) else 0 for i, v in enumerate(base(1, 4, 0)))),
        (2, 2, tuple(0 if i in (1, 6, 11, 12) else v for i, v in enumerate(base(2, 2, 101)))),
        (1, 2, (0, 0, 0, 2)),
    ][k]


def text(s):
    return show([s[rc] for rc in s]), tuple(tuple(sorted(s.get_candidates(*rc))) for rc in s)


def make(k, cands=True):
    w, h, g = grids(k)
    return mk(w, h, g, ref.all_candidates(w, h, g) if cands else None)


def take(it, n):
    res = []
    for x in it:
        res.append(x)
        if len(res) >= n:
            break
    return res


def c_dlx(k):
    from sudokutools.solve import dlx
    return [text(s) for s in take(dlx(make(k, False)), 3)]


def c_brute(k):
    from sudokutools.solve import bruteforce
    return [text(s) for s in take(bruteforce(make(k, False)), 3)]


def c_unique(k):
    from sudokutools.analyze import is_unique
    return is_unique(make(k))


def c_conflicts(k):
    from sudokutools.analyze import find_conflicts, is_solved
    s = make(k)
    s[0, 0] = s[0, 1] = 2
    return list(find_conflicts(s)), is_solved(s)


def c_calc(k):
    from sudokutools.solve import init_candidates
    s = make(k, False)
    init_candidates(s)
    return text(s)


def c_solve(k):
    from sudokutools.solvers import solve
    steps = []
    return text(solve(make(k, False), steps.append)), [repr(x) for x in steps]


def c_rate(k):
    from sudokutools.analyze import rate, score
    return rate(make(k)), score(make(k))


def c_hints(k):
    from sudokutools.solvers import hints
    return [str(x) for x in hints(make(k))]


def c_steps(k):
    from sudokutools import solvers
    s = make(k)
    res = []
    for name in ("NakedSingle", "HiddenSingle", "NakedPair", "HiddenPair", "PointingPair", "XWing"):
        for step in getattr(solvers, name).find(s):
            step.apply(s)
            res.append(repr(step))
    return res, text(s)


def c_create(k):
    from sudokutools.generate import create_solution
    w, h, g = grids(k)
    return text(create_solution((w, h)))


def c_generate(k):
    from sudokutools.generate import generate
    w, h, g = grids(k)
    return text(generate(symmetry=(None, "mirror-x", "rotate-90", "rotate-180")[k], min_count=k, box_size=(w, h)))


def c_template(k):
    from sudokutools.generate import generate_from_template
    w, h, g = grids(k)
    t = mk(w, h, [1 if i % 4 else 0 for i in range(len(g))])
    return text(generate_from_template(t, 30))


def c_text(k):
    from sudokutools.sudoku import Sudoku, view
    s = make(k)
    t = s.encode("/", ".", True)
    u = Sudoku.decode(s.encode(include_candidates=True), box_size=s.box_size)
    return t, text(u), view(s), str(u)


def c_store(k):
    s = make(k)
    t = s.copy()
    u = s.copy(include_candidates=True)
    t[0, 0] = 2
    u.set_candidates(0, 1, (1, 2))
    u.remove_candidates(0, 1, (2,))
    return (text(s), text(t), text(u), s == t, s == u, list(s.diff(t)), list(s.empty()), list(s.filled()), s.count(),
            s.equals(u, candidates=True))


def c_coords(k):
    from sudokutools import coordinates as co
    w, h, g = grids(k)
    N = w * h
    res = []
    for i in range(N):
        res += [co.the_row(i, w, h), co.the_column(i, w, h), co.the_box(i, w, h), co.the_part(i, w, h)]
        res += [co.surrounding_of(i, (i * 2 + 1) % N, w, h), co.box_of(i, i, w, h, False), co.box_at(i, 0, w, h)]
    s = make(k)
    return res, s.surrounding_of(0, N - 1), s.box_of(N - 1, 0), s.row_of(0, 0), s.column_of(0, 0)


def c_notation(k):
    from sudokutools import notation
    w, h, g = grids(k)
    N = w * h
    sets = [[(0, 0)], [(0, c) for c in range(N)], [(r, r) for r in range(N)], [(N - 1, 0), (N - 1, 1), (0, 1)]]
    res = []
    for fields in sets:
        for boxes in (None, True, False):
            t = notation.encode(fields, w, h, use_boxes=boxes)
            res += [t, notation.decode(t, w, h)]
    return res


def c_action(k):
    from sudokutools import notation
    w, h, g = grids(k)
    s = make(k)
    for t in ("r1c1=%d" % (k % 2 + 1), "r12c1<>2", "-1 b1"):
        a = notation.decode_action(t, w, h)
        a(s)
    return text(s), notation.encode_action(a, w, h)


def c_shell(k):
    from sudokutools.shell import Shell
    w, h, g = grids(k)
    out = io.StringIO()
    lines = ["new (%d,%d); init_candidates" % (w, h), "set 0 0 %d" % (k % 2 + 1), "push", "loop 2; set 1 1 2; set_candidates 0 0 (1,)",
             "get 1 1; loop end", "stack; encode '' '' True", "pop", "encode", "solve", "encode", "help set"]
    Shell(interactive=False, infile=io.StringIO("\n".join(lines)), outfile=out).run()
    return out.getvalue()


SMALL = (c_unique, c_conflicts, c_calc, c_text, c_store, c_notation, c_action, c_coords, c_create)
FUNCS = (c_dlx, c_brute, c_solve, c_rate, c_hints, c_steps, c_generate, c_template, c_shell) + SMALL
CALLS = [(f, k) for f in FUNCS for k in ((0, 3) if f in (c_generate, c_template, c_hints, c_rate) else (0, 1, 3)
                                         if f in (c_dlx, c_brute, c_coords, c_unique) else (2, 3, 1))]


def name(i):
    f, k = CALLS[i]
    w, h, g = grids(k)
    return "%s of %dx%d %s" % (f.__name__[2:], w, h, show(g))


# ------------------------------------------------------------------ schedules
def package():
    import sudokutools
    return os.path.dirname(os.path.abspath(sudokutools.__file__)) + os.sep


def perform(i):
    """The call, as a value."""
    f, k = CALLS[i]
    LOCAL.n = 0
    LOCAL.base = k
    try:
        return "value", f(k)
    except Exception as e:
        return "exception", type(e).__name__, str(e)[:200]


class Tracer(object):
    """Counts line events of the package; calls back at one of them."""

    def __init__(self, root, stop=None, at=None, places=None):
        self.root, self.stop, self.at, self.places = root, stop, at, places
        self.n = 0

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.places is not None:
                self.places.append((frame.f_code, frame.f_lineno))
            if self.n == self.stop:
                sys.settrace(None)
                self.at()
                return None
        return self.local

    def run(self, i):
        sys.settrace(self)
        try:
            return perform(i)
        finally:
            sys.settrace(None)


class Second(threading.Thread):
    """The second call: runs up to its m-th line (or its end), later to its end."""

    def __init__(self, root, i, m):
        threading.Thread.__init__(self, daemon=True)
        self.i, self.m, self.root = i, m, root
        self.paused = threading.Event()
        self.go = threading.Event()
        self.result = None

    def run(self):
        try:
            if self.m is None:
                self.result = perform(self.i)
            else:
                self.result = Tracer(self.root, self.m, self.pause).run(self.i)
        finally:
            self.paused.set()

    def pause(self):
        self.paused.set()
        self.go.wait()


def schedule(root, a, b, k, m):
    """-> (result of a, result of b, whether the preemption happened)."""
    if m == "nested":
        # the second call runs in the same thread
        result = []

        def nested():
            state = LOCAL.n, LOCAL.base
            result.append(perform(b))
            LOCAL.n, LOCAL.base = state
        ra = Tracer(root, k, nested).run(a)
        return ra, result[0] if result else None, bool(result)
    second = Second(root, b, m)

    def preempt():
        second.start()
        # code holding a lock would keep the second call from going on: let the first one continue then
        second.paused.wait(5)
    tracer = Tracer(root, k, preempt)
    ra = tracer.run(a)
    second.go.set()
    if not second.ident:
        return ra, None, False
    second.join(60)
    if second.is_alive():
        fail("%s does not end if %s is preempted by it", name(b), name(a))
    return ra, second.result, True


_alone = {}


def alone(root, i):
    """(value, places of the line events) of the call on its own."""
    if i not in _alone:
        places = []
        v = Tracer(root, None, None, places).run(i)
        if perform(i) != v:
            fail("%s gives different results", name(i))
        _alone[i] = v, places
    return _alone[i]


def visits(places):
    """Numbers of the first, second and last visit of every line."""
    seen = {}
    for n, p in enumerate(places):
        seen.setdefault(p, []).append(n + 1)
    res = set()
    for v in seen.values():
        res.update((v[0], v[min(1, len(v) - 1)], v[-1]))
    return sorted(res)


def thin(points, n):
    if len(points) <= n:
        return points
    return [points[i * len(points) // n] for i in range(n)]


def units(tier):
    q = tier == "quick"
    n = len(CALLS)
    us = []
    for a in range(n):
        us.append({"m": "lines", "a": a, "step": 1, "each": 1 if q else 4})
        us.append({"m": "pairs", "a": a, "n": 10 if q else 120})
        if q:
            us.append({"m": "two", "a": a, "n": 8, "others": [b for b in range(n) if b != a and (
                CALLS[a][0] is CALLS[b][0] or (b - a) % n in (3, 7))]})
        else:
            us.append({"m": "two", "a": a, "n": 12, "others": [b for b in range(n) if b != a]})
            us.append({"m": "two", "a": a, "n": 40, "others": [b for b in range(n) if b != a and CALLS[a][0] is CALLS[b][0]]})
    return us


def cases(unit):
    if unit["m"] == "lines":
        for part in range(8):
            yield ["lines", unit["a"], part, unit["each"]]
    elif unit["m"] == "pairs":
        for b in range(len(CALLS)):
            if b != unit["a"]:
                yield ["pairs", unit["a"], b, unit["n"]]
    else:
        for b in unit["others"]:
            yield ["two", unit["a"], b, unit["n"]]


def check(case, st):
    root = package()
    with PerThread():
        _check(case, st, root)


def _check(case, st, root):
    mode, a = case[0], case[1]
    n = len(CALLS)
    va, places = alone(root, a)
    runs = []
    if mode == "lines":
        lines = range(case[2] + 1, len(places) + 1, 8)
        limit = 1500 if case[3] == 1 else 6000
        if len(places) > limit:
            lines = range(case[2] + 1, len(places) + 1, 8 * (len(places) // limit + 1))
        for k in lines:
            for j in range(case[3]):
                b = (a + 1 + (k * 5 + k // n + j * 11) % (n - 1)) % n
                runs.append((b, k, None if (k + k // 4) % 4 else "nested"))
    elif mode == "pairs":
        pts = visits(places)
        runs = [(case[2], k, None) for k in thin(pts[case[2] % 3:] or pts, case[3])]
    else:
        pb = alone(root, case[2])[1]
        runs = [(case[2], k, m) for k in thin(visits(places), case[3]) for m in thin(visits(pb), case[3])]
    for b, k, m in runs:
        vb = alone(root, b)[0]
        ra, rb, done = schedule(root, a, b, k, m)
        where = "%s preempted at its line %d by %s%s" % (name(a), k, name(b), "" if m is None else " in the same thread" if m == "nested" else " until its line %d" % m)
        if ra != va:
            fail("%s gives %.300r instead of %.300r", where, ra, va)
        if done and rb != vb:
            fail("%s: the latter gives %.300r instead of %.300r", where, rb, vb)
        st.step(2 if done else 1)
        st.state(a, b, k, m)
        st.note("schedules")
        if done:
            st.note("preemptions", 1 if m is None or m == "nested" else 2)
    st.outcome(a, repr(va)[:500])
