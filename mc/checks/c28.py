"""C28: results only depend on arguments and random numbers, not on history or process."""
import json
import os
import subprocess
import sys
from functools import wraps
from itertools import product

from mc import ref
from mc.domains import base
from mc.lib import adversarial, fail, mk, show

ID = "C28"
RULE = ("exhaustive enumeration of histories and processes: every sequence of calls up to a length runs in one process, each call "
        "starting from a given state of the random number generator, and has to give the result it gives as the first call; and all "
        "calls run in new processes for every hash seed of a range, in several orders, whose complete results have to be equal")
BOUNDS = {"quick": "84 calls: all ordered pairs, triples over 14 calls; processes: 12 hash seeds x 3 orders, 40 random seeds",
          "thorough": "84 calls: all ordered pairs, triples over 30 calls, quadruples over 9; processes: 64 hash seeds x 6 orders, 400 random seeds"}
CASE_CPU = 240.0


def grids(k):
    g = base(2, 2, 100)
    return [
        (2, 2, tuple(v if i in (0, 5, 10) else 0 for i, v in enumerate(g))),
        (2, 3, tuple(v if i % 5 in (0, 3) else 0 for i, v in enumerate(base(2, 3, 0)))),
        (1, 4, tuple(v if i in (0, 5, 10) else 0 for i, v in enumerate(base(1, 4, 0)))),
        (2, 2, tuple(0 if i in (1, 6, 11, 12) else v for i, v in enumerate(base(2, 2, 101)))),
        (4, 1, tuple(v if i in (0, 6, 9) else 0 for i, v in enumerate(base(4, 1, 0)))),
        (2, 2, (1, 0, 0, 0, 0, 0, 0, 1) + (0,) * 8),
    ][k]


def text(s):
    return [list(s.box_size), show([s[rc] for rc in s]), [sorted(s.get_candidates(*rc)) for rc in s]]


def make(k, cands=True):
    w, h, g = grids(k)
    return mk(w, h, g, ref.all_candidates(w, h, g) if cands else None)


def take(it, n=12):
    res = []
    for x in it:
        res.append(x)
        if len(res) >= n:
            break
    return res


def c_dlx(k):
    from sudokutools.solve import dlx
    return [text(s) for s in take(dlx(make(k)))]


def c_brute(k):
    from sudokutools.solve import bruteforce
    return [text(s) for s in take(bruteforce(make(k)))]


def c_analyze(k):
    from sudokutools.analyze import find_conflicts, is_solved, is_unique
    s = make(k)
    s[0, 0] = s[0, 1] = s[1, 0] = 2
    return [repr(list(find_conflicts(s))), is_solved(s), is_unique(make(k))]


def c_solve(k):
    from sudokutools.solvers import solve
    steps = []
    return [text(solve(make(k, False), steps.append)), [repr(x) for x in steps]]


def c_rate(k):
    from sudokutools.analyze import rate, score
    return [rate(make(k)), score(make(k))]


def c_hints(k):
    from sudokutools.solvers import hints
    return [str(x) for x in hints(make(k))]


def c_find(k):
    # inconsistent, partly calculated and missing candidates
    from sudokutools.solvers import hints
    w, h, g = grids(k)
    res = []
    for kind in range(6):
        res += [repr(x) for x in take(hints(mk(w, h, g, adversarial(w, h, kind))), 150)]
    return res


def c_view(k):
    from sudokutools.sudoku import Sudoku, view
    s = make(k)
    t = s.encode("/", ".", True)
    return [t, text(Sudoku.decode(s.encode(include_candidates=True), box_size=s.box_size)), view(s), str(s)]


def c_notation(k):
    from sudokutools import notation
    w, h, g = grids(k)
    fields = [(r, c) for r in range(w * h) for c in range(w * h) if g[r * w * h + c]]
    t = notation.encode(fields, w, h)
    return [t, notation.encode(set(fields), w, h, use_boxes=True), [list(x) for x in notation.decode(t, w, h)]]


def c_candidates(k):
    from sudokutools.solve import init_candidates
    s = make(k, False)
    init_candidates(s)
    s.remove_candidates(0, 1, {1})
    return text(s)


def random_call(func):
    @wraps(func)
    def call(k):
        import random
        random.seed(k)
        return func(k)
    return call


BOXES = [(2, 2), (1, 4), (3, 2), (2, 1), (4, 1), (2, 3), (2, 2)]
SYM = [None, "rotate-90", "rotate-180", "mirror-x", "mirror-y", "mirror-xy"]


@random_call
def c_generate(k):
    from sudokutools.generate import generate
    box = BOXES[k % 7]
    return text(generate(min_count=(k * 3) % (box[0] * box[1] * 2), symmetry=SYM[k % 6], box_size=box))


@random_call
def c_create(k):
    from sudokutools.generate import create_solution
    return text(create_solution(box_size=BOXES[k % 7]))


@random_call
def c_template(k):
    from sudokutools.generate import generate_from_template
    box = BOXES[k % 7]
    N = box[0] * box[1]
    return text(generate_from_template(mk(box[0], box[1], [1 if (i + k) % 5 else 0 for i in range(N * N)]), 50))


@random_call
def c_shell(k):
    import io
    from sudokutools.shell import Shell
    out = io.StringIO()
    lines = ["generate 4 'rotate-180' (2,2)", "encode; push", "solve; encode", "pop; generate_from_template 50" if k % 2 else "pop",
             "encode; init_candidates; view", "new (%d,%d); encode '' '' True" % BOXES[k % 7], "help decode"]
    Shell(interactive=False, infile=io.StringIO("\n".join(lines)), outfile=out).run()
    return out.getvalue()


PLAIN = (c_dlx, c_brute, c_analyze, c_solve, c_rate, c_hints, c_find, c_view, c_notation, c_candidates)
CALLS = [(f, k) for f in PLAIN for k in range(6)] + [(f, k) for f in (c_generate, c_create, c_template) for k in range(7)] + [
    (c_shell, k) for k in range(3)]
RANDOM = (c_generate, c_create, c_template)


def name(c):
    return "%s(%d)" % (c[0].__name__[2:], c[1])


def perform(c):
    try:
        return ["value", json.loads(json.dumps(c[0](c[1])))]
    except Exception as e:
        return ["exception", type(e).__name__, str(e)[:100]]


def select(n):
    """n calls, of every function."""
    order = sorted(range(len(CALLS)), key=lambda i: (CALLS[i][1] % 7 * 7 % 5, i))
    byf = {}
    for i in order:
        byf.setdefault(CALLS[i][0].__name__, []).append(i)
    res = []
    while len(res) < n:
        for f in sorted(byf):
            if byf[f] and len(res) < n:
                res.append(byf[f].pop(0))
    return res


def units(tier):
    q = tier == "quick"
    us = [{"m": "pairs", "a": a} for a in range(0, len(CALLS), 1)]
    sel = select(14 if q else 30)
    us += [{"m": "triples", "a": a, "n": len(sel)} for a in sel]
    if not q:
        us += [{"m": "quad", "a": a, "n": 9} for a in select(9)]
    for lo in range(0, 12 if q else 64, 4):
        us.append({"m": "procs", "seeds": list(range(lo, lo + 4)), "orders": 3 if q else 6, "random": 40 if q else 400})
    return us


def cases(unit):
    m = unit["m"]
    if m == "pairs":
        yield ["hist", [[unit["a"], b] for b in range(len(CALLS))]]
    elif m in ("triples", "quad"):
        sel = select(unit["n"])
        for b in sel:
            yield ["hist", [[unit["a"], b] + list(rest) for rest in product(sel, repeat=1 if m == "triples" else 2)]]
    else:
        for seed in unit["seeds"]:
            for order in range(unit["orders"]):
                yield ["procs", seed, order, unit["random"]]


def items(n):
    """The calls of a process (indices; random ones by name and seed)."""
    return [(f.__name__, k) for f, k in CALLS if f in PLAIN or f is c_shell] + [
        (f.__name__, k) for k in range(n) for f in RANDOM]


def ordered(xs, order):
    if order == 0:
        return xs
    if order == 1:
        return xs[::-1]
    step = (0, 0, 3, 7, 11, 13)[order]
    while len(xs) % step == 0:
        step += 1
    return [xs[i * step % len(xs)] for i in range(len(xs))]


def child(order, n):
    res = {}
    for f, k in ordered(items(n), order):
        res["%s(%d)" % (f, k)] = perform((globals()[f], k))
    print(json.dumps(res, sort_keys=True))


def spawn(seed, order, n):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env["PYTHONPATH"] = os.pathsep.join([here, os.environ.get("MC_REPO", "/repo")])
    p = subprocess.run([sys.executable, "-c", "from mc.checks import c28; c28.child(%d, %d)" % (order, n)], env=env,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        return json.loads(p.stdout)
    except ValueError:
        fail("process with hash seed %d ends with %d: %s", seed, p.returncode, p.stderr[-500:])


_first = {}
_procs = {}


def first(i):
    """The result of a call in a process which has called nothing before."""
    if i not in _first:
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            code = 1
            try:
                os.close(r)
                with os.fdopen(w, "w") as f:
                    f.write(json.dumps(perform(CALLS[i])))
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            fail("%s gives no result", name(CALLS[i]))
        _first[i] = json.loads(data)
    return _first[i]


def check(case, st):
    if case[0] == "hist":
        # results of calls in new processes, taken before anything is called in this one
        for seq in case[1]:
            for i in seq:
                first(i)
        for seq in case[1]:
            for j, i in enumerate(seq):
                got = perform(CALLS[i])
                if got != first(i):
                    fail("%s after %s gives %.300r instead of %.300r", name(CALLS[i]),
                         [name(CALLS[x]) for x in seq[:j]], got, first(i))
            st.step(len(seq))
            st.state(*seq)
            st.note("histories")
        st.outcome(repr(got)[:1000])
    else:
        _, seed, order, n = case
        if n not in _procs:
            _procs[n] = spawn(0, 0, n)
        got = spawn(seed, order, n)
        if sorted(got) != sorted(_procs[n]):
            fail("other calls")
        for k in sorted(got):
            if got[k] != _procs[n][k]:
                fail("%s gives %.300r with hash seed %d (order %d of the calls), %.300r with hash seed 0", k[2:], got[k], seed, order, _procs[n][k])
            st.state(k, seed, order)
        st.step(len(got))
        st.note("processes")
        st.outcome(seed, order)
