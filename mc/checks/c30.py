"""C30: solving steps are values: comparable, printable, repeatable."""
import re
from ast import literal_eval
from itertools import permutations, product

from mc import ref, steps
from mc.checks import c05
from mc.lib import fail, mk, need, show, snap

ID = "C30"
RULE = ("every step found in every state of an explicit-state search (breadth first, complete solving paths, partly calculated "
        "candidates) is described, rebuilt from its repr, applied in both forms and action by action; all pairs of steps of a state and "
        "of neighbouring states are compared with the order of (clues, affected, values); apply_all of each technique is compared "
        "with applying its steps in turn; steps are built from all orders and kinds of small containers")
BOUNDS = {"quick": "states as C05 (paths) and all states of depth 2 of 4x4 sudokus; at most 60 steps and their pairs per state; containers of up to 4 fields / 4 values",
          "thorough": "states as C05, depth 3; 200 steps per state; containers of up to 5 fields / 4 values"}


def units(tier):
    q = tier == "quick"
    us = [u for i, u in enumerate(c05.shape_units(tier)) if u["mode"] == "path" or not q or i % 2 == 0]
    us = [dict(u, n=60 if q else 200) for u in us]
    for name in steps.HUMAN + ("Bruteforce",):
        us.append({"mode": "build", "name": name, "n": 4 if q else 5})
    return us


def cases(unit):
    if unit["mode"] == "build":
        yield ["build", unit["name"], unit["n"]]
        return
    from mc.checks import c06
    for c in c06.cases(unit):
        yield list(c) + [unit["n"]]


SINGLE = steps.SINGLES + ("Bruteforce",)


def described(step, what):
    """The step as (clues, affected, values), checked for being what it has to be."""
    for name in ("clues", "affected", "values"):
        x = getattr(step, name)
        need(isinstance(x, tuple), "%s: %s of %r is no tuple", what, name, step)
        if list(x) != sorted(x):
            fail("%s: %s of %r are not in ascending order", what, name, step)
    return tuple(tuple(c) for c in step.clues), tuple(tuple(c) for c in step.affected), tuple(step.values)


def texts(step, key, what):
    name = type(step).__name__
    got = re.match(r"(\w+) at (.*): (.*)$", str(step))
    need(got and got.group(1) == name, "%s: %s is printed as %r", what, name, str(step))
    try:
        clues, values = literal_eval(got.group(2)), literal_eval(got.group(3))
    except (ValueError, SyntaxError):
        fail("%s: %s%r is printed as %r", what, name, key, str(step))
    want = (key[0][0], key[2][0]) if name in SINGLE else (key[0], key[2])
    if (clues, values) != want:
        fail("%s: %s%r is printed as %r", what, name, key, str(step))


def rebuilt(step, what):
    name = type(step).__name__
    try:
        new = eval(repr(step), {"__builtins__": {}, name: steps.technique(name)})
    except Exception as e:
        fail("%s: repr %r of a step raises %s", what, repr(step), e)
    need(type(new) is type(step), "%s: %r gives %r", what, repr(step), new)
    return new


def compare(a, ka, b, kb, what):
    got = (a == b, a != b, a < b, a <= b, a > b, a >= b)
    want = (ka == kb, ka != kb, ka < kb, ka <= kb, ka > kb, ka >= kb)
    if got != want:
        fail("%s: ==, !=, <, <=, >, >= of %r and %r are %r instead of %r", what, a, b, got, want)


def examine(w, h, state, limit, st, what, before):
    from sudokutools import solvers
    N = w * h
    s = mk(w, h, *state)
    found = []
    for name in steps.HUMAN + (("Bruteforce",) if limit < 0 else ()):
        mine = list(steps.technique(name).find(s))
        found.extend(mine)
        # apply_all
        a, b = mk(w, h, *state), mk(w, h, *state)
        steps.technique(name).apply_all(a)
        for step in steps.technique(name).find(b):
            step.apply(b)
        if snap(a, N) != snap(b, N):
            fail("%s: %s.apply_all() gives another sudoku than applying the steps found", what, name)
        st.step()
    if len(found) > limit:
        st.note("steps left out", len(found) - limit)
        k = len(found) // limit + 1
        found = found[::k]
    keys = []
    for step in found:
        key = described(step, what)
        keys.append(key)
        texts(step, key, what)
        new = rebuilt(step, what)
        if described(new, what) != key or new != step or step != new or not step == new:
            fail("%s: %r is not equal to the step rebuilt from its repr, %r", what, step, new)
        if str(new) != str(step) or repr(new) != repr(step):
            fail("%s: %s is printed differently if rebuilt", what, step)
        # the effect: of the step, of the rebuilt one, of the actions of another one
        other = rebuilt(step, what)
        res = []
        t = mk(w, h, *state)
        step.apply(t)
        res.append(snap(t, N))
        t = mk(w, h, *state)
        new.apply(t)
        res.append(snap(t, N))
        if hasattr(other, "build_actions"):
            t = mk(w, h, *state)
            other.build_actions(t)
            if snap(t, N) != state:
                fail("%s: building the actions of %s changes the sudoku", what, step)
            for a in other.actions:
                a.func(t, a.row, a.col, a.value)
            res.append(snap(t, N))
        if len(set(res)) != 1:
            fail("%s: %r has another effect than the one rebuilt from its repr, or its actions", what, step)
        # applying does not change what the step is
        if described(step, what) != key or step != new:
            fail("%s: applying %s changes the step", what, new)
        st.step()
        st.state(w, h, type(step).__name__, key)
    # the order
    pool = list(zip(found, keys))
    old = before[-20:]
    for a, ka in pool:
        for b, kb in pool + old:
            if type(a) is type(b):
                compare(a, ka, b, kb, what)
                compare(b, kb, a, ka, what)
                st.note("pairs compared")
    try:
        got = sorted(found)
    except Exception as e:
        fail("%s: sorting the steps raises %s: %s", what, type(e).__name__, e)
    got = [described(x, what) for x in got]
    if sorted(got) != sorted(keys):
        fail("%s: sorting the steps gives other steps", what)
    if [x[0] for x in got] != sorted(x[0] for x in keys):
        fail("%s: sorted steps are not in the order of their clues", what)
    before[:] = pool[::max(1, len(pool) // 20)]
    return len(found)


def containers(items):
    yield tuple(items)
    yield list(items)
    yield set(items)
    yield frozenset(items)
    yield iter(items)
    yield (x for x in items)
    yield {x: 1 for x in items}


def check(case, st):
    mode = case[0]
    if mode == "build":
        return build(case[1], case[2], st)
    _, w, h, grid, depth, rot, how, limit = case
    grid = tuple(grid)
    before = []

    def visit(state, s):
        what = "%dx%d %s %s" % (w, h, show(state[0]), [sorted(c) for c in state[1]])
        examine(w, h, state, limit, st, what, before)
        return steps.find_all(s)
    if mode == "bfs":
        n = steps.bfs(w, h, grid, depth, visit)
    else:
        n = steps.path(w, h, grid, rot, how, visit)
        if ref.count_solutions(w, h, grid, 1):
            # the steps brute force finds
            s = mk(w, h, *steps.start(w, h, grid))
            for step in list(steps.technique("Bruteforce").find(s))[:6]:
                key = described(step, "brute force")
                texts(step, key, "brute force")
                new = rebuilt(step, "brute force")
                compare(step, key, new, key, "brute force")
    st.outcome(n)


def build(name, n, st):
    """Steps made of the same fields and values in every order and container."""
    cls = steps.technique(name)
    if name in SINGLE:
        pool = [(cls(r, c, v), (((r, c),), ((r, c),), (v,))) for r, c, v in product((0, 1, 2, 10), (0, 1, 10), (1, 2, 9, 16))]
    else:
        fields = [(1, 0), (0, 2), (0, 10), (10, 1), (0, 0)][:n]
        numbers = [2, 10, 1, 9][:n]
        first = cls(fields, fields[::-1], numbers)
        for perm in permutations(fields):
            for values in permutations(numbers):
                for kind in range(7):
                    step = cls(list(containers(perm))[kind], affected=list(containers(perm[::-1]))[(kind + 1) % 7],
                               values=list(containers(values))[(kind + 2) % 7])
                    key = described(step, "%s(%r, %r)" % (name, perm, values))
                    if key != (tuple(sorted(fields)), tuple(sorted(fields)), tuple(sorted(numbers))):
                        fail("%s made of %r and %r is %r", name, perm, values, step)
                    if not (step == first) or step != first or step < first or step > first or not step <= first:
                        fail("%r and %r are not equal", step, first)
                    st.step()
        pool = []
        small = [(), ((0, 2),), ((0, 10),), ((0, 2), (0, 10)), ((1, 0), (0, 2))]
        for clues, affected, values in product(small, small, [(), (1,), (2,), (10,), (2, 1), (1, 3)]):
            pool.append((cls(clues, affected, values), (tuple(sorted(clues)), tuple(sorted(affected)), tuple(sorted(values)))))
        # nothing given
        for step, key in ((cls(), ((), (), ())), (cls(small[3]), (small[3], (), ()))):
            pool.append((step, key))
    for a, ka in pool:
        if described(a, name) != ka:
            fail("%r is described by %r", ka, described(a, name))
        need(described(rebuilt(a, name), name) == ka, "%r is rebuilt as %r", a, rebuilt(a, name))
        for b, kb in pool:
            compare(a, ka, b, kb, name)
            st.note("pairs compared")
        st.state(name, ka)
    got = sorted((x for x, _ in reversed(pool)))
    need([described(x, name) for x in got] == sorted(k for _, k in pool), "sorted steps of %s are not in order", name)
    st.outcome(len(pool))
