"""C05: human solving steps never rule out a solution."""
from itertools import product

from mc import domains, ref, steps
from mc.lib import fail, flat, mk, need, show, snap

ID = "C05"
RULE = ("explicit-state search over real sudokus: from the calculated candidates every found step of "
        "every technique is a transition (breadth first to a depth, complete solving paths in every "
        "rotation of the techniques for larger sudokus); in addition all apply/skip decisions while "
        "searching lazily, interleavings of two suspended searches, and late application of previously "
        "found steps; in every state each filled number and each missing candidate is checked against "
        "the set of all solutions")
BOUNDS = {"quick": "4x4: depth 2 (all) / 3 (some puzzles), 6x6: depth 1-2, 9x9..16x16: solving paths, domains.rare() in 2 rotations",
          "thorough": "4x4: depth 3-4, 6x6: depth 2, 9x9..16x16: solving paths in all rotations, also of domains.rare()"}


def puzzle_list(kind):
    """Named lists of (w, h, grid)."""
    f, w, h, a = kind
    if f == "p":
        return [(w, h, g) for g in steps.puzzles(w, h, a[0], a[1], a[2], a[3])]
    if f == "d":
        return list(domains.grids(dict({"f": a[0], "w": w, "h": h}, **a[1])))
    raise ValueError(f)


def shape_units(tier):
    """Units shared by C05, C06, C07: mode, depth and a slice of a list of puzzles."""
    q = tier == "quick"
    us = []

    def add(mode, kind, lo=0, hi=None, **kw):
        d = {"mode": mode, "kind": kind, "lo": lo, "hi": hi}
        d.update(kw)
        us.append(d)

    # many 4x4 puzzles, short search
    for v in (100, 101, 3):
        for off in range(8):
            add("bfs", ["p", 2, 2, [v, [4, 5, 6], 1200 if q else 240, 150 * off]], depth=2)
            add("bfs", ["p", 2, 2, [v, [5, 6, 7, 8, 9, 10], 800 if q else 200, 97 * off]], depth=2)
    # deeper search
    for v in (100, 101):
        for off in range(4 if q else 16):
            add("bfs", ["p", 2, 2, [v, [5, 6], 6000 if q else 3000, 711 * off]], depth=3 if q else 4)
    # other shapes of the same length
    for w, h in ((1, 4), (4, 1)):
        add("bfs", ["p", w, h, [0, [5, 6, 7], 2500 if q else 500, 3]], depth=2)
    # 6x6 and 5x5
    for w, h in ((2, 3), (3, 2), (1, 5), (5, 1), (1, 6), (6, 1)):
        add("bfs", ["d", w, h, ["digits", {"k": 3, "v": 1, "hi": 3 if q else 10}]], depth=1 if q else 2)
        add("bfs", ["d", w, h, ["digits", {"k": 2, "v": 0, "keep": 1, "lo": 2, "hi": 12 if q else 80}]], depth=1 if q else 2)
    # paths
    n = len(steps.HUMAN) - 1
    for i in range(1, 7):
        for mode in ("all", "first", "last"):
            rots = range(0, n, 1) if not q else ([i, i + 7] if mode == "all" else [2 * i + (mode == "last")])
            for r in rots:
                add("path", ["d", 3, 3, ["corpus", {"i": i, "dev": 0}]], rot=r % n, how=mode)
    for w, h in ((2, 4), (4, 2), (2, 5), (5, 2), (3, 4), (4, 3), (4, 4)):
        for r in (0, 5, 11) if q else range(0, n, 2):
            add("path", ["d", w, h, ["digits", {"k": 3 if w * h < 12 else 2, "lo": r, "hi": r + 1, "v": r % 8}]], rot=r, how="all")
            add("path", ["d", w, h, ["units", {"k": 2, "lo": 3 * w * h + 7 * r, "hi": 3 * w * h + 7 * r + 1, "v": r % 8}]], rot=n - 1 - r, how="all")
    return us


def units(tier):
    us = shape_units(tier)
    q = tier == "quick"
    for v in (100, 101):
        for off in range(8):
            for mode in ("lazy", "late", "merge"):
                us.append({"mode": mode, "kind": ["p", 2, 2, [v, [4, 5, 6], 2500 if q else 500, 321 * off]],
                           "lo": 0, "hi": None})
    for i in range(1, 7):
        us.append({"mode": "late9", "kind": ["d", 3, 3, ["corpus", {"i": i, "dev": 0}]], "lo": 0, "hi": None})
        us.append({"mode": "lazy9", "kind": ["d", 3, 3, ["corpus", {"i": i, "dev": 0}]], "lo": 0, "hi": None})
    for i in range(len(domains.rare())):
        us.append({"mode": "rare", "i": i, "rots": (0, 7) if q else range(len(steps.HUMAN) - 1)})
    return us


def cases(unit):
    if unit["mode"] == "rare":
        for w, h, g in domains.grids({"f": "rare", "lo": unit["i"], "hi": unit["i"] + 1}):
            for rot in unit["rots"]:
                yield ["rare", w, h, g, None, rot, None]
        return
    for w, h, g in puzzle_list(unit["kind"])[unit["lo"]:unit["hi"]]:
        if ref.count_solutions(w, h, g, 3000) >= 3000:
            continue
        if unit["mode"] in ("bfs", "path"):
            yield [unit["mode"], w, h, g, unit.get("depth"), unit.get("rot"), unit.get("how")]
        else:
            yield [unit["mode"], w, h, g, None, None, None]


class Oracle(object):
    """Which numbers each field has in any solution."""

    def __init__(self, w, h, g, partial=False):
        self.w, self.h, self.g, self.N = w, h, g, w * h
        if partial:
            # some solutions only, with small and with large numbers first
            swap = [0] + [self.N + 1 - v for v in range(1, self.N + 1)]
            sols = ref.solutions(w, h, g, 200) + [tuple(swap[v] for v in f) for f in ref.solutions(
                w, h, tuple(swap[v] for v in g), 200)]
        else:
            sols = ref.solutions(w, h, g, 3000)
            need(len(sols) < 3000, "puzzle with too many solutions in the harness")
        self.sols = sols
        self.allowed = [frozenset(s[k] for s in sols) for k in range(self.N ** 2)]

    def sound(self, s, what):
        """Every solution is still possible."""
        if not self.sols:
            return
        grid, cands = s if isinstance(s, tuple) else snap(s, self.N)
        for k, a in enumerate(self.allowed):
            v = grid[k]
            if v and (v not in a or len(a) > 1):
                fail("%dx%d %s: %s leads to %d in field %d, solutions have %s there",
                     self.w, self.h, show(self.g), what, v, k, sorted(a))
            if not a <= cands[k]:
                fail("%dx%d %s: %s leaves only %s in field %d, solutions have %s there",
                     self.w, self.h, show(self.g), what, sorted(cands[k]), k, sorted(a))


def check_bruteforce(o, s, st):
    from sudokutools.solvers import Bruteforce
    if not o.sols:
        need(list(Bruteforce.find(s)) == [], "brute force finds steps without a solution")
        return
    for step in Bruteforce.find(s.copy(include_candidates=True)):
        pass
    t = s.copy(include_candidates=True)
    found = list(Bruteforce.find(t))
    for step in found:
        step.apply(t)
    need(flat(t, o.N) in set(o.sols), "brute force on %s completes to %s", show(flat(s, o.N)), show(flat(t, o.N)))
    t = s.copy(include_candidates=True)
    Bruteforce.apply_all(t)
    need(flat(t, o.N) in set(o.sols), "lazy brute force on %s completes to %s", show(flat(s, o.N)), show(flat(t, o.N)))
    st.step(2)


def lazy(o, w, h, state, gen_of, what, st, limit):
    """All apply/skip decisions for the first `limit` steps of a lazy search."""
    total = 0
    for bits in product((1, 0), repeat=limit):
        s = build(w, h, state)
        n = 0
        for step in gen_of(s):
            if n >= limit:
                use = bits[n % limit]
            else:
                use = bits[n]
            n += 1
            if use:
                step.apply(s)
                o.sound(s, "%s with decisions %s: %s" % (what, bits, step))
            need(n < 2000, "%s does not end", what)
        st.step(n)
        total = max(total, n)
        if n == 0:
            return
    return total


build = steps.build


def rare(w, h, g, rot, st):
    """A solving path on which rare techniques are used; every step is checked against some solutions."""
    o = Oracle(w, h, g, True)
    need(len(o.sols) > 0, "sudoku without a solution in the harness")
    order = steps.HUMAN[1:][rot:] + steps.HUMAN[1:][:rot]
    s = build(w, h, steps.start(w, h, g))
    n, going = 0, True
    while going:
        going = False
        for name in order:
            for step in steps.technique(name).find(s):
                step.apply(s)
                o.sound(s, str(step))
                st.note("steps of " + name)
                n += 1
                need(n < 5000, "solving %dx%d %s does not end", w, h, show(g))
                going = True
            if going:
                break
    st.step(n)
    st.state(w, h, g, rot)
    st.outcome(n)


def check(case, st):
    mode, w, h, g, depth, rot, how = case
    g = tuple(g)
    N = w * h
    if mode == "rare":
        rare(w, h, g, rot, st)
        return
    o = Oracle(w, h, g)
    count = [0]

    def visit(state, s):
        o.sound(state, "a reachable state")
        st.state(w, h, state)
        found = steps.find_all(s)
        for name, step in found:
            t = build(w, h, state)
            step.apply(t)
            o.sound(t, str(step))
        st.step(len(found))
        count[0] += 1
        if count[0] % 8 == 1:
            check_bruteforce(o, s, st)
        return found

    if mode == "bfs":
        n = steps.bfs(w, h, g, depth, visit)
        st.outcome(n, len(o.sols))
    elif mode == "path":
        n = steps.path(w, h, g, rot, how, visit)
        st.outcome(n, len(o.sols))
    else:
        state = steps.start(w, h, g)
        from sudokutools.solvers import hints
        live = [name for name in steps.HUMAN[1:] if steps.find(name, build(w, h, state))]
        if mode.startswith("lazy"):
            lim = 7 if N < 9 else 4
            for name in live:
                n = lazy(o, w, h, state, steps.technique(name).find, name, st, lim)
                st.outcome(name, n)
            lazy(o, w, h, state, hints, "hints", st, lim + 1)
        elif mode.startswith("late"):
            # steps found in the first state, applied in other orders and after other steps
            found = steps.find_all(build(w, h, state))
            m = len(found)
            for i in range(m):
                for j in range(m):
                    if N > 4 and (i * 7 + j) % 5:
                        continue
                    s = build(w, h, state)
                    objs = [x[1] for x in steps.find_all(s)] if (i + j) % 4 == 0 else [x[1] for x in found]
                    first, second = objs[i], objs[j]
                    first.apply(s)
                    # everything the first step opens up
                    for name in live:
                        steps.technique(name).apply_all(s)
                        break
                    second.apply(s)
                    o.sound(s, "%s, then late %s" % (first, second))
                    st.step(2)
            # all found steps applied late in reverse order and rotated
            for k in range(min(m, 12)):
                s = build(w, h, state)
                objs = [x[1] for x in steps.find_all(s)]
                for step in list(reversed(objs[k:])) + objs[:k]:
                    step.apply(s)
                    o.sound(s, "late %s" % step)
                st.step(m)
            st.outcome(m)
        elif mode == "merge":
            # two suspended searches on the same sudoku, all interleavings of 6 requests
            for a in live:
                for b in live:
                    for bits in product((0, 1), repeat=6):
                        s = build(w, h, state)
                        gens = [steps.technique(a).find(s), steps.technique(b).find(s)]
                        for x in bits:
                            step = next(gens[x], None)
                            if step is not None:
                                step.apply(s)
                                o.sound(s, "%s interleaved with %s %s: %s" % (a, b, bits, step))
                                st.step()
        st.state(mode, w, h, state)
