"""C31: generated sudokus cannot be thinned out and use the freedom of the random choices."""
import random
from itertools import islice, permutations

from mc import choices, ref
from mc.checks.c10 import SYM, counts, images
from mc.core import arm
from mc.lib import fail, flat, mk, need, show

ID = "C31"
RULE = ("stateless exploration of generate() and create_solution() over random choices (all outcomes for small boxes, all schedules "
        "with one deviation from several policies above): in every outcome with enough filled fields each symmetric set of filled "
        "fields is emptied in turn and the independent solver must find several solutions; the set of all outcomes explored must "
        "contain every arrangement of the numbers in every box, and every single field (pair of fields) as the only empty one; "
        "seeds are enumerated")
BOUNDS = {"quick": "create_solution: all outcomes for N<=4 and 6x6; generate: N<=2 all, N=3,4: 1 deviation from 3 policies, up to 9x9: policies, 10x10 to 12x12: one policy each; "
                   "only empty fields: N<=4, 6; 60 seeds",
          "thorough": "create_solution: all outcomes for N<=6; generate: N<=2 all, N=3,4: 1 deviation from 8 policies, up to 12x12: more policies; "
                      "only empty fields: N<=6; 1000 seeds"}
CASE_CPU = 400.0


def units(tier):
    q = tier == "quick"
    us = []
    for w, h in ((1, 1), (1, 2), (2, 1)):
        for s in range(6):
            us.append({"m": "full", "w": w, "h": h, "s": s})
    for w, h in ((1, 3), (3, 1), (2, 2), (1, 4), (4, 1)):
        for s in range(6):
            for c in (0, w * h, (w * h) ** 2 // 2 - 1):
                us.append({"m": "dev", "w": w, "h": h, "s": s, "c": c, "bound": 1 if (w, h) != (1, 4) and (w, h) != (4, 1) else 0,
                           "bases": ["last", "mid", 1] if q else ["last", "first", "mid", "alt", 1, 2, 3, 4]})
    for w, h in ((2, 2), (1, 4), (4, 1)):
        for s in range(6):
            us.append({"m": "dev", "w": w, "h": h, "s": s, "c": 0, "bound": 0, "bases": list(range(5, 60 if q else 400))})
    for w, h in ((2, 3), (3, 2), (1, 5), (5, 1)):
        for s in range(6):
            us.append({"m": "dev", "w": w, "h": h, "s": s, "c": 0, "bound": 0, "bases": ["last", "mid"] + list(range(2, 6 if q else 40))})
    for w, h in ((3, 3), (2, 4), (4, 2)) if q else ((3, 3), (2, 4), (4, 2), (2, 5), (5, 2)):
        for s in range(6):
            us.append({"m": "dev", "w": w, "h": h, "s": s, "c": 0, "bound": 0, "bases": [1] if q else ["last", "mid", 1, 2, 3, 4, 5]})
    for w, h in ((4, 3), (3, 4), (12, 1), (1, 12), (2, 5), (11, 1), (2, 6)):
        for s in range(6):
            us.append({"m": "dev", "w": w, "h": h, "s": s, "c": 0, "bound": 0, "bases": [s + w] if q else [1, 2, 3, 4]})
    for w, h in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1), (2, 3), (3, 2)) + (() if q else ((1, 5), (5, 1), (1, 6), (6, 1))):
        us.append({"m": "boxes", "w": w, "h": h})
    for w, h in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1), (2, 3), (3, 2)) + (() if q else ((1, 6), (6, 1), (1, 5), (5, 1))):
        for s in range(6):
            us.append({"m": "only", "w": w, "h": h, "s": s})
    us.append({"m": "seeds", "n": 60 if q else 1000})
    return us


def cases(unit):
    m = unit["m"]
    if m == "full":
        for c in range((unit["w"] * unit["h"]) ** 2 + 1):
            yield ["full", unit["w"], unit["h"], unit["s"], c]
    elif m == "dev":
        for b in unit["bases"]:
            yield ["dev", unit["w"], unit["h"], unit["s"], unit["c"], b, unit["bound"]]
    elif m == "only":
        for k in (1, 2):
            yield ["only", unit["w"], unit["h"], unit["s"], k]
    elif m == "boxes":
        yield ["boxes", unit["w"], unit["h"]]
    else:
        for w, h in ((2, 2), (2, 3), (3, 3)):
            yield ["seeds", w, h, unit["n"]]


def orbits(sym, N):
    return sorted({tuple(sorted(set(images(sym, N, r, c)))) for r in range(N) for c in range(N)})


def two_solutions(w, h, t):
    """Whether there are at least two; for large sudokus solutions offered by the code are checked, before searching for others."""
    N = w * h
    if N > 9:
        from sudokutools.solve import dlx
        found = {flat(x, N) for x in islice(dlx(mk(w, h, t)), 2)}
        if len(found) == 2 and all(ref.valid_full(w, h, x) and all(a in (0, b) for a, b in zip(t, x)) for x in found):
            return True
    return ref.count_solutions(w, h, t, 2) > 1


def irreducible(w, h, sym, c, sudoku, what, st):
    N = w * h
    g = flat(sudoku, N)
    filled = N * N - g.count(0)
    st.state(w, h, sym, c, g)
    orbs = orbits(sym, N)
    if filled - max(len(o) for o in orbs) < c:
        # the requested number of fields kept it from going on
        st.note("outcomes at the minimum")
        return
    for orb in orbs:
        if not g[orb[0][0] * N + orb[0][1]]:
            continue
        t = list(g)
        for r, k in orb:
            t[r * N + k] = 0
        if not two_solutions(w, h, tuple(t)):
            fail("%s: in %s the fields %r could be emptied as well", what, show(g), orb)
        st.step()
    st.outcome(w, h, sym, filled)


def check(case, st):
    from sudokutools.generate import create_solution, generate
    mode, w, h = case[:3]
    N = w * h
    if mode in ("full", "dev"):
        sym, c = SYM[case[3]], case[4]
        what = "generate(%r, %r, %dx%d)" % (c, sym, w, h)

        def func():
            arm()
            return generate(min_count=c, symmetry=sym, box_size=(w, h))

        def visit(res, sched):
            irreducible(w, h, sym, c, res, "%s with choices %s %r" % (what, case[5:6], sched), st)
        if mode == "full":
            choices.full(func, visit)
        else:
            choices.deviations(func, visit, case[5], case[6])
    elif mode == "boxes":
        missing = {(b, p) for b in range(N) for p in permutations(range(1, N + 1))}
        boxes = [[k for k in range(N * N) if (k // N) // h * h + (k % N) // w == b] for b in range(N)]

        def visit(res, sched):
            g = flat(res, N)
            st.state(w, h, g)
            for b in range(N):
                missing.discard((b, tuple(g[k] for k in boxes[b])))
            st.step()

        def all_policies():
            if not missing:
                return
            for b in list(range(200)) + ["last", "first", "mid", "alt"]:
                choices.deviations(lambda: (arm(), create_solution((w, h)))[1], visit, b, 1 if N < 6 else 0)
        choices.full(lambda: (arm(), create_solution((w, h)))[1], visit)
        all_policies()
        if missing:
            b, p = sorted(missing)[0]
            fail("create_solution(%dx%d) never gives box %d the numbers %r (and %d other arrangements)", w, h, b, p, len(missing) - 1)
        st.outcome(w, h)
    elif mode == "only":
        sym, k = SYM[case[3]], case[4]
        missing = {o for o in orbits(sym, N) if len(o) == k}
        size = N * N
        if size < k or not missing:
            return

        def visit(res, sched):
            g = flat(res, N)
            empty = tuple((i // N, i % N) for i in range(size) if not g[i])
            missing.discard(empty)
            st.state(w, h, sym, empty)
            st.step()

        def func():
            arm()
            return generate(size - k, sym, (w, h))
        n = 0
        for b in ["last", "mid", "first"] + list(range(1, 400)):
            if not missing:
                break
            choices.deviations(func, visit, b, 1 if n < 3 and N < 9 else 0)
            n += 1
            if n == 3 and N < 9 and missing and N <= 3:
                choices.deviations(func, visit, "last", 2)
        if missing:
            fail("generate(%d, %r, %dx%d) never leaves exactly the field(s) %r empty", size - k, sym, w, h, sorted(missing)[0])
        st.outcome(w, h, sym, k)
    else:
        n = case[3]
        state = random.getstate()
        try:
            seen, again = set(), set()
            for i in range(n):
                random.seed(i)
                seen.add(flat(create_solution((w, h)), N))
                st.step()
            random.seed(5)
            for i in range(n):
                again.add(flat(create_solution((w, h)), N))
            puzzles, more = set(), set()
            if N < 9:
                for i in range(n):
                    random.seed(i)
                    puzzles.add(flat(generate(box_size=(w, h)), N))
                random.seed(5)
                for i in range(n):
                    more.add(flat(generate(box_size=(w, h)), N))
        finally:
            random.setstate(state)
        for what, got in (("created after different seeds", seen), ("created one after another", again),
                          ("generated after different seeds", puzzles), ("generated one after another", more)):
            if N == 9 and got is puzzles or N == 9 and got is more:
                continue
            # at least 24 are possible at all
            need(len(got) >= (10 if N == 4 else 45), "only %d different sudokus of %d %s", len(got), n, what)
            st.state(w, h, what)
        st.outcome(len(seen))
