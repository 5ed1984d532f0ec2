"""C10: generated sudokus are unique, symmetric and dense enough for any outcome."""
from mc import choices, ref
from mc.core import arm
from mc.lib import bs, fail, flat, need, raises, show

ID = "C10"
RULE = ("stateless exploration of generate(): every random number requested is a choice point; all "
        "outcomes of all choices for boxes of 1x1, 1x2, 2x1, all schedules with at most 1 (2) deviations "
        "from several base policies for larger boxes, for every symmetry and several minimum counts; "
        "the result is checked with an independent solver; invalid arguments must raise ValueError")
BOUNDS = {"quick": "N<=2: all; N=3,4: 1 deviation from 4 policies; N=6: 1 deviation at the first points; up to 9x9: 6 policies",
          "thorough": "N<=2: all; N=3,4: 2 deviations; N=5..8: 1 deviation; up to 10x10: policies"}
ASSUMPTIONS = ["all randomness comes from the random module (checked: an execution without choice points is reported)"]

SYM = [None, "rotate-90", "rotate-180", "mirror-x", "mirror-y", "mirror-xy"]


def counts(n):
    size = n * n
    return sorted({0, 1, size // 4, size // 3, size // 2, size // 2 + 1, size - 4, size - 3, size - 2,
                   size - 1, size} & set(range(size + 1)))


def units(tier):
    q = tier == "quick"
    us = []
    for w, h in ((1, 1), (1, 2), (2, 1)):
        for s in range(6):
            us.append({"m": "full", "w": w, "h": h, "s": s, "counts": list(range((w * h) ** 2 + 1))})
    for w, h in ((1, 3), (3, 1), (2, 2)):
        for s in range(6):
            for m in counts(w * h):
                us.append({"m": "dev", "w": w, "h": h, "s": s, "counts": [m], "bound": 1,
                           "bases": ["last", "first", "mid", 1] + ([] if q else [2, 3, "alt"])})
    for s in range(6):
        # 16 fields, every minimum count, a few policies
        us.append({"m": "dev", "w": 2, "h": 2, "s": s, "counts": list(range(17)), "bound": 0,
                   "bases": ["alt"] + list(range(2, 12 if q else 60))})
        us.append({"m": "dev", "w": 4, "h": 1, "s": s, "counts": list(range(0, 17, 3)), "bound": 0,
                   "bases": ["alt"] + list(range(2, 6))})
        us.append({"m": "dev", "w": 1, "h": 4, "s": s, "counts": list(range(0, 17, 3)), "bound": 0,
                   "bases": ["alt"] + list(range(2, 6))})
        if not q:
            for p in range(4):
                for w, h in ((2, 2), (1, 3), (3, 1)):
                    us.append({"m": "dev", "w": w, "h": h, "s": s, "counts": [0, (w * h) ** 2 // 2],
                               "bound": 2, "bases": ["last"], "part": p, "parts": 4})
    for w, h in ((2, 3), (3, 2), (1, 5), (5, 1)):
        for s in range(6):
            us.append({"m": "dev", "w": w, "h": h, "s": s, "counts": counts(w * h) if not q else
                       [0, 17 if w * h == 6 else 11, (w * h) ** 2 - 2], "bound": 0,
                       "bases": ["last", "first", "mid", 3]})
            us.append({"m": "dev", "w": w, "h": h, "s": s, "counts": [0 if s % 2 else 9], "bound": 1,
                       "bases": ["last"], "stop": 12 if q else None, "start": 7 if q else 0})
    for w, h in ((2, 4), (4, 2), (3, 3)) if q else ((2, 4), (4, 2), (3, 3), (2, 5), (5, 2)):
        for s in range(6):
            us.append({"m": "dev", "w": w, "h": h, "s": s,
                       "counts": [0 if s % 2 else 40, (w * h) ** 2 - 5 + s % 4],
                       "bound": 0, "bases": ["last", 1] if q else ["last", "first", "mid", 1, 2, 3, 4, 5]})
    us.append({"m": "errors"})
    return us


def cases(unit):
    if unit["m"] == "errors":
        for w, h in ((1, 1), (2, 1), (2, 2), (2, 3), (3, 3)):
            size = (w * h) ** 2
            for s in SYM:
                for m in (size + 1, size + 2, size * 2, 1000000):
                    yield ["error", w, h, s, m]
            for s in ("", "rotate", "rotate-91", "ROTATE-90", "none", "None", "mirror", "mirror-z", "mirror-yx",
                      "mirror-x ", 0, 1, 90, [], ["mirror-x"], {}, [None], "rotate_90", "x", 1.5, True, False):
                for m in (0, size, size + 1):
                    yield ["error", w, h, s, m]
            # exactly all fields is no error
            for s in SYM:
                yield ["ok", w, h, s, size]
        return
    for c in unit["counts"]:
        if unit["m"] == "full":
            yield ["full", unit["w"], unit["h"], unit["s"], c]
        else:
            for b in unit["bases"]:
                yield ["dev", unit["w"], unit["h"], unit["s"], c, b, unit["bound"], unit.get("part", 0),
                       unit.get("parts", 1), unit.get("start", 0), unit.get("stop")]


def images(sym, n, r, c):
    m = n - 1
    if sym is None:
        return [(r, c)]
    if sym == "rotate-90":
        return [(r, c), (c, m - r), (m - r, m - c), (m - c, r)]
    if sym == "rotate-180":
        return [(r, c), (m - r, m - c)]
    if sym == "mirror-x":
        return [(r, c), (m - r, c)]
    if sym == "mirror-y":
        return [(r, c), (r, m - c)]
    return [(r, c), (m - r, c), (r, m - c), (m - r, m - c)]


def examine(w, h, sym, min_count, sudoku, what, st):
    N = w * h
    need(bs(sudoku) == ((w, h), w, h), "%s: box size %r", what, bs(sudoku))
    g = flat(sudoku, N)
    need(all(isinstance(v, int) and 0 <= v <= N for v in g), "%s: %r", what, g)
    filled = N * N - g.count(0)
    if filled < min_count:
        fail("%s: only %d fields are filled: %s", what, filled, show(g))
    n = ref.count_solutions(w, h, g, 2)
    if n != 1:
        fail("%s: %s has %s", what, show(g), "no solution" if n == 0 else "several solutions")
    for r in range(N):
        for c in range(N):
            for i, j in images(sym, N, r, c):
                if bool(g[r * N + c]) != bool(g[i * N + j]):
                    fail("%s: %s is not symmetric at (%d, %d) and (%d, %d)", what, show(g), r, c, i, j)
    st.step()
    st.state(w, h, sym, min_count, g)
    st.outcome(w, h, sym, filled)


def check(case, st):
    from sudokutools.generate import generate
    mode, w, h = case[:3]
    if mode == "error":
        raises(ValueError, generate, min_count=case[4], symmetry=case[3], box_size=(w, h))
        raises(ValueError, generate, case[4], case[3], (w, h))
        st.step(2)
        st.state(*[repr(x) for x in case])
        return
    if mode == "ok":
        res, _ = choices.run(lambda: generate(case[4], case[3], (w, h)), "last")
        examine(w, h, case[3], case[4], res, "generate(%r, %r, %dx%d)" % (case[4], case[3], w, h), st)
        return
    sym, m = SYM[case[3]], case[4]

    def func():
        arm()
        return generate(min_count=m, symmetry=sym, box_size=(w, h))

    if mode == "full":
        def visit(res, sched):
            examine(w, h, sym, m, res, "generate(%d, %r, %dx%d) with choices %r" % (m, sym, w, h, sched), st)
        n = choices.full(func, visit)
        st.note("executions with all choices", n)
    else:
        b, bound, part, parts, start, stop = case[5:]

        def visit(res, dev):
            examine(w, h, sym, m, res, "generate(%d, %r, %dx%d) with policy %r and choices %r" % (
                m, sym, w, h, b, dev), st)
        n = choices.deviations(func, visit, b, bound, part, parts, start, stop)
        st.note("executions with bounded deviations", n)
