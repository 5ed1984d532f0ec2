"""C33: answers which need few solutions (or none) do not search for all of them."""
from itertools import combinations, islice

from mc import ref
from mc.lib import fail, flat, mk, need, show

ID = "C33"
RULE = ("complete enumeration of sudokus with an astronomical number of solutions (all 9x9 sudokus with at most one given, slices of those "
        "with two or with a filled row, column or box, empty sudokus and single givens of 20 further box sizes up to 5x5) and of nearly empty ones "
        "without any (every pair of conflicting fields, every field whose numbers are all taken, rows, columns and boxes without a place for a "
        "number, up to 25x25): every function which needs a few solutions only must answer, correctly, within a bounded amount of CPU time - "
        "thousands of times less than listing all solutions would take")
BOUNDS = {"quick": "9x9: 730 sudokus with at most one given, every 500th with two; 16x16 and 25x25: slices; 810 conflicts x 3 numbers; 20 s per sudoku",
          "thorough": "9x9: 730 sudokus with at most one given, every 25th with two; larger slices; 810 conflicts x 9 numbers"}
CASE_CPU = 20.0

SIZES = [(2, 3), (3, 2), (2, 4), (4, 2), (1, 7), (7, 1), (1, 9), (9, 1), (2, 5), (5, 2), (1, 10), (3, 4), (4, 3), (2, 6), (6, 2), (2, 7),
         (3, 5), (4, 4), (2, 8), (16, 1)]


def units(tier):
    q = tier == "quick"
    us = []
    for part in range(8):
        us.append({"m": "one", "part": part, "parts": 8})
        us.append({"m": "two", "part": part, "parts": 8, "step": 500 if q else 25})
        us.append({"m": "conflict", "part": part, "parts": 8, "numbers": 3 if q else 9})
        us.append({"m": "taken", "part": part, "parts": 8, "step": 3 if q else 1})
    for part in range(4):
        us.append({"m": "unit", "part": part, "parts": 4, "step": 1})
        us.append({"m": "place", "part": part, "parts": 4, "step": 1})
    for i in range(len(SIZES)):
        us.append({"m": "size", "w": SIZES[i][0], "h": SIZES[i][1], "n": 12 if q else 100})
    us.append({"m": "size", "w": 5, "h": 5, "n": 1 if q else 6})
    for w, h in ((3, 3), (2, 4), (4, 2), (2, 5), (5, 2), (3, 4), (4, 3), (4, 4), (5, 5)):
        us.append({"m": "boxplace", "w": w, "h": h, "n": (6 if w * h < 16 else 3) if q else 3 * w * h})
    us.append({"m": "open"})
    return us


def grids(m, unit):
    """-> (kind, w, h, {field: number})"""
    if m == "one":
        yield "many", 3, 3, {}
        for k in range(81):
            for v in range(1, 10):
                yield "many", 3, 3, {k: v}
    elif m == "two":
        geo = ref.geo(3, 3)
        n = 0
        for a, b in combinations(range(81), 2):
            for v in range(1, 10):
                for u in range(1, 10):
                    if u == v and b in geo.fpeers[a]:
                        continue
                    n += 1
                    if n % unit["step"] == 0:
                        yield "many", 3, 3, {a: v, b: u}
    elif m == "unit":
        for what in range(3):
            for i in range(9):
                for turn in range(0, 9, 2):
                    ks = [k for k in range(81) if (k // 9, k % 9, ref.geo(3, 3).box_no[divmod(k, 9)])[what] == i]
                    yield "many", 3, 3, {k: (j * (1, 2, 4)[turn % 3] + turn) % 9 + 1 for j, k in enumerate(ks)}
    elif m == "conflict":
        geo = ref.geo(3, 3)
        for a, b in combinations(range(81), 2):
            if b in geo.fpeers[a]:
                for j in range(unit["numbers"]):
                    v = (a * 5 + b * 3 + j) % 9 + 1
                    yield "none", 3, 3, {a: v, b: v}
    elif m == "taken":
        # all numbers are taken in the row, column and box of a field
        for k in range(81):
            r, c = divmod(k, 9)
            row = [r * 9 + j for j in range(9) if j != c]
            col = [i * 9 + c for i in range(9) if i != r]
            box = [p for p in range(81) if p != k and ref.geo(3, 3).box_no[divmod(p, 9)] == ref.geo(3, 3).box_no[r, c]]
            for first, second in ((row, col), (col, row), (box, row), (box, col), (row, box), (col, box)):
                for n in range(1, 9):
                    fields = first[:n]
                    fields += [p for p in second if p not in fields][-(9 - n):]
                    if len(fields) == 9:
                        yield "none", 3, 3, {p: (j * 2 + k) % 9 + 1 for j, p in enumerate(fields)}
    elif m == "place":
        # no place for a number in a row (column)
        for v in range(1, 10):
            for r in range(9):
                others = [i for i in range(r // 3 * 3, r // 3 * 3 + 3) if i != r]
                for filled in range(3):
                    full = [b for b in range(3) if b != filled]
                    grid = {}
                    for i, b in zip(others, full):
                        grid[i, b * 3 + (v + i) % 3] = v
                    for j in range(3):
                        grid[r, filled * 3 + j] = (v + j + r) % 9 + 1 if (v + j + r) % 9 + 1 != v else (v + 5) % 9 + 1
                    for turn in (0, 1):
                        yield "noplace", 3, 3, {(a * 9 + b, b * 9 + a)[turn]: u for (a, b), u in grid.items()}
    elif m == "boxplace":
        # no place for a number in a box: some of its rows and columns have it elsewhere, the other fields are filled
        w, h = unit["w"], unit["h"]
        N = w * h
        for i in range(unit["n"]):
            v = i * 5 % N + 1
            # box at the top left corner of the box (r0, c0)
            r0, c0 = (i * 3 % w) * h, (i * 2 % h) * w
            rows, cols = i % h + 1 if i % 3 else min(h - 1, 1), max(1, w - 1 - i % w)
            rows = min(rows, h - 1, h - 1)
            grid = {}
            for j in range(rows):
                # in another box of the same rows each
                if j + 1 < h:
                    grid[r0 + j, (c0 + (j + 1) * w + (i + j) % w) % N] = v
            for j in range(cols):
                if j + 1 < w:
                    grid[(r0 + (j + 1) * h + (i + j) % h) % N, c0 + j] = v
            others = [u for u in range(1, N + 1) if u != v]
            k = 0
            for a in range(rows, h):
                for b in range(cols, w):
                    grid[r0 + a, c0 + b] = others[(k + i) % len(others)]
                    k += 1
            flatgrid = [0] * (N * N)
            for (a, b), u in grid.items():
                flatgrid[a * N + b] = u
            if not ref.has_conflict(w, h, tuple(flatgrid)):
                yield "noplace", w, h, {a * N + b: u for (a, b), u in grid.items()}
        # no place in a row (column): the other fields of the row are in columns which have the number
        for i in range(unit["n"]):
            v, r = i * 3 % N + 1, (i * 7) % N
            grid = {}
            others = [u for u in range(1, N + 1) if u != v]
            # one box of the row and one field of each other box are filled; the other columns have the number in other rows
            for j in range(w):
                grid[r, j] = others[(j + i) % len(others)]
            bands = [b for b in range(w) if b != r // h]
            for stack in range(1, h):
                hole = (i + stack) % w
                grid[r, stack * w + hole] = others[(w + stack - 1 + i) % len(others)]
                for band, j in zip(bands, [j for j in range(w) if j != hole]):
                    grid[band * h + stack, stack * w + j] = v
            flatgrid = [0] * (N * N)
            for (a, b), u in grid.items():
                flatgrid[a * N + b] = u
            if not ref.has_conflict(w, h, tuple(flatgrid)):
                yield "noplace", w, h, {a * N + b: u for (a, b), u in grid.items()}
                yield "noplace", h, w, {b * N + a: u for (a, b), u in grid.items()}
    else:
        w, h = unit["w"], unit["h"]
        N = w * h
        yield "many", w, h, {}
        for i in range(unit["n"]):
            yield "many", w, h, {(i * 7919 + N) % (N * N): (i * 31) % N + 1}
        if N < 20:
            for i in range(unit["n"]):
                k = (i * 7919 + N) % (N * N)
                p = sorted(ref.geo(w, h).fpeers[k])
                yield "none", w, h, {k: i % N + 1, p[(i * 5) % len(p)]: i % N + 1}


def cases(unit):
    if unit["m"] == "open":
        for w, h in SIZES + [(5, 5), (6, 6)]:
            for pattern in range(4):
                yield ["open", w, h, [], pattern]
        return
    n = 0
    for kind, w, h, grid in grids(unit["m"], unit):
        n += 1
        if unit["m"] not in ("size", "boxplace"):
            if n % unit["parts"] != unit["part"] or n // unit["parts"] % unit.get("step", 1) and unit["m"] == "taken":
                continue
        yield [kind, w, h, sorted(grid.items())]


def complete(w, h, grid, s, what):
    got = flat(s, w * h)
    if 0 in got or ref.has_conflict(w, h, got) or not all(1 <= v <= w * h for v in got) or \
            any(v and v != u for u, v in zip(got, grid)):
        fail("%s of %s: %s is no solution", what, show(grid), show(got))
    return got


def check(case, st):
    from sudokutools import analyze, solve, solvers
    kind, w, h, items = case[:4]
    N = w * h
    g = [0] * (N * N)
    for k, v in items:
        g[k] = v
    g = tuple(g)
    s = mk(w, h, g)
    st.state(w, h, g)
    if kind == "open":
        # streams nobody asks for anything; many short lists of candidates take the longest to search
        pattern = case[4]
        for k in range(N * N if pattern else 0):
            s.set_candidates(k // N, k % N, [1 + (k // N * 7 + k % N * 3 + i * i) % N for i in range(2 + k % 4)] if pattern < 3 else range(1, N + 1))
        if pattern == 2:
            for k in range(0, N * N, 2):
                s[k // N, k % N] = k % N + 1
        for i in range(3):
            streams = [solve.dlx(s), solve.bruteforce(s), solvers.hints(s), analyze.find_conflicts(s)]
            streams += [cls.find(s) for cls in solvers.SOLVERS]
            st.step(len(streams))
        return
    unique = analyze.is_unique(s)
    need(unique is False or unique == 0, "is_unique(%s) is %r", show(g), unique)
    st.step()
    if kind == "many":
        for name in ("dlx", "bruteforce"):
            seen = set()
            stream = getattr(solve, name)(s)
            for sol in islice(stream, 1 if N > 16 else 3):
                seen.add(complete(w, h, g, sol, name))
            need(len(seen) == (1 if N > 16 else 3), "%s of %s has %d different solutions at the beginning", name, show(g), len(seen))
            stream.close()
            st.step()
            st.outcome(tuple(sorted(seen)))
        if N <= 16:
            complete(w, h, g, solvers.solve(s), "solve")
            rating = analyze.rate(s)
            need(0 <= rating <= 10 and rating, "rate(%s) is %r", show(g), rating)
            need(analyze.score(s) >= rating, "score(%s)", show(g))
            st.step(3)
    else:
        for name in ("dlx", "bruteforce"):
            if kind == "noplace" and name == "bruteforce":
                continue
            for sol in getattr(solve, name)(s):
                fail("%s of %s, which has no solution: %s", name, show(g), show(flat(sol, N)))
            st.step()
        st.note("%s %dx%d" % (kind, w, h))
        if N > 16:
            return
        got = solvers.solve(s)
        need(got is None or 0 in flat(got, N) or ref.has_conflict(w, h, flat(got, N)), "solve(%s)", show(g))
        rating = analyze.rate(s)
        need(0 <= rating <= 10, "rate(%s) is %r", show(g), rating)
        st.step(2)
        st.outcome(rating)
    need(flat(s, N) == g, "%s was changed to %s", show(g), show(flat(s, N)))
    need(not analyze.is_solved(s), "%s is not solved", show(g))
    st.step()
