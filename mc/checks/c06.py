"""C06: each technique finds its pattern exactly."""
from itertools import combinations, product

from mc import ref, steps
from mc.checks import c05
from mc.lib import adversarial, cflat, fail, flat, mk, need, show, snap

ID = "C06"
RULE = ("(a) states reachable by solving steps (breadth first, solving paths), (b) all patterns of one "
        "number in a 4x4 sudoku and all fish-like patterns over chosen rows and columns of larger ones, "
        "(c) all assignments of candidate sets to the fields of one row, column or box (all 16^4 for "
        "length 4, all combinations of chosen sets for lengths 6 and 9), (d) combinations of sets with numbers of two digits "
        "in a unit, in and around a box and in chosen rows and columns of sizes 10 to 16; every technique's steps are "
        "compared with a definition-based reference, hints with the union of all techniques")
BOUNDS = {"quick": "(a) as C05 thinned, (b) 2^16 / 6^4 / 8^3 patterns, (c) 16^4, 4^6, 2^9, (d) 3^5 sets in 6 units, up to 3 fields of 3 boxes, 10^3, tuples among fields with two numbers each",
          "thorough": "(a) as C05, (b) all of 16^4, 16^3, (c) 16^4 per unit, 6^6, 3^9, (d) 4^5 sets in all units, 10^4, tuples among fields with two numbers each"}


def units(tier):
    q = tier == "quick"
    us = [u for i, u in enumerate(c05.shape_units(tier))
          if not q or u["mode"] == "path" or i % 2 == 0]
    for lo in range(0, 1 << 16, 1 << 12):
        us.append({"mode": "digit4", "w": 2, "h": 2, "lo": lo, "hi": lo + (1 << 12)})
    for w, h in ((1, 4), (4, 1)):
        for lo in range(0, 1 << 16, 1 << (14 if q else 12)):
            us.append({"mode": "digit4", "w": w, "h": h, "lo": lo, "hi": lo + (1 << (10 if q else 12))})
    for w, h in ((2, 3), (3, 2), (3, 3)) + (() if q else ((2, 4), (5, 2))):
        n = w * h
        for tr in (0, 1):
            us.append({"mode": "fish", "w": w, "h": h, "rows": [0, 2, n - 1], "cols": [0, 3, n - 1],
                       "sub": 3, "min": 0, "tr": tr, "lo": 0, "hi": None})
            us.append({"mode": "fish", "w": w, "h": h, "rows": [1, 3], "cols": [0, 2, 3, n - 1],
                       "sub": 4, "min": 0, "tr": tr, "lo": 0, "hi": None})
            if q:
                us.append({"mode": "fish", "w": w, "h": h, "rows": [0, 1, 3, n - 1], "cols": [0, 2, 4, n - 1],
                           "sub": 4, "min": 2, "max": 2, "tr": tr, "lo": 0, "hi": None})
            else:
                for lo in range(0, 16 ** 4, 16 ** 3):
                    us.append({"mode": "fish", "w": w, "h": h, "rows": [0, 1, 3, n - 1],
                               "cols": [0, 2, 4, n - 1], "sub": 4, "min": 0, "tr": tr, "lo": lo,
                               "hi": lo + 16 ** 3})
    # candidate configurations of one unit
    for lo in range(0, 1 << 16, 1 << 12):
        for t in range(1 if q else 12):
            us.append({"mode": "unit4", "w": 2, "h": 2, "lo": lo, "hi": lo + (1 << 12), "t": None if q else t})
    for w, h in ((1, 4), (4, 1)):
        for lo in range(0, 1 << 16, 1 << (14 if q else 12)):
            us.append({"mode": "unit4", "w": w, "h": h, "lo": lo, "hi": lo + (1 << (10 if q else 12)), "t": None})
    for w, h in ((2, 3), (3, 2)):
        for fam in range(len(SETS6)):
            if q and (fam < 2) != (w < h):
                continue
            m = 4 if q else len(SETS6[fam])
            total = m ** 6
            for k in range(4 if q else 16):
                us.append({"mode": "unit6", "w": w, "h": h, "fam": fam, "m": m,
                           "lo": total * k // (4 if q else 16), "hi": total * (k + 1) // (4 if q else 16)})
    for fam in range(len(SETS9)):
        m = 2 if q else 3
        total = m ** 9
        for k in range(2 if q else 16):
            us.append({"mode": "unit9", "w": 3, "h": 3, "fam": fam, "m": m,
                       "lo": total * k // (2 if q else 16), "hi": total * (k + 1) // (2 if q else 16)})
    # large numbers (two digits) and large boxes
    for w, h in ((5, 2), (2, 5), (4, 3), (3, 4), (4, 4), (1, 11), (12, 1)):
        N = w * h
        for t in range(3 * N) if not q else ((0, N - 1, N + 1, 2 * N - 1, 2 * N, 3 * N - 1) if N < 16 else (N - 1, 2 * N)):
            us.append({"mode": "wunit", "w": w, "h": h, "t": t, "m": 3 if q else 4})
        us.append({"mode": "wcycle", "w": w, "h": h, "t": range(3 * N) if not q else (0, N + 1, 3 * N - 1)})
        for v in (1, 9, 10, N) if not q else (9, 10, N):
            us.append({"mode": "wbox", "w": w, "h": h, "v": v, "step": 3 if q else 1})
            us.append({"mode": "wfish", "w": w, "h": h, "v": v, "n": 3 if q else 4})
    return us


def spread(N, k):
    """k different positions up to N - 1, including the first and the last one."""
    return [i * (N - 1) // (k - 1) for i in range(k)]


def wsets(N):
    return [[N - 1, N], [N, 10, 9], [9, N - 1], [1, 10, N - 1, N]]


SETS6 = [
    [[1, 2, 3, 4], [2, 3, 4], [1, 4, 5, 6], [1, 2, 3, 4, 5], [1, 2], [5, 6]],
    [[1, 2, 3], [2, 3], [3, 4, 5, 6], [1, 3, 5], [1, 2, 3, 4, 5, 6], [6]],
    [[1, 2], [3, 4], [1, 2, 3, 4, 5], [2, 5, 6], [], [1, 6]],
    [[1, 2, 3, 4, 5], [1, 2, 3, 4, 5, 6], [2, 4], [3, 5, 6], [1, 5], [4]],
]
SETS9 = [
    [[1, 2, 3, 4, 5], [5, 6, 7, 8, 9], [1, 3, 5]],
    [[2, 3, 4, 6, 8], [1, 2, 3, 4, 5, 6, 7, 8, 9], [2, 4]],
    [[1, 9], [2, 3, 4, 5, 6], [1, 2, 9]],
    [[3, 4, 7], [1, 2, 5, 6, 8, 9], [3, 7]],
]


def fish_patterns(u):
    subs = [list(c) for k in range(u["min"], u.get("max", u["sub"]) + 1)
            for c in combinations(u["cols"], k)]
    return product(subs, repeat=len(u["rows"]))


def cases(unit):
    mode = unit["mode"]
    if mode in ("bfs", "path"):
        for c in c05.cases(unit):
            yield c
    elif mode == "digit4":
        for i in range(unit["lo"], unit["hi"]):
            yield ["digit", unit["w"], unit["h"], i, i % 4 + 1, i // 4 % 2]
    elif mode == "fish":
        for i, p in enumerate(fish_patterns(unit)):
            if i >= unit["lo"] and (unit["hi"] is None or i < unit["hi"]):
                yield ["fish", unit["w"], unit["h"], unit["rows"], p, unit["tr"], i % 3, i]
    elif mode == "unit4":
        for i in range(unit["lo"], unit["hi"]):
            t = unit["t"] if unit["t"] is not None else (i * 5 + i // 16) % 12
            sets = [[v + 1 for v in range(4) if (i >> 4 * k) >> v & 1] for k in range(4)]
            yield ["unit", unit["w"], unit["h"], t, sets, i % 3]
    elif mode == "wunit":
        N = unit["w"] * unit["h"]
        for i, pick in enumerate(product(wsets(N)[:unit["m"]], repeat=5)):
            yield ["wunit", unit["w"], unit["h"], unit["t"], pick, i % 2]
    elif mode == "wcycle":
        # every number has few places and every field few numbers
        N = unit["w"] * unit["h"]
        i = 0
        for t in unit["t"]:
            for n in (2, 3):
                for first in range(0, N - n + 1, 3):
                    for where in range(3):
                        i += 1
                        yield ["wcycle", unit["w"], unit["h"], t, n, first, where, i % 2]
    elif mode == "wbox":
        w, h = unit["w"], unit["h"]
        N = w * h
        i = 0
        for b in (0, N // 2, N - 1):
            for k in (1, 2, 3):
                for where in combinations(range(N), k):
                    i += 1
                    if i % unit["step"] == 0:
                        yield ["wbox", w, h, unit["v"], b, where, i % 4]
    elif mode == "wfish":
        N = unit["w"] * unit["h"]
        cols = [0, 1, N // 2, N - 1]
        subs = [c for k in (2, 3) for c in combinations(cols, k)]
        for i, p in enumerate(product(subs, repeat=unit["n"])):
            yield ["wfish", unit["w"], unit["h"], unit["v"], spread(N, unit["n"]), p, i % 2]
    else:
        fams = SETS6 if mode == "unit6" else SETS9
        n = unit["w"] * unit["h"]
        sets = fams[unit["fam"]]
        for i in range(unit["lo"], unit["hi"]):
            x, pick = i, []
            for _ in range(n):
                x, d = divmod(x, unit["m"])
                pick.append(sets[d])
            yield ["unit", unit["w"], unit["h"], (i * 7 + i // 64) % (3 * n), pick, i % 3]


def compare(w, h, s, names, solvable, st, what):
    """Compare the steps found in s with the reference."""
    g = ref.geo(w, h)
    N = g.N
    cands = {rc: s.get_candidates(*rc) for rc in g.coords}
    empty = {rc for rc in g.coords if not s[rc]}
    out = []
    for name in names:
        found = steps.find(name, s)
        keys = [steps.key(x) for x in found]
        got = set(keys)
        if len(got) != len(keys):
            fail("%s: %s reports a step twice: %r", what, name, found)
        for k in keys:
            if k[0] != name:
                fail("%s: %s reports a %s", what, name, k[0])
        got = {k[1:] for k in got}
        if name in steps.NAKED:
            want = ref.naked_tuples(g, cands, empty, steps.NAKED[name])
            # a tuple in two units may be reported for either or both of them
            if {k[0] for k in got} != {k[0] for k in want} or not got <= want:
                fail("%s: %s finds %s, expected %s", what, name, brief(got), brief(want))
        elif name in steps.HIDDEN:
            same(what, name, got, ref.hidden_tuples(g, cands, empty, steps.HIDDEN[name]))
        elif name in steps.POINTING:
            same(what, name, got, ref.pointing_tuples(g, cands, steps.POINTING[name]))
        elif name in steps.FISH:
            same(what, name, got, ref.fishes(g, cands, steps.FISH[name]))
        elif name == "NakedSingle":
            same(what, name, got, {single(rc, v) for rc, v in ref.naked_singles(cands, empty)})
        elif name == "HiddenSingle":
            want = {single(rc, v) for rc, v in ref.hidden_singles(g, cands, empty)}
            if solvable:
                same(what, name, got, want)
            elif not got <= want or {k[0] for k in got} != {k[0] for k in want}:
                fail("%s: %s finds %s, expected %s", what, name, brief(got), brief(want))
        elif name == "CalculateCandidates":
            grid = flat(s, N)
            want = set()
            for rc in g.coords:
                if not cands[rc]:
                    want.add((frozenset((rc,)), frozenset((rc,)),
                              frozenset(ref.candidates(w, h, grid, g.idx(rc)))))
            same(what, name, got, want)
        out.extend(keys)
        st.step(1)
        if got:
            st.note("steps of " + name, len(got))
    return out


def single(rc, v):
    return frozenset((rc,)), frozenset((rc,)), frozenset((v,))


def brief(keys):
    return sorted([tuple(sorted(a)), tuple(sorted(b)), tuple(sorted(c))] for a, b, c in keys)[:4]


def same(what, name, got, want):
    if got != want:
        fail("%s: %s finds %s, expected %s", what, name, brief(got - want) or brief(got), brief(want - got) or brief(want))


def check_hints(s, keys, what):
    from sudokutools.solvers import hints
    got = sorted(map(repr_key, (steps.key(x) for x in hints(s))))
    want = sorted(map(repr_key, keys))
    if got != want:
        fail("%s: hints are %r instead of %r", what, [x for x in got if x not in want][:3],
             [x for x in want if x not in got][:3])


def repr_key(k):
    return k[0], tuple(sorted(k[1])), tuple(sorted(k[2])), tuple(sorted(k[3]))


def check(case, st):
    mode, w, h = case[:3]
    g = ref.geo(w, h)
    N = g.N
    if mode in ("bfs", "path"):
        _, _, _, grid, depth, rot, how = case
        grid = tuple(grid)
        solvable = ref.count_solutions(w, h, grid, 1) == 1

        def visit(state, s):
            st.state(w, h, state)
            what = "%dx%d %s %s" % (w, h, show(state[0]), [sorted(c) for c in state[1]])
            keys = compare(w, h, s, steps.HUMAN, solvable, st, what)
            check_hints(s, keys, what)
            st.step()
            st.outcome(len(keys))
            if mode == "bfs":
                return steps.find_all(s)

        if mode == "bfs":
            steps.bfs(w, h, grid, depth, visit)
        else:
            steps.path(w, h, grid, rot, how, visit)
        return

    full = frozenset(range(1, N + 1))
    zero = (0,) * (N * N)
    if mode == "digit":
        bits, digit, other = case[3:]
        rest = (full - {digit}) if other else (full - {digit, digit % N + 1})
        cands = [rest | {digit} if bits >> k & 1 else rest for k in range(N * N)]
        names = ("PointingPair", "PointingTriple", "XWing", "Swordfish", "Jellyfish")
        if bits % 8 == 5:
            names += ("HiddenSingle",)
        if bits % 8 == 0:
            names += ("HiddenPair", "HiddenTriple", "HiddenQuad")
    elif mode == "fish":
        rows, picks, tr, kind, i = case[3:]
        digit = i % N + 1
        rest = frozenset((digit % N + 1,))
        cands = []
        for r in range(N):
            for c in range(N):
                a, b = (c, r) if tr else (r, c)
                if a in rows:
                    has = b in picks[rows.index(a)]
                elif kind == 0:
                    has = True
                elif kind == 1:
                    has = a == 4 % N
                else:
                    has = b in (0, N - 1)
                cands.append(rest | {digit} if has else rest)
        names = ("XWing", "Swordfish", "Jellyfish")
        if i % 4 == 0:
            names += ("PointingPair", "PointingTriple")
    elif mode == "wunit":
        t, sets, kind = case[3:]
        unit = g.units[t % len(g.units)]
        cands = [frozenset()] * (N * N)
        for k, x in zip(spread(N, 5), sets):
            cands[g.idx(unit[k])] = frozenset(x)
        for k, rc in enumerate(unit):
            if kind and not cands[g.idx(rc)]:
                cands[g.idx(rc)] = frozenset((2, N) if k % 2 else (10, 2, 3))
        names = ("NakedPair", "HiddenPair", "NakedTriple", "HiddenTriple", "NakedQuad", "HiddenQuad", "NakedQuint",
                 "HiddenQuint", "NakedSingle", "PointingPair", "PointingTriple")
    elif mode == "wcycle":
        t, n, first, where, kind = case[3:]
        unit = g.units[t % len(g.units)]
        places = [k % N for k in ((where * 5 + j * (N // n)) for j in range(n))]
        numbers = [first + j + 1 for j in range(n)]
        rest = [v for v in range(1, N + 1) if v not in numbers]
        cands = [frozenset()] * (N * N)
        i = 0
        for k, rc in enumerate(unit):
            if k in places:
                j = places.index(k)
                own = set(numbers) if kind or n == 2 else {numbers[j], numbers[(j + 1) % n]}
                cands[g.idx(rc)] = frozenset(own | ({rest[j]} if (j + where) % 3 else set()))
            else:
                cands[g.idx(rc)] = frozenset((rest[i], rest[(i + 1) % len(rest)]))
                i += 1
        names = ("NakedPair", "HiddenPair", "NakedTriple", "HiddenTriple")
    elif mode == "wbox":
        digit, b, where, kind = case[3:]
        cands = [frozenset((2, 3)) if kind & 2 else frozenset()] * (N * N)
        box = g.boxes[b]
        for k in where:
            cands[g.idx(box[k])] = frozenset((digit, 2))
        # the same number elsewhere in the row and column of one field
        r, c = box[where[-1]]
        for o in range(N):
            for rc in ((r, o), (o, c)):
                if rc not in box and (kind & 1 or o == N - 1 - (r if rc[1] == c else c)):
                    cands[g.idx(rc)] = frozenset((digit, 3))
        names = ("PointingPair", "PointingTriple", "XWing")
    elif mode == "wfish":
        digit, rows, picks, tr = case[3:]
        cands = []
        for r in range(N):
            for c in range(N):
                a, b = (c, r) if tr else (r, c)
                has = b in picks[rows.index(a)] if a in rows else b in (0, N - 1)
                cands.append(frozenset((digit, 2)) if has else frozenset((2,)))
        names = ("XWing", "Swordfish") if len(rows) < 4 else ("XWing", "Swordfish", "Jellyfish")
    else:
        t, sets, kind = case[3:]
        unit = g.units[t % len(g.units)]
        if kind == 0:
            cands = [full] * (N * N)
        elif kind == 1:
            cands = [frozenset()] * (N * N)
        else:
            cands = list(adversarial(w, h, 5))
        cands = list(cands)
        for rc, x in zip(unit, sets):
            cands[g.idx(rc)] = frozenset(x)
        names = ("NakedPair", "HiddenPair", "NakedTriple", "HiddenTriple", "NakedQuad", "HiddenQuad")
        if (t + len(sets[0])) % 4 == 1:
            names += ("NakedSingle", "HiddenSingle")
        if N > 4:
            names += ("NakedQuint", "HiddenQuint")
        if t % 4 == 0:
            names += ("CalculateCandidates", "PointingPair")
    s = mk(w, h, zero, cands)
    what = "%dx%d without numbers %s" % (w, h, [sorted(c) for c in cands])
    keys = compare(w, h, s, names, False, st, what)
    st.state(mode, w, h, tuple(cands))
    st.outcome(mode, len(keys))
