"""C07: a step changes exactly what it describes and searching changes nothing."""
from mc import ref, steps
from mc.checks import c05, c06
from mc.lib import fail, mk, need, show, snap

ID = "C07"
RULE = ("every step found in every state of an explicit-state search (breadth first from the calculated "
        "and from only partly calculated candidates, complete solving paths) and in all candidate "
        "configurations of one number of a 4x4 sudoku is applied to a copy, to the original and again, "
        "and the difference of all numbers and candidates is compared with the description of the step; "
        "searching (also hints and brute force) is checked to change nothing")
BOUNDS = {"quick": "as C05 thinned by 2, 2^16/16 configurations", "thorough": "as C05, 2^16 configurations"}


def units(tier):
    q = tier == "quick"
    us = [u for i, u in enumerate(c05.shape_units(tier)) if not q or u["mode"] == "path" or i % 2]
    for v in (100, 101):
        for off in range(4):
            us.append({"mode": "raw", "kind": ["p", 2, 2, [v, [4, 5, 6], 1500 if q else 300, 321 * off]],
                       "lo": 0, "hi": None, "depth": 2})
    for lo in range(0, 1 << 16, 1 << 12):
        us.append({"mode": "digit4", "w": 2, "h": 2, "lo": lo, "hi": lo + (1 << (8 if q else 12))})
    us.append({"mode": "digit4", "w": 1, "h": 4, "lo": 30000, "hi": 30200})
    us.append({"mode": "digit4", "w": 4, "h": 1, "lo": 30000, "hi": 30200})
    for k in range(16):
        us.append({"mode": "unit4", "w": 2, "h": 2, "lo": k << 12, "hi": (k << 12) + (128 if q else 4096), "t": None})
    for w, h in ((2, 3), (3, 2)):
        for fam in range(len(c06.SETS6)):
            us.append({"mode": "unit6", "w": w, "h": h, "fam": fam, "m": 4, "lo": 0, "hi": 120 if q else 4096})
    for fam in range(len(c06.SETS9)):
        us.append({"mode": "unit9", "w": 3, "h": 3, "fam": fam, "m": 2, "lo": 100, "hi": 150 if q else 512})
    for tr in (0, 1):
        us.append({"mode": "fish", "w": 3, "h": 3, "rows": [0, 2, 3, 8], "cols": [0, 2, 4, 8],
                   "sub": 4, "min": 2, "max": 2, "tr": tr, "lo": 0, "hi": 100 if q else None})
    return us


def cases(unit):
    if unit["mode"] == "raw":
        for w, h, g in c05.puzzle_list(unit["kind"]):
            yield ["raw", w, h, g, unit["depth"], None, None]
    else:
        for c in c06.cases(unit):
            yield c


def expected(w, h, state, step):
    """State after applying a freshly found step, from its description."""
    g = ref.geo(w, h)
    grid, cands = list(state[0]), list(state[1])
    name = type(step).__name__
    values = frozenset(step.values)
    affected = [g.idx(rc) for rc in step.affected]
    if name == "CalculateCandidates":
        need(len(affected) == 1, "%s affects %d fields", step, len(affected))
        cands[affected[0]] = values
    elif name in steps.SINGLES or name == "Bruteforce":
        need(len(affected) == 1 and len(values) == 1, "%s sets %r to %r", name, step.affected, step.values)
        k, v = affected[0], next(iter(values))
        grid[k] = v
        cands[k] = frozenset((v,))
        for p in g.fpeers[k]:
            cands[p] = cands[p] - {v}
    elif name in steps.HIDDEN:
        for k in affected:
            cands[k] = cands[k] & values
    else:
        for k in affected:
            cands[k] = cands[k] - values
    return tuple(grid), tuple(cands)


def diff(a, b):
    out = []
    for k in range(len(a[0])):
        if a[0][k] != b[0][k] or a[1][k] != b[1][k]:
            out.append("field %d is %d %s instead of %d %s" % (
                k, a[0][k], sorted(a[1][k]), b[0][k], sorted(b[1][k])))
    return "; ".join(out[:3])


def examine(w, h, state, s, names, st, what, bf=False, late=True):
    N = w * h
    from sudokutools.solvers import Bruteforce, hints
    found = []
    for name in names:
        for step in steps.technique(name).find(s):
            found.append((name, step))
            if snap(s, N) != state:
                fail("%s: searching for %s changes the sudoku: %s", what, name, diff(snap(s, N), state))
    if snap(s, N) != state:
        fail("%s: searching changes the sudoku: %s", what, diff(snap(s, N), state))
    for _ in hints(s):
        pass
    if bf:
        found = found + [("Bruteforce", x) for x in Bruteforce.find(s)][:3]
    if snap(s, N) != state:
        fail("%s: searching for hints changes the sudoku: %s", what, diff(snap(s, N), state))
    per = {}
    for name, _ in found:
        per[name] = per.get(name, 0) + 1
    seen = {}
    for i, (name, step) in enumerate(found):
        # of more than 48 steps of one technique evenly spaced ones are applied
        seen[name] = seen.get(name, 0) + 1
        if per[name] > 48 and seen[name] % (per[name] // 48 + 1):
            st.note("steps found but not applied")
            continue
        want = expected(w, h, state, step)
        if want == state and not (name == "CalculateCandidates" and not step.values):
            fail("%s: %s (%s) changes nothing", what, step, name)
        t = s.copy(include_candidates=True)
        step.apply(t)
        got = snap(t, N)
        if got != want:
            fail("%s: %s: %s", what, step, diff(got, want))
        step.apply(t)
        if snap(t, N) != want:
            fail("%s: applying %s twice: %s", what, step, diff(snap(t, N), want))
        if snap(s, N) != state:
            fail("%s: applying %s to a copy changes the original", what, step)
        # the same step applied to the original, after it was applied to the copy
        u = steps.build(w, h, state)
        step.apply(u)
        if snap(u, N) != want:
            fail("%s: %s applied to a copy and then to the original: %s", what, step, diff(snap(u, N), want))
        st.step(3)
        st.note("steps of " + name)
    # fresh steps applied to the original first and then to a copy
    for name in names[::3]:
        u = steps.build(w, h, state)
        t = u.copy(include_candidates=True)
        mine = list(steps.technique(name).find(u))
        if mine:
            step = mine[-1]
            want = expected(w, h, state, step)
            step.apply(u)
            if snap(u, N) != want:
                fail("%s: %s: %s", what, step, diff(snap(u, N), want))
            step.apply(t)
            if snap(t, N) != want:
                fail("%s: %s applied to a copy afterwards: %s", what, step, diff(snap(t, N), want))
            st.step(2)
    # steps applied late: something else has changed in between
    for alt in (others(w, h, state, found) if late else ()):
        for name in names:
            if not per.get(name) or name == "CalculateCandidates":
                continue
            mine = list(steps.technique(name).find(s))
            for step in (mine[-1], mine[len(mine) // 2])[:min(2, len(mine))]:
                want = expected(w, h, alt, step)
                t = steps.build(w, h, alt)
                step.apply(t)
                if snap(t, N) != want:
                    fail("%s: %s applied late to %s %s: %s", what, step, show(alt[0]), [sorted(c) for c in alt[1]],
                         diff(snap(t, N), want))
                st.step()
                st.note("steps applied late")
    return found


def others(w, h, state, found):
    """States a step may be applied to when it was found some time ago."""
    N = w * h
    full = frozenset(range(1, N + 1))
    grid = state[0]
    yield grid, tuple(frozenset((v,)) if v else full for v in grid)
    yield grid, tuple(frozenset(x % N + 1 for x in c) for c in state[1])
    yield grid, tuple(frozenset((k % N + 1, (k + k // N) % N + 1)) for k in range(N * N))
    for i in (0, len(found) // 2):
        if found:
            t = steps.build(w, h, state)
            found[i][1].apply(t)
            yield snap(t, N)


def check(case, st):
    mode, w, h = case[:3]
    N = w * h
    if mode in ("bfs", "path", "raw"):
        _, _, _, grid, depth, rot, how = case
        grid = tuple(grid)
        solvable = ref.count_solutions(w, h, grid, 1) == 1
        count = [0]

        def visit(state, s):
            count[0] += 1
            what = "%dx%d %s %s" % (w, h, show(state[0]), [sorted(c) for c in state[1]])
            st.state(w, h, state)
            return examine(w, h, state, s, steps.HUMAN, st, what, count[0] % 4 == 1 and mode != "raw" and solvable,
                           count[0] % 3 == 1)

        def visit_bfs(state, s):
            return [x for x in visit(state, s) if x[0] != "Bruteforce"]

        if mode == "bfs":
            n = steps.bfs(w, h, grid, depth, visit_bfs)
        elif mode == "raw":
            # only the candidates of filled fields (and of every third field) are known
            cands = [frozenset((v,)) if v else frozenset() if k % 3 else frozenset(ref.candidates(w, h, grid, k))
                     for k, v in enumerate(grid)]
            n = steps.bfs(w, h, grid, depth, visit_bfs, (grid, tuple(cands)))
        else:
            n = steps.path(w, h, grid, rot, how, visit)
        st.outcome(n)
        return
    cands, names, what = c06_state(case)
    s = mk(w, h, (0,) * (N * N), cands)
    state = snap(s, N)
    st.state(mode, w, h, state)
    found = examine(w, h, state, s, names, st, what)
    st.outcome(mode, len(found))


def c06_state(case):
    mode, w, h = case[:3]
    g = ref.geo(w, h)
    N = g.N
    full = frozenset(range(1, N + 1))
    if mode == "digit":
        bits, digit, other = case[3:]
        rest = (full - {digit}) if other else (full - {digit, digit % N + 1})
        cands = [rest | {digit} if bits >> k & 1 else rest for k in range(N * N)]
        names = steps.HUMAN
    elif mode == "fish":
        rows, picks, tr, kind, i = case[3:]
        digit = i % N + 1
        rest = frozenset((digit % N + 1,))
        cands = []
        for k in range(N * N):
            r, c = divmod(k, N)
            a, b = (c, r) if tr else (r, c)
            has = b in picks[rows.index(a)] if a in rows else True
            cands.append(rest | {digit} if has else rest)
        names = ("XWing", "Swordfish", "Jellyfish")
    else:
        t, sets, kind = case[3:]
        unit = g.units[t % len(g.units)]
        cands = [full if kind or N > 4 else frozenset((1, 2))] * (N * N)
        for rc, x in zip(unit, sets):
            cands[g.idx(rc)] = frozenset(x)
        names = tuple(n for n in steps.HUMAN if "Hidden" in n or "Naked" in n)
        if kind or N > 4:
            names = tuple(n for n in names if n != "HiddenSingle")
    return cands, names, "%dx%d without numbers %s" % (w, h, [sorted(c) for c in cands])
