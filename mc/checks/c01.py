"""C01: both exhaustive solvers yield exactly the valid completions."""
from mc import domains, ref
from mc.lib import adversarial, bs, fail, flat, mk, need, show, snap

ID = "C01"
RULE = ("complete families of partially filled sudokus per box size (all fillings for lengths "
        "1-3, all sub-patterns of complete 4x4 grids, all boards with few givens, few holes, "
        "all fields of digit pairs removed, one wrong field, 9x9 puzzles with one deviation), "
        "each with one of six kinds of stored candidates in turn; the drained streams of both "
        "solvers are compared with an independent bit-set enumeration of all completions; of sparse "
        "sudokus up to 25x25 the first solutions are compared with the rules")
BOUNDS = {"quick": "see domains.deep_units('quick'); first 3 solutions of sparse sudokus of 10 sizes, of all 9x9 sudokus with one given and of slices of those with two", "thorough": "see domains.deep_units('thorough'); first 20 solutions of sparse sudokus of 10 sizes, 6 of all 9x9 sudokus with one given and 2 of larger slices of those with two"}


SPARSE = [(3, 4), (4, 3), (4, 4), (2, 8), (8, 2), (1, 16), (16, 1), (5, 5), (1, 25), (25, 1)]


def units(tier):
    q = tier == "quick"
    us = domains.deep_units(tier)
    # sparse sudokus: only the first solutions are requested
    for w, h in SPARSE:
        us.append({"first": 3 if q else 20, "w": w, "h": h})
    for lo in range(0, 729, 81):
        us.append({"first": 2 if q else 6, "of": domains.U("givens", 3, 3, k=1, lo=lo, hi=lo + 81)})
    n = domains.n_givens(3, 3, 2)
    for i in range(16):
        us.append({"first": 2, "of": domains.U("givens", 3, 3, k=2, lo=n * i // 16 + i * 7, hi=n * i // 16 + i * 7 + (12 if q else 400))})
    for w, h in ((5, 5), (3, 8), (1, 25)):
        us.append(domains.U("digits", w, h, k=2, lo=11, hi=12 if q else 30))
    return us


def cases(unit):
    if "first" in unit:
        if "of" in unit:
            for i, (w, h, g) in enumerate(domains.grids(unit["of"])):
                yield [w, h, g, i % 6, i // 6 % 2, unit["first"]]
        else:
            w, h = unit["w"], unit["h"]
            N = w * h
            g = domains.base(w, h, 0)
            yield [w, h, (0,) * (N * N), 0, 0, unit["first"]]
            yield [w, h, g[:N] + (0,) * (N * N - N), 1, 1, unit["first"]]
        return
    for i, (w, h, g) in enumerate(domains.grids(unit)):
        yield [w, h, g, i % 6, i // 6 % 2]


def check(case, st):
    from sudokutools.solve import bruteforce, dlx
    w, h, g, kind, order = case[:5]
    g = tuple(g)
    N = w * h
    if len(case) > 5:
        return sparse(w, h, g, kind, case[5], st)
    cands = adversarial(w, h, kind)
    want = set(ref.solutions(w, h, g))
    solvers = [("bruteforce", bruteforce), ("dlx", dlx)]
    if order:
        solvers.reverse()
    s = mk(w, h, g, cands)
    before = snap(s, N)
    for name, solver in solvers:
        got = set()
        n = 0
        for sol in solver(s):
            n += 1
            need(bs(sol) == ((w, h), w, h), "%s: box size %r instead of %r", name, bs(sol), (w, h))
            f = flat(sol, N)
            if f not in want:
                fail("%s on %dx%d %s yields %s, which is no valid completion", name, w, h, show(g), show(f))
            if f in got:
                fail("%s on %dx%d %s yields %s twice", name, w, h, show(g), show(f))
            got.add(f)
            need(n <= len(want), "%s yields too many solutions", name)
        if len(got) != len(want):
            fail("%s on %dx%d %s yields %d of %d completions, missing e.g. %s", name, w, h, show(g),
                 len(got), len(want), show(sorted(want - got)[0]))
        st.step(n + 1)
        need(snap(s, N) == before, "%s changed the sudoku passed in (%dx%d %s)", name, w, h, show(g))
    st.state(w, h, g)
    st.outcome(w, h, len(want))


def sparse(w, h, g, kind, limit, st):
    """The first solutions of a sudoku with too many of them."""
    from sudokutools.solve import bruteforce, dlx
    N = w * h
    none = any(a == b and a for i, a in enumerate(g) for b in (g[p] for p in ref.geo(w, h).fpeers[i]))
    s = mk(w, h, g, adversarial(w, h, kind))
    before = snap(s, N)
    for name, solver in (("bruteforce", bruteforce), ("dlx", dlx)):
        got = []
        for sol in solver(s):
            f = flat(sol, N)
            if none or not ref.valid_full(w, h, f) or any(a and a != b for a, b in zip(g, f)):
                fail("%s on %dx%d %s yields %s, which is no valid completion", name, w, h, show(g), show(f))
            need(f not in got, "%s on %dx%d %s yields a solution twice", name, w, h, show(g))
            got.append(f)
            if len(got) >= limit:
                break
        if not none and len(got) < limit:
            fail("%s on %dx%d %s yields only %d solutions", name, w, h, show(g), len(got))
        st.step(len(got) + 1)
        need(snap(s, N) == before, "%s changed the sudoku passed in (%dx%d %s)", name, w, h, show(g))
    st.note("sudokus of which the first solutions were requested")
    st.state(w, h, g)
    st.outcome(w, h, "first", len(got))
