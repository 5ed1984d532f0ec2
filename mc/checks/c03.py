"""C03: uniqueness, solved state and conflicts are reported exactly."""
from mc import domains, ref
from mc.lib import adversarial, fail, mk, need, show, snap

ID = "C03"
RULE = ("complete families of partially filled, complete and conflicting sudokus per box size, each "
        "with adversarial stored candidates in turn; is_unique is compared with an independent "
        "enumeration of completions, is_solved and find_conflicts (without and with every single "
        "field, pairs in the smallest sizes, rows and repeated coordinates) with the definition")
BOUNDS = {"quick": "domains.deep_units('quick') plus conflicting fillings; conflicts only: boxes up to 17x17",
          "thorough": "domains.deep_units('thorough') plus conflicting fillings"}


def units(tier):
    us = domains.deep_units(tier, 1)
    q = tier == "quick"
    for w, h in ((2, 2), (1, 4), (4, 1)):
        if not q:
            us += domains.split(domains.U("givens", w, h, k=3), domains.n_givens(w, h, 3), 16)
        us.append(domains.U("givens", w, h, k=2))
        for k in (0, 1):
            us.append(domains.U("wrong", w, h, v=1, k=k))
    for w, h in ((4, 4), (1, 16), (5, 4), (2, 9), (10, 10), (101, 1), (17, 17), (1, 260)):
        us.append({"big": [w, h]})
    return us


def large(unit):
    """Fillings of large sudokus with and without a few conflicts."""
    w, h = unit["big"]
    N = w * h
    full = domains.base(w, h, 0) if N < 200 else None
    numbers = sorted({1, 9, 10, N - 1, N, min(N, 99), min(N, 100), min(N, 257), min(N, 280)})
    for i, v in enumerate(numbers):
        spots = [(0, 0), (0, N - 1), (h - 1, w - 1), (N - 1, 0), (N // 2, N // 2), (N - 1, N - 1), (N - 1, N // 2)]
        for k in range(2, len(spots) + 1):
            yield ["big", w, h, None, [[r, c, v + (j % 3 == 2 and v < N)] for j, (r, c) in enumerate(spots[:k])]]
        if full and i < 4:
            # a solution, one field changed or emptied
            yield ["big", w, h, 0, []]
            yield ["big", w, h, 0, [[N // 2, N - 1, v]]]
            yield ["big", w, h, 0, [[N - 1, 0, 0]]]


def cases(unit):
    if "big" in unit:
        for c in large(unit):
            yield c
        return
    for i, (w, h, g) in enumerate(domains.grids(unit)):
        yield [w, h, g, i]


def norm(items):
    return sorted(((tuple(a), tuple(b)), v) for a, b, v in items)


def big(w, h, base, fields, st):
    """Conflicts and solvedness only: deciding uniqueness takes too long here."""
    from sudokutools.analyze import find_conflicts, is_solved
    from sudokutools.sudoku import Sudoku
    N = w * h
    g = {}
    if base is not None:
        g = {divmod(k, N): v for k, v in enumerate(domains.base(w, h, base))}
    for r, c, v in fields:
        g[r, c] = v
    s = Sudoku((w, h))
    for (r, c), v in g.items():
        # another object for each number
        s[r, c] = int(str(v))
    by = {}
    for (r, c), v in g.items():
        if v:
            for key in (("r", r, v), ("c", c, v), ("b", r // h, c // w, v)):
                by.setdefault(key, []).append((r, c))
    conf = {((a, b), key[-1]) for key, rcs in by.items() for a in rcs for b in rcs if a != b}
    what = "%dx%d with %r" % (w, h, fields)
    got = norm(find_conflicts(s))
    if got != sorted(conf):
        fail("find_conflicts() on %s yields %r instead of %r", what, got[:6], sorted(conf)[:6])
    for r, c in sorted(rc for rc in g if g[rc])[:40]:
        got = norm(find_conflicts(s, (r, c)))
        want = sorted(x for x in conf if x[0][0] == (r, c))
        if got != want:
            fail("find_conflicts(%r) on %s yields %r instead of %r", (r, c), what, got[:6], want[:6])
    solved = not conf and len(g) == N * N and all(g.values())
    if bool(is_solved(s)) != solved:
        fail("is_solved() on %s is %r", what, is_solved(s))
    st.step(2)
    st.state("big", w, h, base, tuple(map(tuple, fields)))
    st.outcome("big", solved, len(conf))


def check(case, st):
    from sudokutools.analyze import find_conflicts, is_solved, is_unique
    if case[0] == "big":
        return big(*(case[1:] + [st]))
    w, h, g, i = case
    g = tuple(g)
    geo = ref.geo(w, h)
    N = geo.N
    s = mk(w, h, g, adversarial(w, h, i % 6))
    before = snap(s, N)
    n = ref.count_solutions(w, h, g, 2)
    conf = norm(ref.conflicts(w, h, g))
    got = is_unique(s)
    if bool(got) != (n == 1) or got not in (True, False):
        fail("is_unique() on %dx%d %s returns %r, there are %s solutions", w, h, show(g), got,
             n if n < 2 else "at least 2")
    solved = 0 not in g and not conf
    got = is_solved(s)
    if bool(got) != solved:
        fail("is_solved() on %dx%d %s returns %r", w, h, show(g), got)
    got = norm(find_conflicts(s))
    if got != conf:
        fail("find_conflicts() on %dx%d %s yields %r instead of %r", w, h, show(g), got[:6], conf[:6])
    st.step(3)
    # selections of coordinates: all single fields in turn (a few per case for large sizes)
    coords = geo.coords
    if N <= 2:
        sel = [(a,) for a in coords] + [(a, b) for a in coords for b in coords]
    elif N <= 4 and i % 16 == 0 or i % 64 == 0:
        sel = [(a,) for a in coords] + [tuple(geo.rows[i % N]), tuple(coords)]
    else:
        a, b = coords[i % len(coords)], coords[(i * 7 + 3) % len(coords)]
        sel = [(a,), (a, b) if a != b else (a,)]
    for cs in sel:
        if len(set(cs)) != len(cs):
            # a field named twice: its pairs are still the only ones reported
            want = sorted(set(c for c in conf if c[0][0] in cs))
            got = sorted(set(norm(find_conflicts(s, *cs))))
        else:
            want = [c for c in conf if c[0][0] in cs]
            got = norm(find_conflicts(s, *cs))
        if got != want:
            fail("find_conflicts(%r) on %dx%d %s yields %r instead of %r", cs, w, h, show(g), got[:6], want[:6])
        st.step()
    need(snap(s, N) == before, "checking %dx%d %s changed it", w, h, show(g))
    st.state(w, h, g)
    st.outcome(n, solved, len(conf))
