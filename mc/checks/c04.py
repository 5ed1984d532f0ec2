"""C04: calculated candidates are exactly the numbers the peers allow."""
from mc import domains, ref
from mc.lib import adversarial, fail, flat, mk, need, show

ID = "C04"
RULE = ("complete families of empty, sparse, full and conflicting sudokus per box size, each with "
        "adversarial stored candidates in turn: calc_candidates for every field and init_candidates "
        "(all fields, filled fields only, each also applied twice) compared with the definition")
BOUNDS = {"quick": "domains.deep_units('quick') plus conflicting fillings",
          "thorough": "domains.deep_units('thorough') plus all fillings of up to 3 fields of 4x4"}


def units(tier):
    q = tier == "quick"
    us = domains.deep_units(tier, 1)
    for w, h in ((1, 4), (4, 1), (2, 2)):
        us += domains.split(domains.U("givens", w, h, k=2 if q else 3), domains.n_givens(w, h, 2 if q else 3), 4)
    for w, h in ((2, 3), (3, 2), (1, 5), (5, 1)):
        us.append(domains.U("givens", w, h, k=1))
        us += domains.split(domains.U("givens", w, h, k=2), domains.n_givens(w, h, 2), 24)[3::12 if q else 1]
    for w, h in ((3, 3), (2, 4), (4, 2), (1, 7), (3, 4), (4, 3), (2, 5), (5, 2), (4, 4)):
        us.append(domains.U("givens", w, h, k=1, hi=None if w * h < 10 else 400))
    return us


def cases(unit):
    for i, (w, h, g) in enumerate(domains.grids(unit)):
        yield [w, h, g, i % 6]


def check(case, st):
    from sudokutools.solve import calc_candidates, init_candidates
    w, h, g, kind = case
    g = tuple(g)
    N = w * h
    want = ref.all_candidates(w, h, g)
    stored = adversarial(w, h, kind)
    s = mk(w, h, g, stored)
    for k in range(N * N):
        got = calc_candidates(s, k // N, k % N)
        if set(got) != want[k] or len(got) != len(want[k]):
            fail("calc_candidates(%d, %d) on %dx%d %s is %r instead of %r", k // N, k % N, w, h, show(g),
                 got, want[k])
        # the result belongs to the caller
        if isinstance(got, set):
            got.add(N + 7)
            got.discard(1)
    st.step(N * N)

    def compare(what, wanted):
        for k in range(N * N):
            got = s.get_candidates(k // N, k % N)
            if set(got) != set(wanted[k]):
                fail("%s on %dx%d %s: candidates of (%d, %d) are %r instead of %r", what, w, h, show(g),
                     k // N, k % N, set(got), set(wanted[k]))
        need(flat(s, N) == g, "%s changed the numbers of %dx%d %s", what, w, h, show(g))
        st.step()

    compare("calc_candidates", stored)
    init_candidates(s, filled_only=True)
    compare("init_candidates(filled_only)", [want[k] if g[k] else stored[k] for k in range(N * N)])
    init_candidates(s)
    compare("init_candidates", want)
    init_candidates(s)
    compare("second init_candidates", want)
    init_candidates(s, filled_only=True)
    compare("init_candidates(filled_only) after init_candidates", want)
    st.state(w, h, g)
    st.outcome(w, h, sum(len(x) for x in want))
