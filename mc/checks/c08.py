"""C08: step-wise solving returns a solution whenever there is one and always ends."""
from mc import domains, ref, steps
from mc.lib import adversarial, bs, fail, flat, mk, need, show, snap

ID = "C08"
RULE = ("complete families of unique, ambiguous, unsolvable, conflicting and complete sudokus per box "
        "size, each with adversarial stored candidates in turn: result, reported steps, their replay on "
        "the original, the unchanged input and termination (budget of steps and CPU time)")
BOUNDS = {"quick": "domains.deep_units('quick', 2), domains.rare()", "thorough": "domains.deep_units('thorough'), domains.rare()"}
CASE_CPU = 20.0
ASSUMPTIONS = ["a run is taken as not terminating after 40 N^3 steps or 20 CPU seconds (normal: below 0.1 s)"]


class Budget(BaseException):
    pass


def units(tier):
    us = domains.deep_units(tier, 2)
    if tier == "quick":
        us.append(domains.U("givens", 1, 4, k=1))
        us.append(domains.U("givens", 4, 1, k=1))
    return us + domains.rare_units()


def cases(unit):
    for i, (w, h, g) in enumerate(domains.grids(unit)):
        yield [w, h, g, i % 6]


def check(case, st):
    from sudokutools.solve import init_candidates
    from sudokutools.solvers import solve
    w, h, g, kind = case
    g = tuple(g)
    N = w * h
    s = mk(w, h, g, adversarial(w, h, kind))
    before = snap(s, N)
    reported = []
    budget = 40 * N ** 3 + 1000

    def report(step):
        reported.append(step)
        if len(reported) > budget:
            raise Budget()

    try:
        result = solve(s, report)
    except Budget:
        fail("solve() of %dx%d %s does not end", w, h, show(g))
    what = "%dx%d %s" % (w, h, show(g))
    need(snap(s, N) == before, "solve() changed the sudoku passed in (%s)", what)
    need(result is not s, "solve() returns the sudoku passed in (%s)", what)
    if ref.count_solutions(w, h, g, 1):
        f = flat(result, N)
        need(bs(result) == ((w, h), w, h), "box size of the result of %s is %r", what, bs(result))
        if not ref.valid_full(w, h, f):
            fail("solve() of %s returns %s, which is not solved", what, show(f))
        if any(v and v != f[k] for k, v in enumerate(g)):
            fail("solve() of %s returns %s, which lacks given numbers", what, show(f))
        # replay: fresh and with the stored candidates of empty fields removed
        t = mk(w, h, g)
        init_candidates(t, filled_only=True)
        for step in reported:
            step.apply(t)
        if snap(t, N) != snap(result, N):
            fail("applying the reported steps to %s does not lead to the result", what)
        again = flat(solve(s), N)
        need(ref.valid_full(w, h, again) and all(not v or v == again[k] for k, v in enumerate(g)),
             "solving %s again returns %s", what, show(again))
        st.step(2)
    st.step(1 + len(reported))
    st.state(w, h, g)
    for step in reported:
        st.note(type(step).__name__)
    st.outcome(w, h, len(reported))
