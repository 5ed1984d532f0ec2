"""C09: rating and score reflect the steps needed."""
from mc import domains, ref
from mc.core import known_findings
from mc.lib import adversarial, fail, mk, need, show, snap

ID = "C09"
RULE = ("complete families of solvable sudokus (unique, ambiguous, complete) per box size, each with "
        "adversarial stored candidates in turn: rate and score (called in both orders, twice) compared "
        "with the difficulty values of the steps reported by solve on an equal sudoku, and with the "
        "bounds; the reported steps are replayed and wherever the technique changes, every technique of a lower value must find nothing; inputs of known-findings.txt are skipped for the bound they are listed for")
BOUNDS = {"quick": "domains.deep_units('quick', 2), domains.rare(); upper bound of the score for unique sudokus",
          "thorough": "domains.deep_units('thorough', 2), domains.rare(); upper bound of the score for unique sudokus and "
                      "for all sub-patterns of two complete 4x4 grids"}

VALUES = {
    "CalculateCandidates": 0, "NakedSingle": 1, "HiddenSingle": 1, "NakedPair": 2, "HiddenPair": 2,
    "NakedTriple": 2, "HiddenTriple": 2, "NakedQuad": 3, "HiddenQuad": 3, "NakedQuint": 3,
    "HiddenQuint": 3, "PointingPair": 4, "PointingTriple": 4, "XWing": 5, "Swordfish": 6,
    "Jellyfish": 7, "Bruteforce": 10,
}
FINDING = "score-above-bound"


def units(tier):
    us = domains.deep_units(tier, 2)
    if tier == "thorough":
        us = [dict(u, ambiguous=1) if u["f"] == "mask" and u.get("v") in (100, 101) else u for u in us]
    us += domains.rare_units()
    us.append({"f": "known", "lo": 0, "hi": None})
    return us


_known = None


def known():
    global _known
    if _known is None:
        _known = known_findings(ID).get(FINDING, (set(), ""))[0]
    return _known


def cases(unit):
    if unit["f"] == "known":
        for i, text in enumerate(sorted(known())):
            v, m = text.split(":")
            g = domains.base(2, 2, int(v))
            yield [2, 2, tuple(x if int(m) >> k & 1 else 0 for k, x in enumerate(g)), 0, text, 1]
        return
    for i, (w, h, g) in enumerate(domains.grids(unit)):
        name = "%d:%d" % (unit["v"], unit["lo"] + i) if unit.get("f") == "mask" and unit["v"] >= 100 else None
        yield [w, h, g, i % 6, name, unit.get("ambiguous", 0)]


def simplest(w, h, g, steps, what, st):
    """Whenever the technique changes, no technique with a lower value finds anything."""
    from sudokutools import solvers
    from sudokutools.solve import init_candidates
    t = mk(w, h, g)
    init_candidates(t, filled_only=True)
    last = None
    for i, step in enumerate(steps):
        name = type(step).__name__
        if name != last:
            for easier, value in VALUES.items():
                if 0 < value < VALUES[name]:
                    for other in getattr(solvers, easier).find(t):
                        fail("step %d of %s is %s, but there is still the simpler %s", i, what, step, other)
                    st.step()
            last = name
        step.apply(t)


def check(case, st):
    from sudokutools.analyze import rate, score
    from sudokutools.solvers import solve
    w, h, g, kind, name, ambiguous = case
    g = tuple(g)
    N = w * h
    n = ref.count_solutions(w, h, g, 2)
    if not n:
        return
    what = "%dx%d %s" % (w, h, show(g))
    steps = []
    solve(mk(w, h, g, adversarial(w, h, kind)), steps.append)
    values = []
    for step in steps:
        values.append(VALUES[type(step).__name__])
        st.note(type(step).__name__)
    if kind % 2 or name is None:
        simplest(w, h, g, steps, what, st)
    s = mk(w, h, g, adversarial(w, h, kind))
    before = snap(s, N)
    for func in ((rate, score), (score, rate))[kind % 2] + ((score,) if kind == 3 else ()):
        got = func(s)
        want = (max(values) if values else 0) if func is rate else sum(values)
        if got != want:
            fail("%s() of %s is %r, the reported steps give %r", func.__name__, what, got, want)
        if (got == 0) != (0 not in g):
            fail("%s() of %s is %r", func.__name__, what, got)
        need(got <= 10 or func is score, "rate() of %s is %r", what, got)
        need(snap(s, N) == before, "%s() changed %s", func.__name__, what)
        st.step()
    # stored candidates do not matter
    s = mk(w, h, g, adversarial(w, h, (kind + 1) % 6))
    need(rate(s) == (max(values) if values else 0) and score(s) == sum(values),
         "rate() or score() of %s depends on stored candidates", what)
    st.step(2)
    limit = 10 * g.count(0)
    if sum(values) > limit and (n == 1 or ambiguous):
        if name in known():
            st.known_finding(FINDING, name)
        else:
            fail("score() of %s is %d, more than 10 for each of the %d empty fields", what, sum(values), g.count(0))
    st.state(w, h, g)
    st.outcome(max(values) if values else 0, sum(values))
