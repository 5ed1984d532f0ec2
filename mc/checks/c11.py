"""C11: created solutions are valid and template sudokus match their template."""
from itertools import product

from mc import choices, ref
from mc.core import arm
from mc.lib import bs, fail, flat, mk, need, raises, show, snap

ID = "C11"
RULE = ("stateless exploration of create_solution() over all outcomes of its random choices (complete up "
        "to length 6, bounded deviations above) and of generate_from_template(): all 2^16 templates of 4x4 "
        "under fixed policies, all templates of length 2, and all sequences of succeeding and failing "
        "attempts (scripted create_solution) for every number of attempts; results are checked with an "
        "independent solver")
BOUNDS = {"quick": "create_solution: N<=6 all (6x6 sliced), N=8,9 1 deviation; templates: 2^16 with one attempt; scripts up to length 3",
          "thorough": "create_solution: N<=6 all, N<=10 2 deviations, up to 16 policies; templates: 2^16 under 4 policies; scripts up to length 5"}


def units(tier):
    q = tier == "quick"
    us = []
    for w, h in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1), (1, 5), (5, 1)):
        us.append({"m": "full", "w": w, "h": h})
    for w, h in ((2, 3), (3, 2)):
        for p in range(8):
            us.append({"m": "tree", "w": w, "h": h, "part": p, "parts": 24 if q else 8})
    for w, h in ((1, 6), (6, 1), (2, 4), (4, 2), (3, 3), (2, 5), (5, 2), (3, 4), (4, 3), (4, 4)):
        for b in ("last", "first", 1) if q else ("last", "first", "mid", "alt", 1, 2, 3):
            big = w * h > 9
            us.append({"m": "dev", "w": w, "h": h, "base": b, "bound": 1 if q or big else 2})
    for lo in range(0, 1 << 16, 1 << 12):
        for b in ("last",) if q else ("last", "first", "mid", 5):
            us.append({"m": "templates", "w": 2, "h": 2, "lo": lo, "hi": lo + (1 << 12), "base": b, "step": 2 if q else 1})
    for w, h in ((1, 2), (2, 1), (1, 1)):
        us.append({"m": "templates", "w": w, "h": h, "lo": 0, "hi": 1 << (w * h) ** 2, "base": "last", "step": 1})
    for w, h in ((1, 3), (3, 1)):
        us.append({"m": "templates", "w": w, "h": h, "lo": 0, "hi": 1 << 9, "base": "mid", "step": 1})
    for w, h in ((2, 2), (2, 1), (4, 1), (2, 3)):
        us.append({"m": "script", "w": w, "h": h, "len": 3 if q else 5})
    us.append({"m": "dense", "hi": 12 if q else 80})
    return us


def cases(unit):
    w, h = unit.get("w"), unit.get("h")
    if unit["m"] == "full":
        yield ["full", w, h]
    elif unit["m"] == "tree":
        for i in range(unit["part"], 720 * w * h, unit["parts"]):
            yield ["one", w, h, i]
    elif unit["m"] == "dev":
        yield ["dev", w, h, unit["base"], unit["bound"]]
    elif unit["m"] == "templates":
        for i in range(unit["lo"], unit["hi"], unit["step"]):
            # alternately odd and even masks
            yield ["template", w, h, i + (i // 64 % 2 if unit["step"] == 2 else 0), unit["base"], 1 + i % 2]
    elif unit["m"] == "script":
        for n in range(unit["len"] + 1):
            for script in product("gb", repeat=n):
                for tries in list(range(0, unit["len"] + 2)) + [-1, -2, None]:
                    yield ["script", w, h, "".join(script), tries]
    else:
        for i in range(unit["hi"]):
            yield ["dense", i]


def solution_ok(w, h, s, what, st):
    N = w * h
    need(bs(s) == ((w, h), w, h), "%s: box size %r", what, bs(s))
    g = flat(s, N)
    if not ref.valid_full(w, h, g):
        fail("%s: %s is no valid complete sudoku", what, show(g))
    st.step()
    st.state(w, h, g)
    st.outcome(w, h, g)


class Script(object):
    """Replaces create_solution by scripted attempts."""

    def __init__(self, grids, w, h):
        from sudokutools import generate
        self.module = generate
        self.grids, self.w, self.h = grids, w, h
        self.calls = 0

    def __call__(self, box_size=(3, 3)):
        need(tuple(box_size) == (self.w, self.h), "a template of box size %dx%d leads to solutions of size %r",
             self.w, self.h, box_size)
        if self.calls >= len(self.grids):
            raise OutOfScript()
        g = self.grids[self.calls]
        self.calls += 1
        return mk(self.w, self.h, g)

    def __enter__(self):
        self.old = getattr(self.module, "create_solution")
        self.module.create_solution = self
        return self

    def __exit__(self, *exc):
        self.module.create_solution = self.old
        return False


class OutOfScript(BaseException):
    pass


def template_result(w, h, template, pattern, result, what, st):
    N = w * h
    need(bs(result) == ((w, h), w, h), "%s: box size %r", what, bs(result))
    g = flat(result, N)
    need(result is not template, "%s returns the template", what)
    if tuple(bool(v) for v in g) != tuple(bool(v) for v in pattern):
        fail("%s: %s does not match the template %s", what, show(g), show(pattern))
    if ref.count_solutions(w, h, g, 2) != 1:
        fail("%s: %s has not exactly one solution", what, show(g))
    st.step()
    st.state(w, h, g)


# (pattern of a template, grid for which it is unique, grid for which it is not)
def scripts(w, h):
    N = w * h
    from mc.domains import base
    if (w, h) == (2, 2):
        pattern = tuple(int(c) for c in "1000001000100001")
        good = bad = None
        for s in ref.solutions(2, 2, (0,) * 16):
            g = tuple(v if p else 0 for v, p in zip(s, pattern))
            n = ref.count_solutions(2, 2, g, 2)
            if n == 1 and good is None:
                good = s
            if n > 1 and bad is None:
                bad = s
        if good is None or bad is None:
            pattern = tuple(int(c) for c in "1100001100100001")
            for s in ref.solutions(2, 2, (0,) * 16):
                g = tuple(v if p else 0 for v, p in zip(s, pattern))
                n = ref.count_solutions(2, 2, g, 2)
                if n == 1 and good is None:
                    good = s
                if n > 1 and bad is None:
                    bad = s
        return pattern, good, bad
    return None


def mixed(w, h):
    """A template which is unique for some complete grids and not for others."""
    N = w * h
    if N <= 4:
        sols = ref.solutions(w, h, (0,) * (N * N))
    else:
        from mc.domains import base
        sols = [base(w, h, v) for v in range(16)]
    import itertools
    if N > 4:
        # six fields of two numbers removed: ambiguous only if they form a cycle
        best = []
        g0 = sols[0]
        for a in range(1, N + 1):
            for b in range(a + 1, N + 1):
                best.append(tuple(0 if v in (a, b) else 1 for v in g0))
        pats = best
    else:
        size = N * N
        pats = []
        for k in range(3, size):
            for keep in itertools.islice(itertools.combinations(range(size), k), 40):
                pats.append(tuple(1 if i in keep else 0 for i in range(size)))
    for pattern in pats:
        good = bad = None
        for s in sols:
            n = ref.count_solutions(w, h, tuple(v if p else 0 for v, p in zip(s, pattern)), 2)
            if n == 1:
                good = good or s
            else:
                bad = bad or s
            if good and bad:
                return pattern, good, bad
    return None


_mixed = {}


def check(case, st):
    from sudokutools.generate import create_solution, generate_from_template
    mode = case[0]
    if mode == "dense":
        i = case[1]
        from mc.domains import base
        w, h = ((3, 3), (2, 4), (4, 2), (2, 3), (3, 2), (1, 5))[i % 6]
        N = w * h
        pattern = [5] * (N * N)
        for k in range(3):
            pattern[(i * 7 + k * 11) % (N * N)] = 0
        if i % 4 == 3:
            # only the empty template
            pattern = [0] * (N * N)
        t = mk(w, h, pattern)
        before = snap(t, N)
        try:
            res, _ = choices.run(lambda: generate_from_template(t, tries=3), i)
            ok = True
        except RuntimeError:
            ok = False
        need(snap(t, N) == before, "the template was changed")
        if i % 4 == 3:
            need(not ok, "an empty template of %dx%d leads to a sudoku", w, h)
        elif ok:
            template_result(w, h, t, pattern, res, "generate_from_template %dx%d" % (w, h), st)
        st.outcome(mode, i, ok)
        return
    w, h = case[1:3]
    N = w * h
    if mode == "full":
        n = choices.full(lambda: (arm(), create_solution(box_size=(w, h)))[1],
                         lambda res, sched: solution_ok(w, h, res, "create_solution(%dx%d) with choices %r" % (
                             w, h, sched), st))
        st.note("executions with all choices", n)
    elif mode == "one":
        # one path of the complete tree: mixed radix digits of i are the choices
        x = case[3]

        class Radix(choices.Chooser):
            def below(self, n):
                v = self.x % n
                self.x //= n
                self.points.append(n)
                return v
        ch = Radix("first")
        ch.x = x
        with ch:
            res = create_solution((w, h))
        solution_ok(w, h, res, "create_solution(%dx%d) with choices %d" % (w, h, x), st)
    elif mode == "dev":
        n = choices.deviations(lambda: (arm(), create_solution((w, h)))[1],
                               lambda res, dev: solution_ok(w, h, res, "create_solution(%dx%d) with policy %r, %r" % (
                                   w, h, case[3], dev), st), case[3], case[4])
        st.note("executions with bounded deviations", n)
    elif mode == "template":
        mask, b, tries = case[3:]
        # any non-zero number marks a field, even conflicting ones
        # (also numbers which don't exist)
        marks = (1, 2, 3) if mask % 5 < 3 else (-1, N + 1, 77, 1)
        pattern = tuple(marks[(k + mask) % len(marks)] if mask >> k & 1 else 0 for k in range(N * N))
        t = mk(w, h, pattern, [frozenset((1 + k % N,)) for k in range(N * N)])
        before = snap(t, N)
        what = "generate_from_template(%dx%d %s)" % (w, h, show(pattern))
        made = []
        from sudokutools import generate as module
        orig = module.create_solution

        def spy(*args, **kwargs):
            s = orig(*args, **kwargs)
            made.append(flat(s, N))
            return s
        module.create_solution = spy
        try:
            try:
                res, points = choices.run(lambda: generate_from_template(t, tries), b)
            except RuntimeError:
                res = None
        finally:
            module.create_solution = orig
        need(snap(t, N) == before, "%s changed the template", what)
        if res is not None:
            template_result(w, h, t, pattern, res, what, st)
        uniq = [ref.count_solutions(w, h, tuple(v if p else 0 for v, p in zip(m, pattern)), 2) == 1 for m in made]
        if made:
            attempts(uniq, res is not None, tries, what)
        if N <= 3 or mask == (1 << N * N) - 1 or mask == 0:
            sols = ref.solutions(w, h, (0,) * (N * N))
            u = {ref.count_solutions(w, h, tuple(v if p else 0 for v, p in zip(m, pattern)), 2) == 1 for m in sols}
            if u == {True}:
                need(res is not None, "%s fails though every solution fits", what)
            elif u == {False}:
                need(res is None, "%s returns a sudoku though no solution fits", what)
        st.step()
        st.state(w, h, mask)
        st.outcome(res is not None, len(made))
    else:
        script, tries = case[3:]
        if (w, h) not in _mixed:
            _mixed[w, h] = mixed(w, h)
        found = _mixed[w, h]
        if not found:
            return
        pattern, good, bad = found
        grids = [good if c == "g" else bad for c in script]
        # unlimited attempts are only finite if one of them succeeds
        limit = 100 if tries is None else tries
        needed = script.index("g") + 1 if "g" in script else None
        if needed is None and (limit < 0 or limit > len(script)):
            return
        t = mk(w, h, pattern)
        before = snap(t, N)
        what = "generate_from_template(%dx%d %s, tries=%r) with attempts %s" % (w, h, show(pattern), tries, script)
        with Script(grids, w, h) as sc:
            ch = choices.Chooser(3)
            with ch:
                try:
                    res = generate_from_template(t) if tries is None else generate_from_template(t, tries=tries)
                except RuntimeError:
                    res = None
                except OutOfScript:
                    fail("%s makes more attempts than allowed or needed", what)
        need(snap(t, N) == before, "%s changed the template", what)
        if sc.calls == 0 and limit != 0:
            # attempts are made in another way: judge the result alone
            st.note("scripted attempts not used")
            if res is not None:
                template_result(w, h, t, pattern, res, what, st)
            return
        want = needed is not None and (limit < 0 or needed <= limit)
        if (res is not None) != want:
            fail("%s %s", what, "fails" if res is None else "returns a sudoku")
        if res is not None:
            template_result(w, h, t, pattern, res, what, st)
            need(flat(res, N) == tuple(v if p else 0 for v, p in zip(good, pattern)),
                 "%s returns %s", what, show(flat(res, N)))
        st.step()
        st.state(w, h, script, tries)
        st.outcome(want, sc.calls)


def attempts(uniq, ok, tries, what):
    if ok:
        need(uniq[-1] and not any(uniq[:-1]), "%s: attempts %r, but a sudoku is returned", what, uniq)
        need(tries < 0 or len(uniq) <= tries, "%s: %d instead of %d attempts", what, len(uniq), tries)
    else:
        need(not any(uniq), "%s fails though an attempt succeeded", what)
        need(len(uniq) == tries, "%s gives up after %d instead of %d attempts", what, len(uniq), tries)
