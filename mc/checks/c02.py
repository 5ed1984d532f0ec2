"""C02: solution streams are independent of what happens between solutions."""
from itertools import product

from mc import ref
from mc.lib import adversarial, flat, mk, need, show, snap

ID = "C02"
RULE = ("all sequences of a fixed length over {next of stream A, next of stream B, change the "
        "solutions delivered last, change the input, uniqueness check, step-wise solve, abandon and "
        "reopen B, drain a third stream}, for every pairing of solvers and several inputs with none, one or 2 to "
        "12 solutions; B runs on the same sudoku or on one of another shape; afterwards both streams "
        "are drained and compared with the undisturbed order and all delivered solutions are re-read")
BOUNDS = {"quick": "sequences of length 4 (one input: 5)", "thorough": "sequences of length 5 (two inputs: 6)"}

OPS = "abmiusct"

# (w, h, grid)
INPUTS = [
    (2, 1, "0000"),
    (2, 2, "1234341200000000"),
    (2, 2, "1234340021400000"),
    (2, 2, "0000341221434321"),
    (3, 1, "120000000"),
    (2, 2, "0030000000000140"),
    (2, 2, "1004000000000203"),
    (2, 3, "023456456123345612612345034561561234"),
    (1, 4, "1234240030000000"),
    (2, 2, "1234341221434321"),
    (2, 2, "1234341221434320"),
    (2, 2, "1234341221434322"),
    (1, 1, "1"),
]
OTHER = (2, 1, "0000")


def units(tier):
    n = 4 if tier == "quick" else 5
    us = []
    for i in range(len(INPUTS)):
        big = i in (0, 4)
        for x in ("bruteforce", "dlx"):
            for y in ("bruteforce", "dlx"):
                for same in (1, 0):
                    length = n + 1 if big and same and (tier != "quick" or (i == 0 and x != y)) else n
                    if tier == "quick":
                        # the other pairings are left to the thorough tier
                        if i >= 4 and (x != y or not same):
                            continue
                        if not same and (x == y or i > 1):
                            continue
                    parts = 8 if length > 4 else 1
                    for p in range(parts):
                        us.append({"i": i, "x": x, "y": y, "same": same, "len": length,
                                   "first": [p] if parts > 1 else list(range(8))})
    return us


def cases(unit):
    for f in unit["first"]:
        for rest in product(OPS, repeat=unit["len"] - 1):
            yield [unit["i"], unit["x"], unit["y"], unit["same"], OPS[f] + "".join(rest)]


def spoil(s, N, k):
    """Change numbers and candidates of a sudoku the caller owns."""
    for r in range(N):
        for c in range(N):
            # some fields, no field or every field filled
            s[r, c] = ((r + c + k) % (N + 1), 0, N, (r + c) % N + 1)[k % 4]
            s.set_candidates(r, c, {(r * k) % N + 1})


_expected = {}


def expected(name, w, h, grid):
    """Undisturbed order of the solver on a private sudoku."""
    from sudokutools import solve
    key = name, w, h, grid
    if key not in _expected:
        sols = [flat(s, w * h) for s in getattr(solve, name)(mk(w, h, grid))]
        need(sorted(sols) == sorted(ref.solutions(w, h, grid)), "%s on %s: wrong solutions", name, show(grid))
        _expected[key] = sols
    return _expected[key]


class Stream(object):
    def __init__(self, name, sudoku, w, h):
        from sudokutools import solve
        self.name, self.sudoku, self.w, self.h = name, sudoku, w, h
        self.gen = getattr(solve, name)(sudoku)
        self.want = None
        self.pos = 0
        self.got = []           # [solution object, expected numbers and candidates]

    def next(self):
        N = self.w * self.h
        if self.want is None:
            self.want = expected(self.name, self.w, self.h, flat(self.sudoku, N))
        before = snap(self.sudoku, N)
        try:
            sol = next(self.gen)
        except StopIteration:
            need(self.pos >= len(self.want), "%s ended after %d of %d solutions", self.name, self.pos, len(self.want))
            return
        need(snap(self.sudoku, N) == before, "requesting a solution from %s changed the sudoku", self.name)
        need(self.pos < len(self.want), "%s yields more than %d solutions", self.name, len(self.want))
        f = flat(sol, N)
        need(f == self.want[self.pos], "%s: solution %d is %s instead of %s", self.name, self.pos,
             show(f), show(self.want[self.pos]))
        need(sol is not self.sudoku and all(sol is not o for o, _ in self.got),
             "%s delivered the same object twice", self.name)
        self.pos += 1
        self.got.append([sol, snap(sol, N)])

    def verify(self):
        N = self.w * self.h
        for i, (sol, want) in enumerate(self.got):
            need(snap(sol, N) == want, "delivered solution %d of %s changed by itself", i, self.name)


def check(case, st):
    from sudokutools import solve, solvers
    from sudokutools.analyze import is_unique
    i, x, y, same, ops = case
    w, h, text = INPUTS[i]
    grid = tuple(int(ch) for ch in text)
    N = w * h
    s = mk(w, h, grid, adversarial(w, h, i % 6))
    a = Stream(x, s, w, h)
    if same:
        s2, w2, h2 = s, w, h
    else:
        w2, h2, text2 = OTHER if (w, h) != (2, 1) else (1, 2, "0000")
        s2 = mk(w2, h2, tuple(int(ch) for ch in text2))
    b = Stream(y, s2, w2, h2)
    streams = [a, b]
    for k, op in enumerate(ops):
        if op == "a":
            a.next()
        elif op == "b":
            b.next()
        elif op == "m":
            for stream in streams:
                if stream.got:
                    n = stream.w * stream.h
                    spoil(stream.got[-1][0], n, k + 1)
                    stream.got[-1][1] = snap(stream.got[-1][0], n)
        elif op == "i":
            # only once every stream reading this sudoku has delivered something
            if all(t.want is not None for t in streams if t.sudoku is s):
                spoil(s, N, k + 2)
        elif op == "u":
            cur = snap(s, N)
            need(is_unique(s) == (ref.count_solutions(w, h, cur[0], 2) == 1), "is_unique() is wrong")
            need(snap(s, N) == cur, "is_unique() changed the sudoku")
        elif op == "s":
            cur = snap(s, N)
            solvers.solve(s)
            need(snap(s, N) == cur, "solve() changed the sudoku")
        elif op == "c":
            b.gen.close()
            b.verify()
            b = Stream(y, s2, w2, h2)
            streams.append(b)
        else:
            other = mk(w, h, grid)
            name = ("bruteforce", "dlx")[k % 2]
            got = [flat(t, N) for t in getattr(solve, name)(other)]
            need(got == expected(name, w, h, grid), "a third stream of %s yields other solutions", name)
        for stream in streams:
            stream.verify()
        st.step()
    for stream in (a, b):
        if stream.want is not None:
            while stream.pos < len(stream.want):
                stream.next()
            stream.next()
            st.step()
    for stream in streams:
        stream.verify()
    st.state(i, x, y, same, ops)
    st.outcome(i, x, y, a.pos, b.pos)
