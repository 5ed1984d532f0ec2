"""C13: a sudoku stores exactly what was written and copies share nothing."""
from itertools import product

from mc.lib import fail, mk, need

ID = "C13"
RULE = ("explicit-state exploration of all operation sequences up to a depth on three registers of sudokus "
        "(set, set/remove candidates with every kind of container which is changed afterwards, copy with and "
        "without candidates, compare) against a dictionary model, every accessor observed after each sequence; "
        "all pairs of grids of 1x2, 2x1 and 1x1 and structured pairs of other sizes for ==, !=, equals and diff")
BOUNDS = {"quick": "sequences up to length 4 of 25 operations (1x2, 2x1), 3 (2x2, 3x3); all 81x81 pairs; numbers up to 10^30 in boxes up to 17x17",
          "thorough": "sequences up to length 5 (1x2, 2x1), 4 (2x2), 3 (other sizes)"}

# operation = [name, register, field index, value]; registers: 0 = A, 1 = B (copy target), 2 = other size
SIZES = {"a": ((1, 2), (2, 1)), "b": ((2, 1), (2, 2)), "c": ((2, 2), (1, 4)), "d": ((3, 3), (2, 2)),
         "e": ((2, 3), (3, 2)), "f": ((1, 1), (1, 2)), "g": ((4, 3), (3, 4)), "h": ((1, 3), (3, 1))}


def ops(key):
    (w, h), _ = SIZES[key]
    N = w * h
    last = N * N - 1
    mid = 1 % (last + 1)
    big = N
    res = []
    for reg in (0, 1):
        res += [["set", reg, 0, 1], ["set", reg, last, big], ["setn", reg, 0, 0]]
        res += [["cand", reg, 0, [1], "list"], ["cand", reg, mid, [big, 1], "set"], ["cand", reg, 0, [], "gen"]]
        res += [["rem", reg, 0, [1], "set"], ["rem", reg, mid, [big, 7], "gen"]]
    res += [["copy", 0, 1, True], ["copy", 0, 1, False], ["copy", 1, 0, True],
            ["copy", 0, 2, True], ["copy", 2, 1, False], ["swap", 0, 1],
            ["touch", 0, 0], ["look", 0], ["set", 2, 0, 1]]
    return res


def units(tier):
    q = tier == "quick"
    us = []
    for key in sorted(SIZES):
        n = len(ops(key))
        depth = {"a": 4, "b": 4, "c": 3, "d": 3}.get(key, 2) + (0 if q else 1)
        if q and key == "b":
            depth = 3
        if depth >= 4:
            for i in range(n):
                if depth >= 5:
                    for j in range(n):
                        us.append({"m": "seq", "k": key, "pre": [i, j], "depth": depth})
                else:
                    us.append({"m": "seq", "k": key, "pre": [i], "depth": depth})
            us.append({"m": "seq", "k": key, "pre": [], "depth": 2})
        else:
            us.append({"m": "seq", "k": key, "pre": [], "depth": depth})
    for i in range(8):
        us.append({"m": "pairs", "lo": i, "step": 8})
    us.append({"m": "struct"})
    us.append({"m": "types"})
    us.append({"m": "big"})
    return us


def cases(unit):
    if unit["m"] == "seq":
        k = len(ops(unit["k"]))
        n = unit["depth"] - len(unit["pre"])
        if n < 0:
            return
        for length in range(n + 1) if len(unit["pre"]) == 0 else range(1 if len(unit["pre"]) > 1 else 0, n + 1):
            for rest in product(range(k), repeat=length):
                yield ["seq", unit["k"], list(unit["pre"]) + list(rest)]
    elif unit["m"] == "pairs":
        grids = list(product(range(3), repeat=4))
        for i in range(unit["lo"], len(grids), unit["step"]):
            yield ["pairs", i]
    elif unit["m"] == "struct":
        shapes = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1), (2, 3), (3, 2), (1, 6), (3, 3), (2, 4),
                  (4, 2), (5, 1), (1, 9), (2, 5), (3, 4), (4, 3), (4, 4)]
        for a in shapes:
            for b in shapes:
                yield ["struct", a, b]
    elif unit["m"] == "big":
        for w, h in ((1, 1), (1, 2), (2, 2), (3, 3), (4, 4), (16, 1), (10, 10), (17, 17)):
            for i in range(len(BIG)):
                yield ["big", w, h, i]
    else:
        for w, h in ((1, 2), (2, 2), (2, 3), (3, 3)):
            for i in range(6):
                yield ["types", w, h, i]


# numbers which are not kept once per process, do not fit a byte, a word, ...
BIG = [127, 128, 255, 256, 257, 300, 1000, 32767, 65535, 65536, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, 10 ** 30]


def fresh(v):
    """The number v as another object."""
    return int(str(v))


class Model(object):
    def __init__(self, w, h):
        self.w, self.h = w, h
        self.N = w * h
        self.num = {}
        self.cand = {}
        for r in range(self.N):
            for c in range(self.N):
                self.num[r, c] = 0
                self.cand[r, c] = frozenset()

    def copy(self, cands):
        m = Model(self.w, self.h)
        m.num = dict(self.num)
        if cands:
            m.cand = dict(self.cand)
        return m


def observe(s, m, what):
    N = m.N
    coords = sorted(m.num)
    if tuple(s.box_size) != (m.w, m.h) or s.box_width != m.w or s.box_height != m.h:
        fail("%s: box size is %r", what, s.box_size)
    if list(s) != coords:
        fail("%s: iteration yields %r", what, list(s))
    if len(s) != N * N:
        fail("%s: len() is %r", what, len(s))
    for rc in coords:
        v = s[rc]
        if v != m.num[rc] or s.get_number(*rc) != v or s[rc[0], rc[1]] != v:
            fail("%s: number of %r is %r instead of %r", what, rc, v, m.num[rc])
        c = s.get_candidates(*rc)
        if set(c) != m.cand[rc] or len(c) != len(m.cand[rc]):
            fail("%s: candidates of %r are %r instead of %r", what, rc, c, m.cand[rc])
    empty = [rc for rc in coords if not m.num[rc]]
    filled = [rc for rc in coords if m.num[rc]]
    if list(s.empty()) != empty:
        fail("%s: empty() yields %r instead of %r", what, list(s.empty()), empty)
    if list(s.filled()) != filled:
        fail("%s: filled() yields %r instead of %r", what, list(s.filled()), filled)
    if s.count() != len(filled):
        fail("%s: count() is %r instead of %d", what, s.count(), len(filled))


def relation(a, b, ma, mb, what):
    """Compare every pair of sudokus."""
    same = ma.N == mb.N and ma.num == mb.num
    for x, y in ((a, b), (b, a)):
        if (x == y) is not same and (x == y) != same:
            fail("%s: == is %r instead of %r", what, x == y, same)
        if (x != y) != (not same):
            fail("%s: != is %r instead of %r", what, x != y, not same)
    if ma.N == mb.N:
        want = [rc for rc in sorted(ma.num) if ma.num[rc] != mb.num[rc]]
        for x, y in ((a, b), (b, a)):
            if list(x.diff(y)) != want:
                fail("%s: diff is %r instead of %r", what, list(x.diff(y)), want)
            if bool(x.equals(y)) != same:
                fail("%s: equals() is %r", what, x.equals(y))
            full = same and ma.cand == mb.cand
            if bool(x.equals(y, candidates=True)) != full:
                fail("%s: equals(candidates=True) is %r instead of %r", what, x.equals(y, candidates=True), full)


def container(values, kind):
    if kind == "list":
        return list(values)
    if kind == "set":
        return set(values)
    if kind == "tuple":
        return tuple(values)
    if kind == "frozenset":
        return frozenset(values)
    return (v for v in list(values))


def spoil(c):
    """Change a container that was passed in or handed out."""
    if isinstance(c, list):
        c.append(99)
        del c[0]
    elif isinstance(c, set):
        c.add(99)
        c.discard(1)
    elif isinstance(c, dict):
        c.clear()


def run(key, seq, st):
    from sudokutools.sudoku import Sudoku
    table = ops(key)
    (w, h), (w2, h2) = SIZES[key]
    reg = [Sudoku((w, h)), Sudoku(box_size=(w, h)), Sudoku((w2, h2))]
    mod = [Model(w, h), Model(w, h), Model(w2, h2)]
    old = []
    for i in seq:
        op = table[i]
        name = op[0]
        if name in ("set", "setn", "cand", "rem"):
            s, m = reg[op[1]], mod[op[1]]
            rc = divmod(op[2] % (m.N * m.N), m.N)
            if name == "set":
                s[rc] = op[3]
                m.num[rc] = op[3]
            elif name == "setn":
                s.set_number(rc[0], rc[1], op[3])
                m.num[rc] = op[3]
            else:
                c = container(op[3], op[4])
                if name == "cand":
                    s.set_candidates(rc[0], rc[1], c)
                    m.cand[rc] = frozenset(op[3])
                else:
                    s.remove_candidates(rc[0], rc[1], c)
                    m.cand[rc] = m.cand[rc] - set(op[3])
                spoil(c)
        elif name == "copy":
            _, a, b, cands = op
            # the overwritten sudoku lives on
            old.append((reg[b], mod[b]))
            reg[b] = reg[a].copy(include_candidates=True) if cands else reg[a].copy()
            need(reg[b] is not reg[a], "copy returns the sudoku itself")
            mod[b] = mod[a].copy(cands)
        elif name == "swap":
            reg[0], reg[1] = reg[1], reg[0]
            mod[0], mod[1] = mod[1], mod[0]
        elif name == "touch":
            s, m = reg[op[1]], mod[op[1]]
            for rc in sorted(m.num):
                spoil(s.get_candidates(*rc))
            for f in ("row_of", "column_of", "box_of", "surrounding_of"):
                spoil(getattr(s, f)(0, 0))
            spoil(list(s))
            spoil(s.box_size)
        else:
            # looking at a sudoku changes nothing
            s, m = reg[op[1]], mod[op[1]]
            str(s)
            s.encode(include_candidates=True)
            observe(s, m, "after %r" % [table[j] for j in seq])
            for x in reg:
                s == x
                if len(x) == len(s):
                    list(s.diff(x))
                    s.equals(x, True)
                for other in (3, None, "x", {}, [], ()):
                    s == other
        st.step()
    return reg, mod, old


def check(case, st):
    m = case[0]
    if m == "seq":
        key, seq = case[1:]
        reg, mod, old = run(key, seq, st)
        what = "%s after %r" % (SIZES[key], [ops(key)[i] for i in seq])
        for i in range(3):
            observe(reg[i], mod[i], what + ", sudoku %d" % i)
        for s, mm in old:
            observe(s, mm, what + ", overwritten sudoku")
        for i in range(3):
            for j in range(i + 1):
                relation(reg[i], reg[j], mod[i], mod[j], what + ", sudokus %d and %d" % (i, j))
        st.state(key, tuple(tuple(sorted(x.num.items())) + tuple(sorted((k, tuple(sorted(v))) for k, v in x.cand.items()))
                            for x in mod))
        st.outcome(key, reg[0] == reg[1], reg[0].count())
    elif m == "pairs":
        grids = list(product(range(3), repeat=4))
        g = grids[case[1]]
        for o in grids:
            for sa, sb in (((1, 2), (1, 2)), ((1, 2), (2, 1)), ((2, 1), (2, 1))):
                pair(sa, sb, g, o, st)
            pair((1, 1), (1, 2), g[:1], o, st)
    elif m == "struct":
        a, b = tuple(case[1]), tuple(case[2])
        na, nb = (a[0] * a[1]) ** 2, (b[0] * b[1]) ** 2
        for i in range(4):
            for j in range(4):
                if i == 0:
                    ga = (0,) * na
                else:
                    ga = tuple((k * i + 1) % (a[0] * a[1] + 1) for k in range(na))
                if j == 0:
                    gb = (0,) * nb
                elif na == nb and j == 1:
                    gb = ga
                elif na == nb and j == 2:
                    gb = ga[:-1] + (ga[-1] + 1,)
                else:
                    gb = tuple((k * j + 1) % (b[0] * b[1] + 1) for k in range(nb))
                pair(a, b, ga, gb, st)
    elif m == "big":
        from sudokutools.sudoku import Sudoku
        w, h, i = case[1:]
        N, v = w * h, BIG[i]
        what = "%dx%d with %d" % (w, h, v)
        a, b = Sudoku((w, h)), Sudoku((w, h))
        ma, mb = Model(w, h), Model(w, h)
        spots = sorted({(0, 0), (N - 1, N - 1), (N // 2, N // 3), (0, N - 1)})
        for s, mm in ((a, ma), (b, mb)):
            for k, rc in enumerate(spots):
                s[rc] = fresh(v + k)
                mm.num[rc] = v + k
                s.set_candidates(rc[0], rc[1], [fresh(v), fresh(v + 1), fresh(N + 1), 1])
                mm.cand[rc] = frozenset((v, v + 1, N + 1, 1))
                s.remove_candidates(rc[0], rc[1], [fresh(v + 1), fresh(v + 2)])
                mm.cand[rc] -= {v + 1, v + 2}
        relation(a, b, ma, mb, what)
        c, mc = a.copy(include_candidates=True), ma.copy(True)
        relation(c, b, mc, mb, what + ", copied")
        observe(c, mc, what + ", copied")
        b[spots[-1]] = fresh(v + 7)
        mb.num[spots[-1]] = v + 7
        relation(a, b, ma, mb, what + ", one field changed")
        b[spots[-1]] = fresh(v + len(spots) - 1)
        mb.num[spots[-1]] = v + len(spots) - 1
        b.set_candidates(spots[0][0], spots[0][1], [])
        mb.cand[spots[0]] = frozenset()
        relation(a, b, ma, mb, what + ", candidates changed")
        observe(a, ma, what)
        observe(b, mb, what)
        st.state("big", w, h, i)
        st.step()
    else:
        from sudokutools.sudoku import Sudoku
        w, h, i = case[1:]
        N = w * h
        for kind in ("list", "set", "tuple", "frozenset", "gen"):
            for copy in (False, True):
                s = Sudoku((w, h))
                m = Model(w, h)
                keep = []
                for k in range(N * N):
                    values = [v for v in range(1, N + 1) if (v * (i + 1) + k) % 3]
                    c = container(values + values[:1], kind)
                    s.set_candidates(k // N, k % N, c)
                    keep.append(c)
                    m.cand[k // N, k % N] = frozenset(values)
                    s[k // N, k % N] = (k + i) % (N + 1)
                    m.num[k // N, k % N] = (k + i) % (N + 1)
                other = s.copy(True) if copy else s
                mm = m.copy(True)
                for c in keep:
                    spoil(c)
                observe(s, m, "%dx%d with candidates from %s" % (w, h, kind))
                # the same container for two sudokus or two fields
                shared = container([1], kind)
                other.set_candidates(0, 0, shared)
                mm.cand[0, 0] = frozenset([1])
                s.set_candidates(N - 1, 0, container([N], kind))
                m.cand[N - 1, 0] = frozenset([N])
                if not copy:
                    m.cand[0, 0] = frozenset([1])
                    mm.cand[N - 1, 0] = frozenset([N])
                for k in range(N * N):
                    r = container([1 + k % N], kind)
                    other.remove_candidates(k // N, k % N, r)
                    spoil(r)
                    mm.cand[k // N, k % N] -= {1 + k % N}
                    if not copy:
                        m.cand[k // N, k % N] -= {1 + k % N}
                observe(s, m, "%dx%d with candidates from %s, changed copy" % (w, h, kind))
                observe(other, mm, "%dx%d with candidates from %s, copy" % (w, h, kind))
                relation(s, other, m, mm, "%dx%d %s" % (w, h, kind))
                st.step()
        st.state(w, h, i)


def pair(sa, sb, ga, gb, st):
    a, b = mk(sa[0], sa[1], ga), mk(sb[0], sb[1], gb)
    ma, mb = Model(*sa), Model(*sb)
    for m, g in ((ma, ga), (mb, gb)):
        for k, v in enumerate(g):
            m.num[k // m.N, k % m.N] = v
    a.set_candidates(0, 0, (1,))
    ma.cand[0, 0] = frozenset((1,))
    relation(a, b, ma, mb, "%r %r and %r %r" % (sa, ga, sb, gb))
    relation(a, a, ma, ma, "%r %r and itself" % (sa, ga))
    st.step()
    st.state(sa, sb, ga, gb)
