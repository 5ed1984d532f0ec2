"""Finite families of sudokus. A unit describes a slice of a family, grids(unit)
enumerates it completely, in a fixed order. All grids are flat tuples."""
import os
from itertools import combinations, islice, product
from math import comb

from mc.ref import canonical, geo

GRIDS4 = ("1234341221434321", "1234341223414123")

CORPUS9 = [
    "000030000005009602008004013020060000703040106000080090210300800306800700000020000",
    "008000000000001200140050000200060070001503400060017093028070840000000002010000000",
    "008000700500040000670000109203010070000900400000050000080090000300500600040806030",
    "009070630000056000700200008000507060201000400000090010030000104490300050000000000",
    "052600700000450001008000000610080002000000010030000400000000020080097003700002106",
    "100007090030020008009600500005300900010080002600004000300000010040000007007000300",
    "003020600900305001001806400008102900700000008006708200002609500800203009005010300",
    "529874631843156927716239548984517263251683479367492815635728194498361752172945386",
]
CORPUS9 = [s for s in CORPUS9 if len(s) == 81]


def corpus(i):
    return tuple(int(c) for c in CORPUS9[i])


def base(w, h, v):
    if (w, h) == (2, 2) and v >= 100:
        return tuple(int(c) for c in GRIDS4[v - 100])
    return canonical(w, h, v)


def ubase(u):
    """The complete grid of a unit; "like": the one of another box shape of the same length (its
    rows and columns are still free of conflicts)."""
    w, h = u.get("like") or (u["w"], u["h"])
    return base(w, h, u.get("v", 0))


def shapes(f, w, h, **kw):
    """The same grids with boxes of w x h and with rows or columns as boxes, in turn."""
    us = [U(f, x, y, like=[w, h], **kw) for x, y in ((w, h), (w * h, 1), (h, w), (1, w * h)) if w != h or x != h or x == w]
    return mixed(*us)


def _all(u):
    n = u["w"] * u["h"]
    size = n * n
    b = n + 1
    for i in range(u["lo"], u["hi"]):
        g = []
        for _ in range(size):
            i, m = divmod(i, b)
            g.append(m)
        yield tuple(g)


def _mask(u):
    g0 = ubase(u)
    for i in range(u["lo"], u["hi"]):
        yield tuple([x if i >> k & 1 else 0 for k, x in enumerate(g0)])


def _slice(it, u):
    return islice(it, u.get("lo", 0), u.get("hi"))


def _givens(u):
    n = u["w"] * u["h"]
    size = n * n

    def gen():
        for pos in combinations(range(size), u["k"]):
            for vals in product(range(1, n + 1), repeat=u["k"]):
                g = [0] * size
                for p, v in zip(pos, vals):
                    g[p] = v
                yield tuple(g)
    return _slice(gen(), u)


def _holes(u):
    g0 = ubase(u)

    def gen():
        for pos in combinations(range(len(g0)), u["k"]):
            g = list(g0)
            for p in pos:
                g[p] = 0
            yield tuple(g)
    return _slice(gen(), u)


def _digits(u):
    """All fields of k digits are empty; with "keep", one of these fields is still filled."""
    w, h = u["w"], u["h"]
    n = w * h
    g0 = ubase(u)

    def gen():
        for ds in combinations(range(1, n + 1), u["k"]):
            g = tuple([0 if x in ds else x for x in g0])
            yield g
            if u.get("keep"):
                for p, x in enumerate(g0):
                    if x in ds:
                        yield g[:p] + (x,) + g[p + 1:]
    return _slice(gen(), u)


def _wrong(u):
    """k holes next to one field changed to every wrong number."""
    w, h = u["w"], u["h"]
    n = w * h
    g0 = ubase(u)

    def gen():
        for p in range(len(g0)):
            for v in range(1, n + 1):
                if v == g0[p]:
                    continue
                g = list(g0)
                g[p] = v
                if not u["k"]:
                    yield tuple(g)
                    continue
                rest = [q for q in range(len(g0)) if q != p]
                for pos in combinations(rest, u["k"]):
                    gg = list(g)
                    for q in pos:
                        gg[q] = 0
                    yield tuple(gg)
    return _slice(gen(), u)


def _alien(u):
    """A number which does not exist in the sudoku, in each field of a grid with k holes, and alone."""
    w, h = u["w"], u["h"]
    n = w * h
    g0 = ubase(u)

    def gen():
        for p in range(len(g0)):
            for v in (n + 1, -1, 2 * n + 1, 100):
                yield (0,) * p + (v,) + (0,) * (len(g0) - p - 1)
                for pos in combinations(range(len(g0)), u["k"]):
                    g = list(g0)
                    for q in pos:
                        g[q] = 0
                    g[p] = v
                    yield tuple(g)
    return _slice(gen(), u)


def _units_empty(u):
    """All subsets of at most k of the rows, columns and boxes are emptied."""
    w, h = u["w"], u["h"]
    g = geo(w, h)
    g0 = ubase(u)

    def gen():
        for k in range(1, u["k"] + 1):
            for us in combinations(range(len(g.units)), k):
                gone = {rc[0] * g.N + rc[1] for i in us for rc in g.units[i]}
                yield tuple([0 if p in gone else x for p, x in enumerate(g0)])
    return _slice(gen(), u)


def _corpus(u):
    """A 9x9 puzzle and everything one field away from it."""
    g0 = corpus(u["i"])

    def gen():
        yield g0
        if u.get("dev", 1) == 0:
            return
        for p in range(81):
            for v in range(10):
                if v != g0[p] and (u["dev"] > 1 or g0[p]) and (u["dev"] > 1 or v == 0 or p % 9 == v - 1):
                    yield g0[:p] + (v,) + g0[p + 1:]
    return _slice(gen(), u)


_RARE = []


def rare():
    """Solvable sudokus on whose way to the solution rare techniques are used (rare.txt)."""
    if not _RARE:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "rare.txt")) as f:
            for line in f:
                w, h, text, _ = line.split()
                _RARE.append((int(w), int(h), tuple(int(x) for x in text.split(","))))
    return _RARE


def _rare(u):
    """Sudokus of rare.txt, mirrored at the diagonal as well."""
    for w, h, g in rare()[u["lo"]:u["hi"]]:
        n = w * h
        yield w, h, g
        yield h, w, tuple([g[(k % n) * n + k // n] for k in range(n * n)])


def rare_units(parts=8):
    return split({"f": "rare"}, len(rare()), parts)


FAMILIES = {"all": _all, "mask": _mask, "givens": _givens, "holes": _holes, "digits": _digits,
            "wrong": _wrong, "alien": _alien, "units": _units_empty, "corpus": _corpus}


def grids(u):
    """Yields (w, h, grid)."""
    if u["f"] == "mixed":
        its = [grids(x) for x in u["of"]]
        alive = list(its)
        while alive:
            for it in list(alive):
                try:
                    yield next(it)
                except StopIteration:
                    alive.remove(it)
        return
    if u["f"] == "rare":
        yield from _rare(u)
        return
    for g in FAMILIES[u["f"]](u):
        yield u["w"], u["h"], g


def size(u):
    if u["f"] in ("all", "mask"):
        return u["hi"] - u["lo"]
    return sum(1 for _ in FAMILIES[u["f"]](u))


def split(u, total, parts):
    """Cut a unit into slices."""
    res = []
    parts = max(1, min(parts, total))
    for i in range(parts):
        lo, hi = total * i // parts, total * (i + 1) // parts
        x = dict(u)
        x["lo"], x["hi"] = lo, hi
        res.append(x)
    return res


def U(f, w, h, **kw):
    d = {"f": f, "w": w, "h": h}
    d.update(kw)
    return d


def n_all(w, h):
    n = w * h
    return (n + 1) ** (n * n)


def n_givens(w, h, k):
    n = w * h
    return comb(n * n, k) * n ** k


def all_units(w, h, parts=8):
    return split(U("all", w, h), n_all(w, h), parts)


def mask_units(w, h, v, parts=16):
    return split(U("mask", w, h, v=v), 1 << 16, parts)


def mixed(*us):
    return {"f": "mixed", "of": list(us)}


def lone_shapes(n_max):
    return [(w, h) for w in range(1, n_max + 1) for h in range(1, n_max + 1) if w * h <= n_max]


def deep_units(tier, cost=1):
    """The family of sudokus shared by the checks that solve them (solution counts
    stay small). cost: how expensive a case is for the check, 2 thins out the quick tier."""
    q = tier == "quick"
    full = not q or cost < 2
    us = []
    # complete spaces
    us += [U("all", 1, 1, lo=0, hi=2), U("all", 1, 2, lo=0, hi=81), U("all", 2, 1, lo=0, hi=81)]
    for w, h in ((1, 3), (3, 1)):
        if q:
            for k in (0, 1, 2, 3):
                us.append(U("givens", w, h, k=k))
            us += split(U("all", w, h), n_all(w, h), 64)[5::8 if full else 32]
        else:
            us += all_units(w, h, 32)
    # 4x4: few givens, all sub-patterns of complete grids, everything near a complete grid
    us += [U("givens", 2, 2, k=0), U("givens", 2, 2, k=1)]
    us += split(U("givens", 2, 2, k=2), n_givens(2, 2, 2), 16)
    if not q:
        us += split(U("givens", 2, 2, k=3), n_givens(2, 2, 3), 64)
        for w, h in ((1, 4), (4, 1)):
            us += split(U("givens", w, h, k=2), n_givens(w, h, 2), 16)
    for w, h, v in ((2, 2, 100), (2, 2, 101), (1, 4, 0), (4, 1, 0)):
        parts = mask_units(w, h, v, 32)
        if q:
            if not full:
                parts = parts[31:] + parts[7:31:8] if v == 100 else parts[11:28:16]
            elif v != 100:
                parts = parts[1::4]
        us += parts
    for k in (0, 1, 2) if q else (0, 1, 2, 3):
        u = U("wrong", 2, 2, v=100, k=k)
        us += split(u, size(u), 1 if k < 2 else 8)
    us.append(U("wrong", 1, 4, k=1))
    us.append(U("wrong", 4, 1, k=1))
    for w, h in ((1, 1), (2, 1), (1, 3), (2, 2), (4, 1)):
        us.append(U("alien", w, h, k=1))
    us.append(U("alien", 2, 2, k=2, v=101))
    us.append(U("alien", 3, 2, k=0))
    us.append(U("alien", 2, 3, k=1, lo=700, hi=1000))
    us.append(U("alien", 3, 3, k=0, lo=20, hi=60 if q else None))
    # 5x5, 6x6, 8x8
    for w, h in ((2, 3), (3, 2)):
        us.append(U("holes", w, h, k=2))
        us.append(U("digits", w, h, k=2, keep=1))
        us.append(U("digits", w, h, k=3, v=1))
        us.append(U("units", w, h, k=1))
        us.append(U("wrong", w, h, k=0))
        if not q:
            us += split(U("holes", w, h, k=3, v=3), comb(36, 3), 8)
            us += split(U("holes", w, h, k=4, v=5), comb(36, 4), 32)
            u = U("wrong", w, h, k=1)
            us += split(u, size(u), 8)
            us.append(U("digits", w, h, k=3, keep=1))
            us.append(U("units", w, h, k=2))
    for w, h in ((1, 5), (5, 1)):
        us.append(U("holes", w, h, k=2))
        us.append(U("digits", w, h, k=2, keep=0 if q else 1))
        us.append(U("wrong", w, h, k=0))
    for w, h in ((2, 4), (4, 2)):
        us.append(U("digits", w, h, k=2, keep=0, v=1))
        us.append(U("holes", w, h, k=1))
        us.append(U("wrong", w, h, k=0, hi=60 if q else None))
        if not q:
            us.append(U("digits", w, h, k=2, keep=1))
            us.append(U("digits", w, h, k=3, v=2))
    us.append(mixed(U("digits", 2, 3, k=2), U("digits", 3, 2, k=2), U("digits", 1, 6, k=2),
                    U("digits", 6, 1, k=2)))
    us.append(mixed(U("mask", 2, 2, v=100, lo=64900, hi=65000), U("mask", 4, 1, lo=64900, hi=65000),
                    U("mask", 1, 4, lo=64900, hi=65000), U("all", 1, 2, lo=0, hi=81),
                    U("all", 2, 1, lo=0, hi=81)))
    # the same numbers in boxes of different shapes
    us.append(shapes("digits", 3, 2, k=2, keep=1, hi=80 if q else None))
    us.append(shapes("holes", 2, 3, k=2, v=1, hi=100 if q else None))
    us.append(shapes("mask", 2, 2, v=0, lo=5000, hi=5000 + (150 if q else 3000)))
    us.append(shapes("mask", 2, 2, v=100, lo=60000, hi=60000 + (150 if q else 3000)))
    us.append(shapes("digits", 4, 2, k=2, hi=15 if q else None))
    us.append(shapes("units", 3, 2, k=1))
    # 9x9 and larger
    us.append(U("digits", 3, 3, k=2, v=0))
    us.append(U("digits", 3, 3, k=2, v=3, keep=1, hi=60 if q else None))
    us.append(U("units", 3, 3, k=1, v=5))
    us.append(U("holes", 3, 3, k=1))
    us.append(U("wrong", 3, 3, k=0, lo=0, hi=80 if q else None))
    if not q:
        us += split(U("holes", 3, 3, k=2), comb(81, 2), 16)
        us += split(U("digits", 3, 3, k=3, v=9), comb(9, 3), 8)
    for i in range(len(CORPUS9)):
        if q and (i > 2 or i == 0 or not full):
            us.append(U("corpus", 3, 3, i=i, dev=0))
        else:
            us += split(U("corpus", 3, 3, i=i, dev=1), 100, 8)
    for w, h in ((2, 5), (5, 2), (3, 4), (4, 3), (2, 6), (6, 2)):
        us.append(U("digits", w, h, k=2, hi=20 if q else None))
        us.append(U("holes", w, h, k=1, lo=3, hi=13 if q else None))
        us.append(U("wrong", w, h, k=0, lo=100, hi=110 if q else 600))
    us.append(mixed(U("digits", 3, 4, k=2, hi=6), U("digits", 4, 3, k=2, hi=6),
                    U("digits", 2, 6, k=2, hi=6), U("digits", 6, 2, k=2, hi=6)))
    us.append(U("digits", 4, 4, k=2, hi=8 if q else None))
    us.append(U("holes", 4, 4, k=1, lo=17, hi=22 if q else None))
    us.append(U("holes", 5, 5, k=1, lo=30, hi=31 if q else 60))
    if not q:
        us.append(U("digits", 5, 5, k=2, hi=40))
    return us
