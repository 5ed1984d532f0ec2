"""Reference model: written independently of sudokutools, straight from the rules.

A grid is a flat tuple of N*N numbers (0: empty) for boxes of width w, height h.
"""
from functools import lru_cache
from itertools import combinations


class Geo(object):
    def __init__(self, w, h):
        self.w, self.h = w, h
        self.N = N = w * h
        self.size = N * N
        self.coords = [(r, c) for r in range(N) for c in range(N)]
        self.rows = [[(r, c) for c in range(N)] for r in range(N)]
        self.cols = [[(r, c) for r in range(N)] for c in range(N)]
        self.boxes = [[] for _ in range(N)]
        self.parts = [[] for _ in range(N)]
        self.box_no = {}
        self.part_no = {}
        for r, c in self.coords:
            b = (r // h) * (N // w) + c // w
            p = (r % h) * w + c % w
            self.box_no[r, c] = b
            self.part_no[r, c] = p
            self.boxes[b].append((r, c))
            self.parts[p].append((r, c))
        self.units = self.rows + self.cols + self.boxes
        self.unit_of = {"row": lambda r, c: self.rows[r],
                        "column": lambda r, c: self.cols[c],
                        "box": lambda r, c: self.boxes[self.box_no[r, c]]}
        self.peers = {}
        for r, c in self.coords:
            s = set(self.rows[r]) | set(self.cols[c]) | set(self.boxes[self.box_no[r, c]])
            s.discard((r, c))
            self.peers[r, c] = s
        # the same with flat indices
        self.fpeers = [sorted(i * N + j for i, j in self.peers[rc]) for rc in self.coords]

    def idx(self, rc):
        return rc[0] * self.N + rc[1]


@lru_cache(maxsize=None)
def geo(w, h):
    return Geo(w, h)


def conflicts(w, h, grid):
    """Set of ((r, c), (i, j), value)."""
    g = geo(w, h)
    res = set()
    for k, v in enumerate(grid):
        if v:
            for p in g.fpeers[k]:
                if grid[p] == v:
                    res.add((g.coords[k], g.coords[p], v))
    return res


def has_conflict(w, h, grid):
    g = geo(w, h)
    for k, v in enumerate(grid):
        if v:
            for p in g.fpeers[k]:
                if grid[p] == v:
                    return True
    return False


def candidates(w, h, grid, k):
    """Candidates of field k (flat index) calculated from the numbers."""
    if grid[k]:
        return {grid[k]}
    g = geo(w, h)
    res = set(range(1, g.N + 1))
    for p in g.fpeers[k]:
        res.discard(grid[p])
    return res


def all_candidates(w, h, grid):
    return [candidates(w, h, grid, k) for k in range(len(grid))]


@lru_cache(maxsize=None)
def _bits(w, h):
    g = geo(w, h)
    return [tuple(p) for p in g.fpeers]


def _search(g, peers, grid, cand, limit, out):
    best, bestn = -1, 99
    for k in range(g.size):
        if not grid[k]:
            n = bin(cand[k]).count("1")
            if n < bestn:
                best, bestn = k, n
                if n <= 1:
                    break
    if best < 0:
        out.append(tuple(grid))
        return
    bits = cand[best]
    while bits:
        b = bits & -bits
        bits ^= b
        grid[best] = b.bit_length() - 1
        touched = []
        for p in peers[best]:
            if cand[p] & b and not grid[p]:
                cand[p] ^= b
                touched.append(p)
        _search(g, peers, grid, cand, limit, out)
        for p in touched:
            cand[p] |= b
        grid[best] = 0
        if limit is not None and len(out) >= limit:
            return


@lru_cache(maxsize=None)
def _table(w, h):
    """(all completed grids, table[field][number] -> bit set of grids), small sizes only."""
    N = w * h
    sols = []
    g = geo(w, h)
    _search(g, g.fpeers, [0] * g.size, [(1 << (N + 1)) - 2] * g.size, None, sols)
    table = [[0] * (N + 1) for _ in range(g.size)]
    for i, s in enumerate(sols):
        for k, v in enumerate(s):
            table[k][v] |= 1 << i
    return sols, table


def solutions(w, h, grid, limit=None):
    """All (or the first `limit`) valid completions."""
    N = w * h
    if N <= 4:
        if any(v < 0 or v > N for v in grid):
            return []
        sols, table = _table(w, h)
        m = (1 << len(sols)) - 1
        for k, v in enumerate(grid):
            if v:
                m &= table[k][v]
                if not m:
                    return []
        res = []
        while m:
            b = m & -m
            m ^= b
            res.append(sols[b.bit_length() - 1])
            if limit is not None and len(res) >= limit:
                break
        return res
    if any(v < 0 or v > N for v in grid) or has_conflict(w, h, grid):
        return []
    g = geo(w, h)
    full = (1 << (N + 1)) - 2
    cand = []
    for k in range(g.size):
        b = full
        if not grid[k]:
            for p in g.fpeers[k]:
                if grid[p]:
                    b &= ~(1 << grid[p])
        cand.append(b)
    out = []
    _search(g, g.fpeers, list(grid), cand, limit, out)
    return out


def count_solutions(w, h, grid, limit):
    N = w * h
    if N <= 4:
        if any(v < 0 or v > N for v in grid):
            return 0
        sols, table = _table(w, h)
        m = (1 << len(sols)) - 1
        for k, v in enumerate(grid):
            if v:
                m &= table[k][v]
        return min(limit, bin(m).count("1"))
    return len(solutions(w, h, grid, limit))


def valid_full(w, h, grid):
    """Completely filled without conflicts?"""
    g = geo(w, h)
    want = set(range(1, g.N + 1))
    for unit in g.units:
        if {grid[r * g.N + c] for r, c in unit} != want:
            return False
    return True


def canonical(w, h, variant=0):
    """A completed grid. Variants permute numbers, rows in bands and transpose-like shifts."""
    N = w * h
    grid = []
    for r in range(N):
        rr = r
        if variant & 1:
            # reverse the rows within each band
            rr = (r // h) * h + (h - 1 - r % h)
        if variant & 2:
            # rotate the bands
            rr = (rr + h) % N
        for c in range(N):
            cc = c
            if variant & 4:
                cc = (c // w) * w + (w - 1 - c % w)
            v = (w * (rr % h) + rr // h + cc) % N
            if variant & 8:
                v = (v * 1 + 2) % N if N > 2 else v
                if N > 3:
                    v = {0: 1, 1: 0}.get(v, v)
            grid.append(v + 1)
    return tuple(grid)


# ------------------------------------------------------------------ techniques
def naked_tuples(g, cands, empty, n):
    """Set of (fields, affected, values) by definition, per unit."""
    res = set()
    seen = set()
    for unit in g.units:
        if not any(rc in empty for rc in unit):
            continue
        fields = [rc for rc in unit if 1 < len(cands[rc]) <= n]
        for combo in combinations(fields, n):
            vals = frozenset().union(*[cands[rc] for rc in combo])
            if len(vals) > n:
                continue
            aff = frozenset(rc for rc in unit if rc not in combo and cands[rc] & vals)
            if aff:
                res.add((frozenset(combo), aff, vals))
    return res


def hidden_tuples(g, cands, empty, n):
    res = set()
    for unit in g.units:
        if not any(rc in empty for rc in unit):
            continue
        places = {}
        for v in range(1, g.N + 1):
            p = frozenset(rc for rc in unit if v in cands[rc])
            if 1 < len(p) <= n:
                places[v] = p
        for combo in combinations(sorted(places), n):
            fields = frozenset().union(*[places[v] for v in combo])
            if len(fields) > n:
                continue
            aff = frozenset(rc for rc in fields if cands[rc] - set(combo))
            if aff:
                res.add((frozenset(unit), aff, frozenset(combo)))
    return res


def pointing_tuples(g, cands, n):
    res = set()
    for v in range(1, g.N + 1):
        for box in g.boxes:
            f = [rc for rc in box if v in cands[rc]]
            if len(f) == n:
                for lines, i in ((g.rows, 0), (g.cols, 1)):
                    if len({rc[i] for rc in f}) == 1:
                        line = lines[f[0][i]]
                        aff = frozenset(rc for rc in line if rc not in f and v in cands[rc])
                        if aff:
                            res.add((frozenset(f), aff, frozenset((v,))))
        for line in g.rows + g.cols:
            f = [rc for rc in line if v in cands[rc]]
            if len(f) == n:
                if len({g.box_no[rc] for rc in f}) == 1:
                    box = g.boxes[g.box_no[f[0]]]
                    aff = frozenset(rc for rc in box if rc not in f and v in cands[rc])
                    if aff:
                        res.add((frozenset(f), aff, frozenset((v,))))
    return res


def fishes(g, cands, n):
    """n rows (columns) in which v has 2..n places, covered by at most n columns
    (rows), each of which is used at least twice, and v somewhere else in these."""
    res = set()
    for v in range(1, g.N + 1):
        for lines, other in ((g.rows, 1), (g.cols, 0)):
            pl = []
            for line in lines:
                p = [rc for rc in line if v in cands[rc]]
                if 2 <= len(p) <= n:
                    pl.append(p)
            for combo in combinations(pl, n):
                base = [rc for p in combo for rc in p]
                cnt = {}
                for rc in base:
                    cnt[rc[other]] = cnt.get(rc[other], 0) + 1
                if len(cnt) > n or min(cnt.values()) < 2:
                    continue
                base = frozenset(base)
                aff = frozenset(rc for rc in g.coords if rc[other] in cnt
                                and rc not in base and v in cands[rc])
                if aff:
                    res.add((base, aff, frozenset((v,))))
    return res


def naked_singles(cands, empty):
    return {(rc, next(iter(cands[rc]))) for rc in empty if len(cands[rc]) == 1}


def hidden_singles(g, cands, empty):
    res = set()
    for rc in empty:
        for unit in (g.rows[rc[0]], g.cols[rc[1]], g.boxes[g.box_no[rc]]):
            other = set()
            for o in unit:
                if o != rc:
                    other |= cands[o]
            for v in range(1, g.N + 1):
                if v not in other:
                    res.add((rc, v))
    return res
