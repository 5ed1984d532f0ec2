"""C12: encoded sudokus decode to the same sudoku."""
import string
import sys
from itertools import combinations, product

from mc import domains
from mc.lib import adversarial, bs, fail, flat, mk, need, raises, show, snap

ID = "C12"
RULE = ("encode -> decode round trips of complete families of sudokus (all numbers and all candidates of the "
        "smallest sizes, all 2^16 subsets of 4x4 grids, structured families of every box size up to 16x16 and "
        "5x5 boxes) with and without separators and candidates; for fixed texts every whitespace character at "
        "every (pair of) position(s), every character as mark for empty fields, and every number of fields")
BOUNDS = {"quick": "1x2, 2x1: all 3^4 x 4^4 states; marks: U+0000-U+FFFF; whitespace: all single positions and pairs; counts up to 700; sudokus with 100 and 101 numbers",
          "thorough": "also all marks up to U+10FFFF, whitespace triples, all 4x4 grid subsets with 6 candidate patterns"}

SEPS = (" ", ";", "\n", "-", ":", "\t", "/", ", ", "ab", "_", ".", " - ")
SHAPES = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1), (1, 5), (5, 1), (2, 3), (3, 2),
          (1, 6), (6, 1), (1, 7), (2, 4), (4, 2), (8, 1), (3, 3), (1, 9), (2, 5), (5, 2), (1, 11), (3, 4),
          (4, 3), (2, 6), (6, 2), (13, 1), (7, 2), (3, 5), (5, 3), (4, 4), (2, 8)]


def units(tier):
    q = tier == "quick"
    us = []
    for w, h in ((1, 2), (2, 1)):
        for i in range(8):
            us.append({"m": "state", "w": w, "h": h, "lo": i, "step": 8})
    us.append({"m": "state", "w": 1, "h": 1, "lo": 0, "step": 1})
    for v in (100, 101):
        for i in range(8):
            us.append({"m": "mask", "v": v, "lo": i << 13, "hi": (i + 1) << 13, "step": 2 if q else 1,
                       "kinds": 1 if q else 6})
    for w, h in SHAPES + [(5, 5)]:
        us.append({"m": "shape", "w": w, "h": h, "n": 4 if q else 24})
    for w, h in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3), (2, 5), (3, 4)):
        for sep in (None, " ", ";", "\n", "-"):
            if sep is None and w * h > 9:
                continue
            us.append({"m": "ws", "w": w, "h": h, "sep": sep, "pairs": w * h < 4 or (not q and w * h < 7)})
    top = 0x10000 if q else 0x110000
    for lo in range(0, top, 0x4000):
        us.append({"m": "mark", "lo": lo, "hi": min(top, lo + 0x4000)})
    us.append({"m": "marksep"})
    for lo in range(8):
        us.append({"m": "count", "lo": lo, "hi": 700 if q else 3000, "step": 8})
    us.append({"m": "square"})
    us.append({"m": "custom"})
    for w, h in ((10, 10), (1, 100), (101, 1)):
        for i in range(1, 5):
            us.append({"m": "big", "w": w, "h": h, "i": i})
    return us


def grid_of(w, h, i):
    """Deterministic fillings: empty, full, diagonal patterns, conflicting, high numbers."""
    N = w * h
    size = N * N
    if i == 0:
        return (0,) * size
    if i == 1:
        return domains.base(w, h, 3)
    if i == 2:
        return tuple(N if k % 2 else 0 for k in range(size))
    if i == 3:
        return tuple(1 + (k * 7 + k // N) % N if k % 3 else 0 for k in range(size))
    return tuple((k * (i + 2) + k // N * i) % (N + 1) for k in range(size))


def cases(unit):
    m = unit["m"]
    if m == "state":
        w, h = unit["w"], unit["h"]
        N = w * h
        subsets = [[v for v in range(1, N + 1) if b >> (v - 1) & 1] for b in range(1 << N)]
        for i, g in enumerate(product(range(N + 1), repeat=N * N)):
            if i % unit["step"] != unit["lo"] % unit["step"]:
                continue
            for cs in product(subsets, repeat=N * N):
                yield ["rt", w, h, g, cs, 0]
    elif m == "mask":
        for i in range(unit["lo"], unit["hi"], unit["step"]):
            g0 = domains.base(2, 2, unit["v"])
            j = i + (i >> 7 & 1 if unit["step"] == 2 else 0)
            for kind in range(unit["kinds"]):
                yield ["rt", 2, 2, tuple(x if j >> k & 1 else 0 for k, x in enumerate(g0)), (kind + j) % 6, 0]
    elif m == "shape":
        for i in range(unit["n"]):
            for kind in range(6):
                yield ["rt", unit["w"], unit["h"], grid_of(unit["w"], unit["h"], i), kind, 1]
    elif m == "big":
        for kind in (0, 2):
            yield ["rt", unit["w"], unit["h"], grid_of(unit["w"], unit["h"], unit["i"]), kind, 0]
    elif m == "ws":
        w, h, sep = unit["w"], unit["h"], unit["sep"]
        for cand in (False, True):
            text = reference(w, h, grid_of(w, h, 3), adversarial(w, h, 5) if cand else None, sep or "")
            gaps = gaps_of(text, sep)
            for c in string.whitespace:
                for p in gaps:
                    yield ["ws", w, h, sep, cand, [p], c]
            yield ["ws", w, h, sep, cand, gaps, " \n"]
            if unit["pairs"]:
                for p, r in combinations(gaps, 2):
                    for c in (" ", "\n", "\r\n"):
                        yield ["ws", w, h, sep, cand, [p, r], c]
    elif m == "mark":
        for c in range(unit["lo"], unit["hi"]):
            yield ["mark", c]
    elif m == "marksep":
        for c in range(33, 127):
            for sep in SEPS:
                yield ["marksep", c, sep]
    elif m == "count":
        for n in range(unit["lo"], unit["hi"], unit["step"]):
            if n:
                yield ["count", n]
    elif m == "square":
        for n in (1, 2, 3, 4, 5, 6):
            for i in range(4):
                yield ["square", n, i]
    else:
        for w, h in ((1, 2), (2, 2), (2, 3), (3, 3), (3, 4)):
            for sep in (None, " ", "-", ";"):
                for ss in "|/#&:":
                    for cs in ",!%=":
                        for kind in range(6):
                            yield ["custom", w, h, sep, ss, cs, kind]


def reference(w, h, grid, cands, sep, ss="|", cs=",", empty="0"):
    """Text of a sudoku."""
    s = sep.join(str(v) if v else empty for v in grid)
    if cands is not None:
        s += ss + cs.join(sep.join(str(v) for v in sorted(c)) for c in cands)
    return s


def gaps_of(text, sep):
    """All positions which are not inside of a number."""
    if sep is None:
        return list(range(len(text) + 1))
    return [i for i in range(len(text) + 1)
            if not (0 < i < len(text) and text[i - 1].isdigit() and text[i].isdigit())]


def same(w, h, s, grid, cands, what, *args):
    N = w * h
    if bs(s) != ((w, h), w, h):
        fail("%s: box size %r instead of %r", what % args, bs(s), (w, h))
    if flat(s, N) != tuple(grid):
        fail("%s: numbers are %r instead of %r", what % args, flat(s, N), grid)
    for k in range(N * N):
        got = s.get_candidates(k // N, k % N)
        want = cands[k] if cands is not None else ()
        if set(got) != set(want):
            fail("%s: candidates of %r are %r instead of %r", what % args, divmod(k, N), set(got), set(want))


def isqrt(n):
    r = int(n ** 0.5)
    while r * r > n:
        r -= 1
    while (r + 1) * (r + 1) <= n:
        r += 1
    return r


def check(case, st):
    from sudokutools.sudoku import Sudoku
    m = case[0]
    if m == "rt":
        w, h, g, c, deep = case[1:]
        g = tuple(g)
        N = w * h
        cands = adversarial(w, h, c) if isinstance(c, int) else [frozenset(x) for x in c]
        s = mk(w, h, g, cands)
        auto = w == h
        sizes = ((None, (w, h)) if auto else ((w, h),))
        if N <= 9:
            for with_c in (False, True):
                for rs in ("", "\n") if not deep else ("", "\n", " ", "\t\n", "  "):
                    text = s.encode(row_sep=rs, include_candidates=with_c)
                    for size in sizes:
                        d = Sudoku.decode(text) if size is None else Sudoku.decode(text, box_size=size)
                        same(w, h, d, g, cands if with_c else None, "%dx%d: decode(%r, box_size=%r)",
                             w, h, text, size)
                        st.step()
        for sep in SEPS if deep else (" ",):
            # whitespace is only ignored, if it is not a part of a longer separator
            plain = len(sep) == 1 or not any(c.isspace() for c in sep)
            for rs in ((sep, "\n", " ", " \n") if deep and plain else (sep,)):
                for with_c in (False, True):
                    if with_c and "," in sep:
                        continue
                    text = s.encode(rs, sep, with_c)
                    for size in sizes:
                        d = (Sudoku.decode(text, number_sep=sep) if size is None else
                             Sudoku.decode(text, number_sep=sep, box_size=size))
                        same(w, h, d, g, cands if with_c else None, "%dx%d: decode(%r, number_sep=%r, box_size=%r)",
                             w, h, text, sep, size)
                        st.step()
        if deep:
            # without candidates the default separator of candidates can be used, too.
            for rs, cs in ((",", ","), (",\n", ",")):
                text = s.encode(row_sep=rs, col_sep=cs)
                d = Sudoku.decode(text, number_sep=",", box_size=(w, h))
                same(w, h, d, g, None, "%dx%d: decode(%r, number_sep=',')", w, h, text)
                st.step()
        need(snap(s, N) == (g, tuple(cands)), "encode changed %dx%d %s", w, h, show(g))
        st.state(w, h, g, tuple(cands))
        st.outcome(w, h, g)
    elif m == "ws":
        w, h, sep, cand, where, c = case[1:]
        g = grid_of(w, h, 3)
        cands = adversarial(w, h, 5) if cand else None
        text = reference(w, h, g, cands, sep or "")
        for p in sorted(where, reverse=True):
            text = text[:p] + c + text[p:]
        for size in ((w, h), None) if w == h else ((w, h),):
            d = Sudoku.decode(text, number_sep=sep, box_size=size)
            same(w, h, d, g, cands, "%dx%d: decode(%r, number_sep=%r, box_size=%r)", w, h, text, sep, size)
            st.step()
        st.state(text, sep)
        st.outcome(w, h, sep, cand)
    elif m == "mark":
        mark = chr(case[1])
        if mark in "123456789,|" or mark.isspace() or 0xd800 <= case[1] < 0xe000:
            return
        g = (0, 1, 0, 2) * 2 + (4, 0, 0, 3, 0, 0, 0, 0)
        cands = adversarial(2, 2, 5)
        text = reference(2, 2, g, cands, "", empty=mark)
        same(2, 2, Sudoku.decode(text, empty=mark), g, cands, "decode(%r, empty=%r)", text, mark)
        if mark != ";":
            text = reference(2, 2, g, None, ";", empty=mark)
            same(2, 2, Sudoku.decode(text, mark, ";"), g, None, "decode(%r, empty=%r, number_sep=';')", text, mark)
        st.step(2)
        st.state(mark)
        st.outcome(mark)
    elif m == "marksep":
        mark, sep = chr(case[1]), case[2]
        if mark in "123456789,|" + sep:
            return
        for w, h in ((2, 2), (2, 3), (3, 4)):
            g = grid_of(w, h, 3)
            for cands in (None, adversarial(w, h, 5)):
                if cands and "," in sep:
                    continue
                text = reference(w, h, g, cands, sep, empty=mark)
                d = Sudoku.decode(text, empty=mark, number_sep=sep, box_size=(w, h))
                same(w, h, d, g, cands, "%dx%d: decode(%r, empty=%r, number_sep=%r)", w, h, text, mark, sep)
                st.step()
                st.state(text, mark, sep)
    elif m == "count":
        n = case[1]
        r = isqrt(n)
        if r * r == n:
            q = isqrt(r)
            if q * q == r and r <= 9:
                d = Sudoku.decode("1" * n)
                same(q, q, d, (1,) * n, None, "decode of %d fields", n)
        else:
            for text, kw in (("1" * n, {}), ("0" * n + "|1", {}), (" ".join("1" * n), {"number_sep": " "}),
                             ("\n" + ";".join("1" * n), {"number_sep": ";"}), ("." * n, {"empty": "."})):
                try:
                    Sudoku.decode(text, **kw)
                except ValueError:
                    st.step()
                    continue
                fail("decode of %d fields does not raise ValueError (%r)", n, kw)
        st.state(n)
        st.outcome(r * r == n)
    elif m == "square":
        n, i = case[1:]
        g = grid_of(n, n, i)
        for sep in (" ", ";", "-"):
            text = reference(n, n, g, adversarial(n, n, i) if n < 5 else None, sep)
            d = Sudoku.decode(text, number_sep=sep)
            same(n, n, d, g, adversarial(n, n, i) if n < 5 else None, "decode of %dx%d boxes", n, n)
            st.step()
            st.state(text)
    else:
        w, h, sep, ss, cs, kind = case[1:]
        if (sep is None and w * h > 9) or (sep and sep in ss + cs):
            return
        g = grid_of(w, h, kind)
        cands = adversarial(w, h, kind)
        text = reference(w, h, g, cands, sep or "", ss, cs)
        d = Sudoku.decode(text, number_sep=sep, sudoku_sep=ss, candidate_sep=cs, box_size=(w, h))
        same(w, h, d, g, cands, "%dx%d: decode(%r, number_sep=%r, sudoku_sep=%r, candidate_sep=%r)",
             w, h, text, sep, ss, cs)
        st.step()
        st.state(text, sep, ss, cs)
