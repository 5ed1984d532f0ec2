"""C16: coordinate notation round-trips."""
from itertools import combinations, product

from mc import refnot
from mc.lib import fail, need
from mc.ref import geo

ID = "C16"
RULE = ("encode -> decode of sets of fields in row/column, box/part and automatic notation: every non-empty subset "
        "of all fields for sudokus up to 4x4, all small subsets, all products of row and column sets, box and part "
        "sets, and complements for larger ones; all pairs of separators; containers of every kind and order; every "
        "field around the sudoku and every box size around 1 for the rejected inputs")
BOUNDS = {"quick": "all 65535 subsets for 2x2, 1x4, 4x1; subsets of up to 2 (3 for 6x6) fields for N <= 16; chosen ones for N = 100 to 105; 36 pairs of separators",
          "thorough": "subsets of up to 3 fields for N <= 10 (4 for 6x6), all products of row and column sets up to N = 9"}

MODES = (False, True, None)
SEPS = (",", ";", " ", ", ", "/", "-", "|", "+")
NSEPS = ("", ",", ";", " ", ".", "-", "/", ", ", "|")


def units(tier):
    q = tier == "quick"
    us = []
    for w, h in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1)):
        us.append({"m": "all", "w": w, "h": h, "lo": 1, "hi": 1 << (w * h) ** 2})
    for w, h in ((2, 2), (1, 4), (4, 1)):
        for i in range(16):
            us.append({"m": "all", "w": w, "h": h, "lo": max(1, i << 12), "hi": (i + 1) << 12})
    for w, h in ((2, 3), (3, 2)):
        for lo in range(8):
            us.append({"m": "small", "w": w, "h": h, "k": 3 if q else 4, "lo": lo, "step": 8})
    for w, h in ((1, 5), (5, 1), (1, 6), (6, 1), (2, 4), (4, 2), (1, 8), (3, 3), (1, 9), (9, 1), (2, 5), (5, 2), (1, 10),
                 (10, 1), (1, 11), (3, 4), (4, 3), (2, 6), (6, 2), (13, 1), (3, 5), (4, 4), (2, 8)):
        if q and w * h > 12:
            us.append({"m": "small", "w": w, "h": h, "k": 2, "lo": 3, "step": 11})
        elif q or w * h > 10:
            us.append({"m": "small", "w": w, "h": h, "k": 2, "lo": 0, "step": 1})
        else:
            for lo in range(8):
                us.append({"m": "small", "w": w, "h": h, "k": 3, "lo": lo, "step": 8})
    for w, h in ((1, 5), (2, 3), (3, 2), (6, 1), (2, 4), (4, 2), (3, 3), (9, 1), (2, 5), (5, 2), (3, 4), (4, 3), (11, 1), (4, 4), (5, 5)):
        N = w * h
        step = 1 if N <= 6 or (not q and N <= 9) else 61 if N <= 9 else 29 if q else 3
        us.append({"m": "product", "w": w, "h": h, "step": step})
        us.append({"m": "unions", "w": w, "h": h, "step": 1 if N <= 9 else 7})
    for w, h in ((1, 2), (2, 2), (2, 3), (3, 3), (2, 5), (4, 3), (12, 1)):
        us.append({"m": "seps", "w": w, "h": h})
    for w, h in ((1, 1), (1, 3), (2, 2), (3, 2), (2, 3), (3, 3), (2, 5), (4, 4)):
        us.append({"m": "bad", "w": w, "h": h})
    us.append({"m": "sizes"})
    # numbers of three digits
    for w, h in ((10, 10), (1, 100), (101, 1), (5, 21)):
        for i in range(2):
            us.append({"m": "big", "w": w, "h": h, "lo": i})
    return us


def structured(N):
    res = set()
    for a in range(N):
        for b in range(a + 1, N + 1):
            for step in (1, 2, 3, N - 1):
                res.add(sum(1 << i for i in range(a, b, step)))
    return sorted(res)


def cases(unit):
    m = unit["m"]
    if m == "sizes":
        for bad in (0, -1, -3, 0.5, 1.5, 2.5, -0.5, 3.25, 0.0, -2.0):
            for good in (1, 2, 3, 4):
                yield ["size", bad, good]
        return
    w, h = unit["w"], unit["h"]
    N = w * h
    size = N * N
    if m == "all":
        for i in range(unit["lo"], unit["hi"]):
            yield ["bits", w, h, i]
    elif m == "small":
        n = 0
        for k in range(1, unit["k"] + 1):
            for pos in combinations(range(size), k):
                n += 1
                if n % unit["step"] == unit["lo"]:
                    yield ["set", w, h, list(pos)]
        if unit["lo"] == unit["step"] - 1 or unit["step"] in (1, 11):
            # everything but one or two fields
            for k in (0, 1):
                for pos in combinations(range(size), k):
                    yield ["set", w, h, [i for i in range(size) if i not in pos]]
    elif m == "big":
        marks = [x for x in (0, 1, 8, 9, 10, 49, 97, 98, 99, 100, 103, 104) if x < N]
        spots = [r * N + c for r in marks for c in marks]
        for a in spots[unit["lo"]::2]:
            yield ["set", w, h, [a]]
        n = 0
        for a, b in combinations(spots, 2):
            n += 1
            if n % 26 == unit["lo"] * 13:
                yield ["set", w, h, [a, b]]
        for r in marks[unit["lo"]::2]:
            yield ["set", w, h, [r * N + c for c in range(N)]]
            yield ["set", w, h, [c * N + r for c in range(N)]]
            yield ["set", w, h, [r * N + c for c in marks] + [c * N + N - 1 for c in marks]]
            yield ["set", w, h, [r // h * h * N + r // w * w + i * N + j for i in range(h) for j in range(w)]
                   if r // w * w + w <= N else [r]]
    elif m == "product":
        n = 0
        # sets of rows and columns: all of them or intervals and sets with a fixed distance
        masks = list(range(1, 1 << N)) if N <= 9 else structured(N)
        for rs in masks:
            for cs in masks:
                n += 1
                if n % unit["step"]:
                    continue
                for kind in ("rc", "bp"):
                    yield ["prod", w, h, kind, rs, cs]
    elif m == "unions":
        g = geo(w, h)
        groups = g.rows + g.cols + g.boxes + g.parts
        n = 0
        for a, b in combinations(range(len(groups)), 2):
            n += 1
            if n % unit["step"] == 0:
                yield ["set", w, h, sorted({r * N + c for r, c in groups[a] + groups[b]})]
                yield ["set", w, h, sorted({r * N + c for r, c in set(groups[a]) ^ set(groups[b])} or {0})]
    elif m == "seps":
        for sep in SEPS:
            for nsep in NSEPS:
                for i in range(14):
                    yield ["sep", w, h, sep, nsep, i]
    else:
        inside = [(0, 0), (N - 1, N - 1)]
        for r in range(-2, N + 3):
            for c in range(-2, N + 3):
                if 0 <= r < N and 0 <= c < N:
                    continue
                yield ["outside", w, h, r, c]
        for r, c in ((N * N, 0), (0, -N), (-N, -N), (1 << 40, 0)):
            yield ["outside", w, h, r, c]


def trip(w, h, coords, st, given=None, sep=None, nsep=None):
    from sudokutools.notation import encode, decode
    kw = {}
    if sep is not None:
        kw["sep"] = sep
    if nsep is not None:
        kw["nsep"] = nsep
    want = tuple(sorted(set(coords)))
    texts = {}
    for mode in MODES:
        text = encode(coords if given is None else given(coords), w, h, mode, **kw)
        texts[mode] = text
        got = decode(text, w, h, **kw)
        if tuple(got) != want or not isinstance(got, tuple):
            fail("decode(encode(%r, %d, %d, use_boxes=%r, %r)) = decode(%r) = %r", want, w, h, mode, kw, text, got)
        try:
            means = refnot.read(text, w, h, sep or ",", nsep or "")
        except (refnot.Bad, refnot.Unclear) as e:
            fail("encode(%r, %d, %d, use_boxes=%r, %r) is %r: %r", want, w, h, mode, kw, text, e)
        if means != want:
            fail("encode(%r, %d, %d, use_boxes=%r, %r) is %r, which means %r", want, w, h, mode, kw, text, means)
        if mode is False and set(text) & set("bp") or mode is True and set(text) & set("rc"):
            fail("encode(%r, %d, %d, use_boxes=%r) is %r", want, w, h, mode, text)
        st.step(2)
    # 3x3 is the default
    short = {}
    if w != 3:
        short["width"] = w
    if h != 3:
        short["height"] = h
    if len(short) < 2:
        text = encode(coords if given is None else given(coords), **dict(short, **kw))
        need(text == texts[None], "encode(%r, %r, %r) is %r instead of %r", want, short, kw, text, texts[None])
        got = decode(text, **dict(short, **kw))
        need(got == want, "decode(%r, %r, %r) is %r", text, short, kw, got)
        st.step(2)
    if len(texts[None]) > min(len(texts[True]), len(texts[False])):
        fail("encode(%r, %d, %d) is %r instead of %r or %r", want, w, h, texts[None], texts[False], texts[True])
    st.state(w, h, want, sep, nsep)
    st.outcome(texts[None])


def check(case, st):
    from sudokutools.notation import encode, decode
    m = case[0]
    if m == "size":
        bad, good = case[1:]
        for w, h in ((bad, good), (good, bad), (bad, bad)):
            for f, arg in ((encode, [(0, 0)]), (decode, "r1c1")):
                for args in ((arg, w, h),):
                    try:
                        got = f(*args)
                    except ValueError:
                        st.step()
                        continue
                    fail("%s with box size %rx%r is %r instead of ValueError", f.__name__, w, h, got)
        st.state(bad, good)
        return
    w, h = case[1:3]
    N = w * h
    if m == "bits":
        trip(w, h, [divmod(k, N) for k in range(N * N) if case[3] >> k & 1], st)
    elif m == "set":
        trip(w, h, [divmod(k, N) for k in case[3]], st)
    elif m == "prod":
        kind, rs, cs = case[3:]
        g = geo(w, h)
        if kind == "rc":
            coords = [(r, c) for r in range(N) if rs >> r & 1 for c in range(N) if cs >> c & 1]
        else:
            coords = [rc for rc in g.coords if rs >> g.box_no[rc] & 1 and cs >> g.part_no[rc] & 1]
        trip(w, h, coords, st)
    elif m == "sep":
        sep, nsep, i = case[3:]
        # sep must not look like the continuation of a number list
        g = geo(w, h)
        size = N * N
        sets = [g.coords[:1], g.coords, g.rows[0], g.cols[-1], g.boxes[0], g.parts[-1], g.coords[::2], g.coords[::3],
                g.coords[1::5] or g.coords[:1], g.coords[::N + 1], g.boxes[0] + g.boxes[-1], g.rows[0] + g.cols[0],
                g.coords[:size // 2 + 1], [g.coords[0], g.coords[-1]]]
        coords = sets[i]
        n = i % 5
        given = (None, lambda c: set(c), lambda c: iter(list(c)), lambda c: list(c)[::-1], lambda c: tuple(c) + tuple(c))[n]
        trip(w, h, list(coords), st, given, sep, nsep)
        trip(w, h, list(coords), st, given)
    else:
        r, c = case[3:]
        for coords in ([(r, c)], [(0, 0), (r, c)], [(r, c), (N - 1, N - 1)], {(r, c), (0, 0)}):
            for mode in MODES:
                try:
                    text = encode(coords, w, h, mode)
                except ValueError:
                    st.step()
                    continue
                fail("encode(%r, %d, %d, use_boxes=%r) is %r instead of ValueError", coords, w, h, mode, text)
        st.state(w, h, r, c)
