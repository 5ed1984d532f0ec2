"""C14: rows, columns, boxes and parts partition every sudoku consistently."""
from mc.lib import fail, need
from mc.ref import geo

ID = "C14"
RULE = ("every box size up to a bound, every field, every include flag: sudoku methods and coordinate functions "
        "against the definition of rows, columns, boxes and parts; complete pairs of calls where the list returned "
        "by the first one is changed in between; all invalid numbers around the valid range")
BOUNDS = {"quick": "all w*h <= 20 plus 5x5, 3x7, 7x3, 6x4, 4x6, 1x25, 30x1; numbers from -2N to 3N; call pairs for w*h <= 6",
          "thorough": "all w*h <= 36; call pairs for w*h <= 9; call triples for w*h <= 4"}


def shapes(top):
    return [(w, h) for w in range(1, top + 1) for h in range(1, top + 1) if w * h <= top]


def units(tier):
    q = tier == "quick"
    us = []
    for w, h in (shapes(20) + [(5, 5), (3, 7), (7, 3), (6, 4), (4, 6), (1, 25), (30, 1)] if q else shapes(36)):
        us.append({"m": "fields", "w": w, "h": h})
        us.append({"m": "numbers", "w": w, "h": h})
    for w, h in shapes(6 if q else 9):
        us.append({"m": "pairs", "w": w, "h": h})
    us.append({"m": "order", "n": 8 if q else 12})
    if not q:
        for w, h in shapes(4):
            us.append({"m": "triples", "w": w, "h": h})
    return us


def calls(w, h):
    N = w * h
    res = []
    for i in range(N):
        for f in ("the_row", "the_column", "the_box", "the_part"):
            res.append([f, [i]])
    for r in range(N):
        for c in range(N):
            for f in ("row_of", "column_of", "box_of", "surrounding_of"):
                for inc in (True, False):
                    res.append([f, [r, c, inc]])
                    res.append(["." + f, [r, c, inc]])
    return res


def cases(unit):
    w, h = unit.get("w"), unit.get("h")
    if unit["m"] == "fields":
        for r in range(w * h):
            for c in range(w * h):
                yield ["field", w, h, r, c]
    elif unit["m"] == "numbers":
        yield ["number", w, h]
    elif unit["m"] == "pairs":
        cs = calls(w, h)
        for i in range(len(cs)):
            yield ["pairs", w, h, i]
    elif unit["m"] == "triples":
        cs = calls(w, h)
        for i in range(len(cs)):
            for j in range(0, len(cs), 3):
                yield ["triples", w, h, i, j]
    else:
        # changing sizes between calls
        ss = shapes(unit["n"])
        for a in ss:
            for b in ss:
                yield ["order", a, b]


def definition(g, f, args):
    f = f.lstrip(".")
    if f == "the_row":
        return set(g.rows[args[0]])
    if f == "the_column":
        return set(g.cols[args[0]])
    if f == "the_box":
        return set(g.boxes[args[0]])
    if f == "the_part":
        return set(g.parts[args[0]])
    r, c, inc = args
    if f == "surrounding_of":
        s = set(g.peers[r, c]) | {(r, c)}
    else:
        s = set(g.unit_of[f.split("_")[0]](r, c))
    if not inc:
        s.discard((r, c))
    return s


def call(w, h, f, args, sudoku=None):
    from sudokutools import coordinates
    from sudokutools.sudoku import Sudoku
    if f[0] == ".":
        s = sudoku if sudoku is not None else Sudoku((w, h))
        return getattr(s, f[1:])(args[0], args[1], include=args[2])
    func = getattr(coordinates, f)
    if len(args) == 1:
        return func(args[0], w, h)
    return func(args[0], args[1], w, h, args[2])


def compare(w, h, f, args, got, when=""):
    want = definition(geo(w, h), f, args)
    lst = list(got)
    if len(lst) != len(want) or set(lst) != want:
        fail("%s%r of %dx%d boxes%s is %r instead of %r", f, tuple(args), w, h, when, lst, sorted(want))


def check(case, st):
    from sudokutools import coordinates
    from sudokutools.sudoku import Sudoku
    m = case[0]
    if m == "field":
        w, h, r, c = case[1:]
        g = geo(w, h)
        s = Sudoku((w, h))
        for inc in (True, False):
            for f in ("row_of", "column_of", "box_of", "surrounding_of"):
                a = getattr(s, f)(r, c, include=inc)
                b = getattr(coordinates, f)(r, c, width=w, height=h, include=inc)
                compare(w, h, "." + f, [r, c, inc], a)
                compare(w, h, f, [r, c, inc], b)
                need(sorted(a) == sorted(b), "%s(%d, %d) of %dx%d: method and function differ", f, r, c, w, h)
                if inc:
                    compare(w, h, "." + f, [r, c, True], getattr(s, f)(r, c))
                    compare(w, h, f, [r, c, True], getattr(coordinates, f)(r, c, w, h))
                    if (w, h) == (3, 3):
                        compare(w, h, f, [r, c, True], getattr(coordinates, f)(r, c))
                st.step(2)
        for got in (s.box_at(r, c), coordinates.box_at(r, c, w, h), coordinates.box_at(r, c, width=w, height=h)):
            need(got == g.box_no[r, c], "box_at(%d, %d) of %dx%d is %r instead of %d", r, c, w, h, got, g.box_no[r, c])
        # the default box size is 3x3
        if w == 3:
            need(coordinates.box_at(r, c, height=h) == g.box_no[r, c], "box_at(%d, %d, height=%d) is wrong", r, c, h)
        if h == 3:
            need(coordinates.box_at(r, c, width=w) == g.box_no[r, c], "box_at(%d, %d, width=%d) is wrong", r, c, w)
        for f in ("row_of", "column_of", "box_of", "surrounding_of"):
            if w == 3:
                compare(w, h, f, [r, c, False], getattr(coordinates, f)(r, c, height=h, include=False))
            if h == 3:
                compare(w, h, f, [r, c, False], getattr(coordinates, f)(r, c, width=w, include=False))
        # every field lies in its box and its part
        need((r, c) in coordinates.the_box(s.box_at(r, c), w, h), "(%d, %d) of %dx%d isn't in its box", r, c, w, h)
        inside = [p for p in range(w * h) if (r, c) in coordinates.the_part(p, w, h)]
        need(inside == [g.part_no[r, c]], "(%d, %d) of %dx%d lies in the parts %r", r, c, w, h, inside)
        st.step(2)
        st.state(w, h, r, c)
        st.outcome(w, h, g.box_no[r, c])
    elif m == "number":
        w, h = case[1:]
        N = w * h
        for f in ("the_row", "the_column", "the_box", "the_part"):
            func = getattr(coordinates, f)
            seen = []
            for i in range(-2 * N - 2, 3 * N + 3):
                if 0 <= i < N:
                    got = func(i, w, h)
                    compare(w, h, f, [i], got)
                    compare(w, h, f, [i], func(i, width=w, height=h))
                    if (w, h) == (3, 3):
                        compare(w, h, f, [i], func(i))
                    if w == 3:
                        compare(w, h, f, [i], func(i, height=h))
                    if h == 3:
                        compare(w, h, f, [i], func(i, width=w))
                    seen.extend(got)
                else:
                    try:
                        got = func(i, w, h)
                    except ValueError:
                        continue
                    fail("%s(%d) of %dx%d boxes is %r instead of ValueError", f, i, w, h, got)
                st.step()
            need(len(seen) == N * N and len(set(seen)) == N * N, "%s of %dx%d is no partition", f, w, h)
            st.state(w, h, f)
    elif m == "pairs":
        w, h, i = case[1:]
        cs = calls(w, h)
        f, args = cs[i]
        s = Sudoku((w, h))
        for f2, args2 in cs:
            got = call(w, h, f, args, s)
            spoil(got)
            compare(w, h, f2, args2, call(w, h, f2, args2, s), " after changing the result of %s%r" % (f, tuple(args)))
            compare(w, h, f, args, call(w, h, f, args, s), " after changing its result")
            st.step(2)
        st.state(w, h, i)
    elif m == "triples":
        w, h, i, j = case[1:]
        cs = calls(w, h)
        s = Sudoku((w, h))
        for f3, args3 in cs[::5]:
            for f, args in (cs[i], cs[j]):
                spoil(call(w, h, f, args, s))
            compare(w, h, f3, args3, call(w, h, f3, args3, s), " after changing the results of %r and %r" % (cs[i], cs[j]))
            st.step()
        st.state(w, h, i, j)
    else:
        a, b = case[1:]
        sa, sb = Sudoku(a), Sudoku(b)
        for (w, h), s in ((a, sa), (b, sb), (a, sa)):
            N = w * h
            for f in ("the_row", "the_column", "the_box", "the_part"):
                i = N - 1
                got = call(w, h, f, [i])
                compare(w, h, f, [i], got, " (sizes %r, %r)" % (a, b))
                spoil(got)
            for f in ("row_of", "column_of", "box_of", "surrounding_of"):
                for p in (f, "." + f):
                    args = [N - 1, N // 2, False]
                    got = call(w, h, p, args, s)
                    compare(w, h, p, args, got, " (sizes %r, %r)" % (a, b))
                    spoil(got)
            st.step()
        st.state(tuple(a), tuple(b))


def spoil(got):
    if isinstance(got, list):
        got.append((99, 99))
        got.reverse()
        if len(got) > 1:
            del got[1]
    elif isinstance(got, set):
        got.add((99, 99))
