"""C15: the printed sudoku shows every field at its place."""
from itertools import product

from mc import domains
from mc.lib import adversarial, fail, mk, need, show, snap

ID = "C15"
RULE = ("every box size up to a bound with structured numbers and candidates under the full product of formatting "
        "options, and all states (all numbers x all candidates) of 1x2 and 2x1: the printed text is parsed by an "
        "independent reader (lines, rules, bars, crossings, cells and alignment)")
BOUNDS = {"quick": "box sizes with w*h <= 16, 5x5 and sudokus with 99 to 101 numbers; 10 fillings x 7 candidate patterns x 160 options (thinned above 9x9)",
          "thorough": "box sizes with w*h <= 25 and 99 to 101 numbers; 16 fillings x 7 candidate patterns x 320 options; all 4x4 subsets of a grid"}

SEPS = (None, "", ",", "; ", ".")
PREFIXES = ("*", "", "**", "c:")


def options(full):
    res = [{}]
    for inc, sep, pre, al in product((None, True, False), SEPS, PREFIXES, (True, False)):
        o = {}
        if inc is not None:
            o["include_candidates"] = inc
        if sep is not None:
            o["number_sep"] = sep
        if pre != "*" or full:
            o["candidate_prefix"] = pre
        if not al or full:
            o["align_right"] = al
        if o not in res:
            res.append(o)
    return res


def units(tier):
    q = tier == "quick"
    us = []
    for w in range(1, 26):
        for h in range(1, 26):
            if w * h <= (16 if q else 25) or (w, h) == (5, 5):
                us.append({"m": "shape", "w": w, "h": h, "n": (8 if w * h < 10 else 4) if q else 16, "full": not q})
    # numbers of three digits
    for w, h in ((10, 10), (1, 99), (100, 1), (1, 101), (20, 5)):
        for i in range(1, 4 if q else 8):
            us.append({"m": "huge", "w": w, "h": h, "i": i})
    for w, h in ((1, 2), (2, 1)):
        for i in range(8):
            us.append({"m": "all", "w": w, "h": h, "lo": i, "step": 8})
    us.append({"m": "all", "w": 1, "h": 1, "lo": 0, "step": 1})
    for i in range(16):
        us.append({"m": "mask", "v": 100, "lo": i << 12, "hi": (i + 1) << 12, "step": 8 if q else 1})
    return us


def fill(w, h, i):
    N = w * h
    size = N * N
    if i == 0:
        return (0,) * size
    if i == 1:
        return domains.base(w, h, 1)
    if i == 2:
        return tuple(N if k % 2 else 0 for k in range(size))
    if i == 3:
        return tuple(0 if k % 5 else N for k in range(size))
    return tuple(((k * i + k // N) % (2 * N)) if (k * i + k // N) % (2 * N) <= N else 0 for k in range(size))


def stored(w, h, i):
    if i < 6:
        return adversarial(w, h, i)
    # one single long list
    N = w * h
    res = [frozenset()] * (N * N)
    res[N * N // 2] = frozenset(range(1, N + 1))
    return res


def cases(unit):
    if unit["m"] == "shape":
        for i in range(unit["n"]):
            for k in range(7):
                yield ["opts", unit["w"], unit["h"], fill(unit["w"], unit["h"], i), k, unit["full"]]
    elif unit["m"] == "huge":
        w, h = unit["w"], unit["h"]
        for k in (0, 1, 6):
            yield ["huge", w, h, fill(w, h, unit["i"]), k]
    elif unit["m"] == "all":
        w, h = unit["w"], unit["h"]
        N = w * h
        subsets = [[v for v in range(1, N + 1) if b >> (v - 1) & 1] for b in range(1 << N)]
        for i, g in enumerate(product(range(N + 1), repeat=N * N)):
            if i % unit["step"] == unit["lo"]:
                for cs in product(subsets, repeat=N * N):
                    yield ["one", w, h, g, cs]
    else:
        g0 = domains.base(2, 2, unit["v"])
        for i in range(unit["lo"], unit["hi"], unit["step"]):
            j = i + (i >> 9) % unit["step"]
            yield ["one", 2, 2, tuple(x if j >> k & 1 else 0 for k, x in enumerate(g0)), j % 7]


def read(w, h, g, cands, text, opts, what):
    """Check the text of a sudoku."""
    N = w * h
    inc = opts.get("include_candidates", True)
    sep = opts.get("number_sep")
    if sep is None:
        sep = "," if N > 9 else ""
    prefix = opts.get("candidate_prefix", "*")
    right = opts.get("align_right", True)
    lines = text.split("\n")
    if lines and not lines[-1] and N > 1:
        lines.pop()

    nrules = N // h - 1
    if len(lines) != N + nrules:
        fail("%s: %d lines instead of %d", what, len(lines), N + nrules)
    length = len(lines[0])
    if any(len(x) != length for x in lines):
        fail("%s: lines are not equally long", what)
    nbars = N // w - 1
    # cells are separated by a space, boxes by ' | '
    width, rest = divmod(length - (N - 1) - 2 * nbars, N)
    if rest or width < 1:
        fail("%s: lines of length %d", what, length)
    starts = [c * (width + 1) + 2 * (c // w) for c in range(N)]
    bars = [starts[c] - 2 for c in range(w, N, w)]
    r = 0
    for i, line in enumerate(lines):
        if i % (h + 1) == h:
            for k, ch in enumerate(line):
                if ch != ("+" if k in bars else "-"):
                    fail("%s: rule %r has %r at %d", what, line, ch, k)
            continue
        for c in range(N):
            cell = line[starts[c]:starts[c] + width]
            v = g[r * N + c]
            if v:
                want = str(v)
            elif not inc:
                want = ""
            else:
                want = prefix + sep.join(str(x) for x in sorted(cands[r * N + c]))
            want = want.rjust(width) if right else want.ljust(width)
            if cell != want:
                fail("%s: field (%d, %d) shows %r instead of %r", what, r, c, cell, want)
            if c:
                gap = line[starts[c - 1] + width:starts[c]]
                if gap != (" | " if c % w == 0 else " "):
                    fail("%s: %r before field (%d, %d)", what, gap, r, c)
        r += 1


def check(case, st):
    from sudokutools.sudoku import view
    m, w, h, g, c = case[:5]
    g = tuple(g)
    N = w * h
    cands = stored(w, h, c) if isinstance(c, int) else [frozenset(x) for x in c]
    s = mk(w, h, g, cands)
    if m == "opts":
        opts = options(case[5])
        if N > 9 and not case[5]:
            opts = opts[:2] + opts[2 + (N + c) % 4::4]
        if N > 16:
            opts = opts[::5]
    elif m == "huge":
        opts = [{}, {"include_candidates": False}, {"align_right": False, "include_candidates": False},
                {"number_sep": ";", "candidate_prefix": "", "align_right": False}]
    else:
        opts = [{}, {"align_right": False, "candidate_prefix": ""}, {"include_candidates": False},
                {"number_sep": ";"}]
    for o in opts:
        text = view(s, **o)
        read(w, h, g, cands, text, o, "view(%dx%d %s, %r)" % (w, h, show(g), o))
        st.step()
    text = str(s)
    read(w, h, g, cands, text, {"include_candidates": False}, "str(%dx%d %s)" % (w, h, show(g)))
    need(snap(s, N) == (g, tuple(cands)), "view changed %dx%d %s", w, h, show(g))
    st.step()
    st.state(w, h, g, tuple(cands))
    st.outcome(w, h, len(text.split("\n")[0]))
