"""C18: actions written as text do what they say."""
import re
from itertools import product

from mc import refnot
from mc.lib import adversarial, cflat, fail, flat, mk, need, show
from mc.domains import base
from mc.ref import geo

ID = "C18"
RULE = ("encode_action -> decode_action -> execution of every action on every set of fields of the small sudokus "
        "and structured sets of larger ones, all texts up to a length over the action alphabet and all one-character "
        "edits of valid texts against an independent reader, execution compared with the complete expected state")
BOUNDS = {"quick": "all field sets of 1x2, 2x1, 1x3; 2x2 sets of up to 3 fields; texts up to length 7 (9 characters)",
          "thorough": "all 65535 field sets of 2x2 (sliced actions); texts up to length 8; pairs of edits"}

ABC = "rc12=<>- "
EDITS = "rcbp0129=<>- x+,\n\t;"
TEXTS = ["r1c1=1", "r1c12=2", "b1=3", "b1p2,r2=4", "r1c1<>12", "r12c3<>4", "b2<>1", "-12 r1c1", "-3 b1p12", "-4 r1,c1",
         "p1=1", "c4<>4321", "-1 p4", " r1c1=1 ", "\tr1c1<>1\n", " -1 r1 "]


def units(tier):
    q = tier == "quick"
    us = []
    for w, h in ((1, 1), (1, 2), (2, 1), (1, 3)):
        us.append({"m": "sets", "w": w, "h": h, "lo": 1, "hi": 1 << (w * h) ** 2, "step": 1})
    for lo in range(8):
        us.append({"m": "sets", "w": 2, "h": 2, "lo": 1 + lo, "hi": 1 << 16, "step": (8 * 41) if q else 8})
    for w, h in ((2, 2), (4, 1), (2, 3), (3, 2), (2, 4), (3, 3), (1, 9), (9, 1)):
        us.append({"m": "struct", "w": w, "h": h})
    for w, h in ((2, 5), (3, 4), (4, 4)):
        us.append({"m": "struct", "w": w, "h": h})
    length = 7 if q else 8
    for a in ABC:
        for b in ABC:
            us.append({"m": "text", "pre": a + b, "len": length})
    us.append({"m": "text", "pre": "", "len": 2})
    for i in range(len(TEXTS)):
        us.append({"m": "edit", "i": i, "pairs": not q})
    return us


def values(N, i):
    """Structured candidates and numbers."""
    subs = [[1], [N], sorted({1, N}), list(range(1, N + 1)), list(range(N, 0, -1)), [(N + 1) // 2]]
    return [v for v in subs[i % len(subs)] if v <= 9] or [1]


def cases(unit):
    m = unit["m"]
    if m == "sets":
        w, h = unit["w"], unit["h"]
        N = w * h
        for i in range(unit["lo"], unit["hi"], unit["step"]):
            fields = [k for k in range(N * N) if i >> k & 1]
            if N <= 2:
                for n in range(1, N + 1):
                    yield ["act", w, h, fields, "set", n, i % 6]
                for b in range(1, 1 << N):
                    yield ["act", w, h, fields, "rem", [v for v in range(1, N + 1) if b >> (v - 1) & 1], i % 6]
            else:
                yield ["act", w, h, fields, "set", 1 + i % N, i % 6]
                yield ["act", w, h, fields, "rem", values(N, i), i // 6 % 6]
    elif m == "struct":
        w, h = unit["w"], unit["h"]
        N = w * h
        g = geo(w, h)
        sets = [[k] for k in range(N * N)]
        sets += [[g.idx(rc) for rc in u] for u in g.units + g.parts]
        sets += [list(range(N * N)), [0, N * N - 1], list(range(0, N * N, 3)), list(range(0, N * N, N + 1))]
        for i, fields in enumerate(sets):
            for kind in range(6):
                yield ["act", w, h, fields, "set", min(9, 1 + (i + kind) % N), kind]
                yield ["act", w, h, fields, "rem", values(N, i + kind), kind]
        for n in range(1, min(N, 9) + 1):
            yield ["act", w, h, [0], "set", n, 0]
        for b in range(1, 1 << min(N, 9)):
            yield ["act", w, h, [b % (N * N)], "rem", [v for v in range(1, 10) if b >> (v - 1) & 1], 1]
    elif m == "text":
        for length in range(len(unit["pre"]) and 0, unit["len"] - len(unit["pre"]) + 1):
            free = min(3, length)
            for mid in product(ABC, repeat=length - free):
                yield ["text", unit["pre"] + "".join(mid), free]
    else:
        base_text = TEXTS[unit["i"]]
        for p in range(len(base_text) + 1):
            yield ["edit", base_text, p, unit["pairs"]]


def meaning(text, w, h):
    """("set", coordinates, number) or ("rem", coordinates, candidates), Bad or Unclear."""
    text = text.strip()
    if text.startswith("-"):
        left, sep, right = text.partition(" ")
        number = left[1:]
        kind = "rem"
    elif "<>" in text:
        right, sep, number = text.partition("<>")
        kind = "rem"
    elif "=" in text:
        right, sep, number = text.partition("=")
        kind = "set"
    else:
        raise refnot.Bad("no action")
    plain = all(c in "0123456789" for c in number)
    if not plain:
        try:
            # white space, signs: not specified; anything else is wrong.
            for c in number.split() if kind == "set" else number:
                int(c)
        except ValueError:
            if any(c.isspace() for c in number) and all(c.isspace() or c in "0123456789" for c in number):
                raise refnot.Unclear()
            raise refnot.Bad("no number")
        raise refnot.Unclear()
    unclear = False
    try:
        coords = refnot.read(right, w, h)
    except refnot.Unclear:
        unclear = True
    if unclear or (not number and kind == "rem"):
        raise refnot.Unclear()
    if not number:
        raise refnot.Bad("no number")
    if kind == "set":
        return kind, coords, int(number)
    return kind, coords, sorted({int(c) for c in number})


def describe(action):
    from sudokutools.actions import RemoveCandidates, SetNumber
    if isinstance(action, SetNumber):
        return "set", tuple(sorted(action.coordinates)), action.number
    if isinstance(action, RemoveCandidates):
        return "rem", tuple(sorted(action.coordinates)), sorted(set(action.candidates))
    fail("decode_action returns %r", action)


def compare(text, w, h, st):
    from sudokutools.notation import decode_action
    try:
        want = meaning(text, w, h)
    except refnot.Bad:
        want = None
    except refnot.Unclear:
        want = Ellipsis
    try:
        got = describe(decode_action(text, w, h))
    except ValueError:
        got = None
    except Exception as e:
        fail("decode_action(%r, %d, %d) raises %s: %s", text, w, h, type(e).__name__, e)
    st.transitions += 1
    if want is not Ellipsis and got != want:
        fail("decode_action(%r, %d, %d) is %s instead of %s", text, w, h,
             "a ValueError" if got is None else got, "a ValueError" if want is None else want)
    if want is not None:
        st.state(text, w, h)
        st.outcome(str(got))


def check(case, st):
    from sudokutools.actions import RemoveCandidates, SetNumber
    from sudokutools.notation import decode_action, encode_action
    m = case[0]
    if m == "text":
        for rest in product(ABC, repeat=case[2]):
            compare(case[1] + "".join(rest), 2, 2, st)
        st.state(case[1], case[2])
        return
    if m == "edit":
        text, p, pairs = case[1:]
        for t in edits(text, p):
            compare(t, 2, 2, st)
            compare(t, 3, 4, st)
            if pairs:
                for r in range(len(t) + 1):
                    for tt in edits(t, r):
                        compare(tt, 2, 2, st)
        return
    w, h, fields, kind, value, pattern = case[1:]
    N = w * h
    coords = tuple(divmod(k, N) for k in fields)
    g = tuple(v if (k + pattern) % 3 else 0 for k, v in enumerate(base(w, h, 2)))
    cands = adversarial(w, h, pattern)
    given = (coords, list(coords), set(coords), frozenset(coords))[pattern % 4]
    if kind == "set":
        action = SetNumber(given, value)
        want = ("set", coords, value)
    else:
        action = RemoveCandidates(given, (list, set, tuple, frozenset)[pattern % 4](value))
        want = ("rem", coords, sorted(value))

    grid = list(g)
    wanted = [set(c) for c in cands]
    for k in fields:
        if kind == "set":
            grid[k] = value
            wanted[k] = {value}
        else:
            wanted[k] -= set(value)

    def execute(a, what):
        s = mk(w, h, g, cands)
        for turn in (1, 2):
            need(a(s) is None or True, "")
            if flat(s, N) != tuple(grid):
                fail("%s on %s: numbers are %s instead of %s", what, show(g), show(flat(s, N)), show(grid))
            if [set(c) for c in cflat(s, N)] != wanted:
                fail("%s on %s: candidates are %r instead of %r", what, show(g), cflat(s, N), wanted)
        st.step(2)
    execute(action, "%dx%d: action %r" % (w, h, want))
    text = encode_action(action, w, h)
    need(isinstance(text, str), "encode_action(%r) is %r", want, text)
    texts = [text, " " + text + "\n"]
    if kind == "rem":
        digits = "".join(str(v) for v in value)
        texts += ["-" + digits + " " + text.split("<>")[0], "\t-" + digits + "  " + text.split("<>")[0] + " "]
    for t in texts:
        back = decode_action(t, w, h)
        if describe(back) != want:
            fail("%dx%d: decode_action(%r) is %r instead of %r", w, h, t, describe(back), want)
        st.step()
    try:
        means = meaning(text, w, h)
    except (refnot.Bad, refnot.Unclear):
        means = None
    need(means == want, "%dx%d: %r is written as %r", w, h, want, text)
    execute(back, "%dx%d: decode_action(%r)" % (w, h, t))
    # 3x3 is the default
    short = {}
    if w != 3:
        short["width"] = w
    if h != 3:
        short["height"] = h
    if len(short) < 2:
        told = encode_action(action, **short)
        need(told == text, "encode_action(%r, %r) is %r instead of %r", want, short, told, text)
        need(describe(decode_action(text, **short)) == want, "decode_action(%r, %r)", text, short)
        st.step(2)
    for a in (action, back):
        told = str(a)
        name = "SetNumber" if kind == "set" else "RemoveCandidates"
        content = sorted([x for rc in coords for x in rc] + (list(value) if kind == "rem" else [value]))
        need(isinstance(told, str) and name in told and sorted(map(int, re.findall(r"\d+", told))) == content,
             "%dx%d: action %r is printed as %r", w, h, want, told)
    st.state(w, h, str(want), pattern)
    st.outcome(w, h, str(want))


def edits(base_text, p):
    if p < len(base_text):
        yield base_text[:p] + base_text[p + 1:]
    for c in EDITS:
        yield base_text[:p] + c + base_text[p:]
        if p < len(base_text):
            yield base_text[:p] + c + base_text[p + 1:]
