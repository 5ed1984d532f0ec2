"""C17: coordinate notation means what it says and malformed text is rejected."""
from itertools import permutations, product

from mc import refnot
from mc.lib import fail

ID = "C17"
RULE = ("all texts up to a length over an alphabet of qualifiers, digits, separators, white space and foreign "
        "characters, all well-formed one- and two-group texts over small number lists, and every single-character "
        "edit (and pairs of edits) of a set of base texts, decoded and compared with an independent reader of "
        "the notation; anything but a tuple or ValueError is a violation")
BOUNDS = {"quick": "texts up to length 6 (11 characters, 2x2), 5 (2x5, other separators); edits of 40 texts with 30 characters",
          "thorough": "texts up to length 7 (2x2), 6 (others); all pairs of edits of 40 texts"}

# (name, w, h, sep, nsep, alphabet)
CONFIGS = {
    "2x2": (2, 2, ",", "", "rcbp124, x"),
    "2x2z": (2, 2, ",", "", "rcb05,;\n3"),
    "2x5": (2, 5, ",", "", "rcbp19, 0x"),
    "4x3": (4, 3, ";", ",", "rbp12,; x"),
    "1x2": (1, 2, ",", "", "rcbp123,R "),
    "3x3n": (3, 3, ",", ".", "rcp19.,0 x"),
    "3x3w": (3, 3, " ", "", "rcb19, \t"),
    "4x4w": (4, 4, ",", " ", "rcb16 ,\n"),
    "2x3s": (2, 3, "+", "-", "rcbp16+-0,"),
    "2x2m": (2, 2, ", ", "", "rcb12, \n"),
    "2x5s": (2, 5, ", ", ", ", "rb12, x"),
    "3x2q": (3, 2, "|", "|", "rcb126|,"),
}

BASES = ["r1c1", "r12c34", "b1p2", "r1c1,r2c2", "b12p34,r1", "r1b1", "p1", "c4,c3", "r1c2b1p2", "r1,c2,b3,p4",
         "r123c1,b4", "p12r3", "c1r1", "r1c1,r1c1"]
BASES2 = ["r1,2c3", "r10c10", "b1,2,3p10", "r1c10,r2c2", "r1,2,3,c4", "p9,10", "r1c1,b1p1,r10"]
EDITS = "rcbp0123459,;. x\n\t-+_=|RB\xb2\u0661\x00"


def units(tier):
    q = tier == "quick"
    us = []
    for name in CONFIGS:
        n = len(CONFIGS[name][4])
        length = (6 if name == "2x2" else 5) + (0 if q else 1)
        us.append({"m": "text", "k": name, "pre": "", "len": 2})
        for i in range(n):
            for j in range(n):
                us.append({"m": "text", "k": name, "pre": CONFIGS[name][4][i] + CONFIGS[name][4][j], "len": length})
    # few units for the workers
    for name in CONFIGS:
        for i in range(4):
            us.append({"m": "valid", "k": name, "lo": i, "step": 4})
    for i in range(len(BASES)):
        us.append({"m": "edit", "k": "2x2", "i": i, "pairs": not q})
        us.append({"m": "edit", "k": "1x2", "i": i, "pairs": False})
        us.append({"m": "edit", "k": "3x3n", "i": i, "pairs": False})
    for i in range(len(BASES2)):
        us.append({"m": "edit", "k": "2x5", "i": i, "pairs": not q})
        us.append({"m": "edit", "k": "2x5s", "i": i, "pairs": False})
    us.append({"m": "numbers"})
    us.append({"m": "space"})
    return merge(us)


def merge(us):
    """Collect the small text units of a configuration."""
    res, by = [], {}
    for u in us:
        if u["m"] == "text" and u["pre"]:
            key = u["k"], u["pre"][0]
            if key not in by:
                by[key] = {"m": "text", "k": u["k"], "pres": [], "len": u["len"]}
                res.append(by[key])
            by[key]["pres"].append(u["pre"])
        elif u["m"] == "text":
            res.append({"m": "text", "k": u["k"], "pres": [""], "len": u["len"]})
        else:
            res.append(u)
    return res


def cases(unit):
    m = unit["m"]
    if m == "text":
        abc = CONFIGS[unit["k"]][4]
        for pre in unit["pres"]:
            if not pre:
                yield ["block", unit["k"], "", 0]
                yield ["block", unit["k"], "", 1]
                continue
            for length in range(0, unit["len"] - 2 + 1):
                # the last two characters are enumerated within the case
                free = min(2, length)
                for mid in product(abc, repeat=length - free):
                    yield ["block", unit["k"], pre + "".join(mid), free]
    elif m == "valid":
        for i in range(unit["lo"], 64, unit["step"]):
            yield ["valid", unit["k"], i]
    elif m == "edit":
        base = (BASES2 if unit["k"].startswith("2x5") else BASES)[unit["i"]]
        for p in range(len(base) + 1):
            yield ["edit", unit["k"], base, p, unit["pairs"]]
    elif m == "numbers":
        for w, h in ((1, 1), (1, 2), (2, 2), (3, 3), (1, 9), (2, 5), (5, 2), (3, 4), (4, 3), (4, 4), (7, 1), (1, 7), (7, 2),
                     (2, 7), (8, 1), (8, 2), (2, 8), (1, 12), (12, 1), (10, 2), (11, 2), (2, 11), (13, 1), (16, 1), (6, 4), (10, 10),
                     (101, 1), (1, 100)):
            yield ["numbers", w, h]
    else:
        for k in CONFIGS:
            yield ["space", k]


def compare(text, w, h, sep, nsep, st, default=False):
    from sudokutools.notation import decode
    try:
        want = refnot.read(text, w, h, sep, nsep)
    except refnot.Bad:
        want = None
    except refnot.Unclear:
        want = Ellipsis
    try:
        got = decode(text, w, h) if default else decode(text, w, h, sep, nsep)
    except ValueError:
        got = None
    except Exception as e:
        fail("decode(%r, %d, %d, sep=%r, nsep=%r) raises %s: %s", text, w, h, sep, nsep, type(e).__name__, e)
    st.transitions += 1
    if want is not Ellipsis and got != want:
        fail("decode(%r, %d, %d, sep=%r, nsep=%r) is %s instead of %s", text, w, h, sep, nsep,
             "a ValueError" if got is None else repr(got), "a ValueError" if want is None else repr(want))
    if want is not None:
        st.state(text, w, h, sep, nsep)
        st.outcome(got)


def lists(N, several):
    """Small lists of numbers."""
    res = [[1], [N], [1, N]]
    if N > 1:
        res += [[2, 1]]
    if N > 2:
        res += [[1, 2, 3], [N, 2], [2, 2]]
    return res if several else res[:3]


def check(case, st):
    m = case[0]
    if m in ("numbers",):
        w, h = case[1:]
        N = w * h
        for q in "rcbp":
            for n in range(-1, 3 * N + 12) if N < 30 else (0, 1, 2, 9, 10, 11, 50, 98, 99, 100, 101, 102, 110, 200, 1000):
                compare("%s%d" % (q, n), w, h, ",", "", st, True)
                compare("%s%d" % (q, n), w, h, ",", ",", st)
                compare("r1%s%d" % (q, n), w, h, ",", "", st, True)
                compare("%s%dr1c1" % (q, n), w, h, ",", ";", st)
                compare("%s1,%d" % (q, n), w, h, ",", ",", st)
                compare("%s1,b%d" % (q, n), w, h, ",", "", st, True)
        return
    w, h, sep, nsep, abc = CONFIGS[case[1]]
    N = w * h
    default = sep == "," and not nsep
    real_nsep = nsep or ("," if N > 9 else "")
    if m == "block":
        pre, free = case[2:]
        for rest in product(abc, repeat=free):
            compare(pre + "".join(rest), w, h, sep, nsep, st, default)
        # every text counts, also the rejected ones
        st.state(case[1], pre, free)
    elif m == "valid":
        i = case[2]
        quals = [p for n in range(1, 5) for p in permutations("rcbp", n)]
        first = quals[i % len(quals)]
        for nums in product(lists(N, len(first) < 3), repeat=len(first)):
            one = refnot.write(zip(first, nums), real_nsep)
            compare(one, w, h, sep, nsep, st, default)
            for second in quals:
                if len(second) > 2:
                    continue
                two = refnot.write(zip(second, ([N], [1, N])), real_nsep)
                compare(one + sep + two, w, h, sep, nsep, st, default)
                if len(first) < 2:
                    compare(two + sep + one + sep + two, w, h, sep, nsep, st, default)
            if len(first) < 3:
                compare(one + sep, w, h, sep, nsep, st, default)
                compare(sep + one, w, h, sep, nsep, st, default)
                compare(one + one, w, h, sep, nsep, st, default)
                compare(one + sep + sep + one, w, h, sep, nsep, st, default)
    elif m == "edit":
        base, p, pairs = case[2:]
        for t in edits(base, p):
            compare(t, w, h, sep, nsep, st, default)
            if pairs:
                for r in range(len(t) + 1):
                    for tt in edits(t, r):
                        compare(tt, w, h, sep, nsep, st, default)
    else:
        # white space at every position
        for base in (BASES2 if N > 9 else BASES):
            for p in range(len(base) + 1):
                for c in " \t\n\r\x0b\x0c":
                    for k in (1, 2):
                        compare(base[:p] + c * k + base[p:], w, h, sep, nsep, st, default)
            for c in " \t\n":
                compare(c.join(base), w, h, sep, nsep, st, default)
                compare(c + c.join(base) + c, w, h, sep, nsep, st, default)


def edits(base, p):
    if p < len(base):
        yield base[:p] + base[p + 1:]
    for c in EDITS:
        yield base[:p] + c + base[p:]
        if p < len(base):
            yield base[:p] + c + base[p + 1:]
