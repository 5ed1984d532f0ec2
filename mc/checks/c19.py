"""C19: shell commands act on sudoku and stack as documented."""
from itertools import product

from mc.lib import fail
from mc import choices, session
from mc.session import Died, Model, SHOW, observers

ID = "C19"
RULE = ("explicit-state exploration of all command sequences up to a depth: every sequence is run through the real "
        "shell and through a model that calls the library functions the commands stand for on its own copies; "
        "complete output, error output and exit status are compared, followed by observers of the sudoku and the "
        "complete stack; exit is placed at every position of lines and sessions")
BOUNDS = {"quick": "36 commands: all sequences of length 2 and sliced ones of length 3; 14 commands: length 4; 18 commands with random results: length 3 (4 sliced); 7 stack commands: length 6; stacks of up to 1025 sudokus",
          "thorough": "36 commands: length 3; 14 commands: length 5; 18 commands with random results: length 4 sliced by 2; 7 stack commands: length 7"}

G4 = "1234341221434321"
P4 = "1000001000200001"
FULL = ["new", "new (2,2)", "new box_size=(1,2)", "new (2,1)", "decode '%s'" % P4, "decode '%s' '.'" % P4.replace("0", "."),
        "decode s='%s|1,2,34' empty='0'" % G4, "decode '1.2.0.1' number_sep='.' box_size=(2,1)",
        "set 0 0 1", "set 1 1 2", "set 0 1 value=2", "set row=1 col=0 value=0", "get 0 0", "get row=1 col=1",
        "set_candidates 0 0 [1,2]", "set_candidates 0 1 {2}", "set_candidates 1 1 value=(1,2,1)", "get_candidates 0 0",
        "get_candidates 0 col=1", "remove_candidates 0 0 [1]", "remove_candidates 1 1 value={2,9}", "init_candidates",
        "init_candidates filled_only=True", "encode", "encode include_candidates=True", "encode '/' col_sep='.'",
        "print", "view", "view include_candidates=False", "view True '.' align_right=False", "solve", "push", "pop",
        "pop 0", "pop position=1", "stack"]
CORE = ["new (2,2)", "decode '%s'" % P4, "set 0 1 2", "set 0 1 0", "set_candidates 0 0 [3,4]",
        "remove_candidates 0 0 [3]", "init_candidates", "solve", "push", "pop", "pop 0", "pop 1", "get 0 1", "view"]
RANDOM = ["new (2,2)", "decode '%s'" % P4, "generate box_size=(2,2)", "generate 9 'rotate-180' (2,2)", "generate min_count=3 box_size=(2,1)",
          "generate_from_template", "generate_from_template 3", "generate_from_template tries=40", "clear", "loop 3", "loop end",
          "push", "pop", "set 0 0 0", "set 1 1 2", "solve", "encode", "init_candidates"]
STACK = ["push", "pop", "pop 0", "pop 1", "set 0 0 2", "set_candidates 1 1 [1]", "new (2,1)"]
DEEP = [5, 9, 10, 11, 16, 17, 33, 51, 65, 101, 129, 257, 300, 1025]


def units(tier):
    q = tier == "quick"
    us = [{"m": "seq", "set": "FULL", "pre": [], "depth": 2, "lo": 0, "step": 1}]
    for i in range(len(FULL)):
        us.append({"m": "seq", "set": "FULL", "pre": [i], "depth": 3, "lo": i % 2, "step": 2 if q else 1})
    for i in range(len(CORE)):
        us.append({"m": "seq", "set": "CORE", "pre": [i], "depth": 4 if q else 5, "lo": 0, "step": 1})
    for i in range(len(STACK)):
        us.append({"m": "seq", "set": "STACK", "pre": [i], "depth": 6 if q else 7, "lo": 0, "step": 1})
    for i in range(len(RANDOM)):
        us.append({"m": "seq", "set": "RANDOM", "pre": [i], "depth": 3, "lo": 0, "step": 1})
        us.append({"m": "seq", "set": "RANDOM", "pre": [i], "depth": 4, "lo": 1, "step": 13 if q else 2})
    us.append({"m": "exit"})
    us.append({"m": "big"})
    for n in DEEP:
        us.append({"m": "deep", "n": n})
    return us


def cases(unit):
    if unit["m"] == "seq":
        n = len(globals()[unit["set"]])
        count = 0
        for length in range(len(unit["pre"]), unit["depth"] + 1):
            for rest in product(range(n), repeat=length - len(unit["pre"])):
                count += 1
                if (count + count // n) % unit["step"] == unit["lo"] % unit["step"]:
                    yield ["seq", unit["set"], list(unit["pre"]) + list(rest)]
    elif unit["m"] == "deep":
        # a stack of n different sudokus, from which one is taken
        n = unit["n"]
        for pos in sorted({0, 1, 2, n // 2, n - 3, n - 2, n - 1} & set(range(n))):
            for then in ("pop %d" % pos, "pop position=%d" % pos, "pop", "set 0 0 3"):
                yield ["deep", n, pos, then]
    elif unit["m"] == "exit":
        cmds = ["set 0 0 1", "push", SHOW, "stack", "pop", "new (2,1)"]
        for seq in product(range(len(cmds)), repeat=2):
            for pos in range(3):
                for end in ("exit", "exit ", " exit"):
                    for layout in range(4):
                        yield ["exit", [cmds[i] for i in seq], pos, end, layout]
        yield ["exit", [], 0, "exit", 0]
    else:
        g9 = "003020600900305001001806400008102900700000008006708200002609500800203009005010300"
        for seq in product(["decode '%s'" % g9, "solve", "push", "pop", "init_candidates", "set 0 0 4", "print",
                            "encode include_candidates=True", "new (3,2)", "new (1,5)", "new (3,4)", "view"], repeat=3):
            yield ["cmds", list(seq)]


def compare(cmds, st):
    """Run commands, one per line, and compare with the model."""
    with choices.Chooser(len(cmds)):
        model, want, lines, watch = expected(cmds, st)
    if model is None:
        return False
    # the same random numbers again
    with choices.Chooser(len(cmds)):
        res = session.run(lines + watch)
    res.out = session.without_clearing(res.out)
    what = "commands %r" % (lines,)
    if res.error:
        fail("%s: %s", what, res.error)
    if res.exit not in (None, 0):
        fail("%s: exit status %r, %s", what, res.exit, res.err)
    if res.err:
        fail("%s: error output %r", what, res.err)
    if res.out != want:
        fail("%s: output %r instead of %r", what, res.out, want)
    st.step(len(lines))
    st.outcome(want)
    return True


def expected(cmds, st):
    model = Model()
    lines = list(cmds)
    try:
        for c in lines:
            model.line(c)
            if model.ended:
                break
    except Died:
        st.note("sequences with a failing command (see C22)")
        return None, None, None, None
    watch = observers(len(model.stack))
    if not model.ended:
        for c in watch:
            model.line(c)
    return model, model.take(), lines, watch


def check(case, st):
    m = case[0]
    if m == "seq":
        table = globals()[case[1]]
        cmds = [table[i] for i in case[2]]
        if case[1] != "FULL" or case[2] and case[2][0] > 7:
            # small sudokus are faster
            cmds = ["new (2,2)"] + cmds
        compare(cmds, st)
        st.state(case[1], tuple(case[2]))
    elif m == "deep":
        n, pos, then = case[1:]
        cmds = ["new (2,2)"]
        for i in range(n):
            cmds += ["set %d %d %d" % (i // 4 % 4, i % 4, 1 + i // 16 % 4), "set_candidates 0 0 [%d]" % i, "push"]
        compare(cmds + [then, "stack", SHOW, "pop %d" % (pos - 1 if pos else 0), SHOW, "push", "stack", "pop"], st)
        st.state(n, pos, then)
    elif m == "cmds":
        compare(case[1], st)
        st.state(tuple(case[1]))
    else:
        cmds, pos, end, layout = case[1:]
        lines = list(cmds)
        lines.insert(pos, end)
        lines = ["new (2,2)"] + lines
        if layout == 1:
            lines = ["; ".join(lines)]
        elif layout == 2:
            lines = [lines[0], ";".join(lines[1:])]
        elif layout == 3:
            lines = [" ; ".join(lines[:-1]), lines[-1]]
        model = Model()
        want = None
        try:
            for line in lines:
                if model.ended:
                    break
                model.line(line)
        except Died:
            return
        want = model.take()
        res = session.run(lines + ["stack", SHOW])
        if res.error or res.exit not in (None, 0) or res.err:
            fail("%r: %r, exit status %r, error output %r", lines, res.error, res.exit, res.err)
        if res.out != want:
            fail("%r: output %r instead of %r", lines, res.out, want)
        st.step(len(lines))
        st.state(tuple(lines))
        st.outcome(want)
