"""C22: failing shell commands are reported and change nothing."""
from itertools import product

from mc import session
from mc.checks.c20 import play
from mc.session import SHOW, observers

ID = "C22"
RULE = ("fault enumeration: every failing command of a catalogue (unknown, malformed, wrong arguments, fields outside, "
        "empty stack, no solution, misplaced loop commands) at every position of every command sequence up to a depth, "
        "in own lines, within a line and within loop definitions, single and in pairs, interactive and not; output, "
        "error output and exit status per line equal those of a model in which the failing command does not exist")
BOUNDS = {"quick": "about 100 failing commands x all positions of all sequences up to length 2 of 11 commands; length 3 sliced; all pairs; up to 1025 failing commands in a session",
          "thorough": "all sequences up to length 3, length 4 sliced; all pairs in 6 contexts; up to 10050 failing commands in a session"}

G4 = "1234341221434321"
GOOD = ["push", "pop", "set 0 1 2", "set 0 0 0", "set_candidates 0 0 [1,2]", "init_candidates", "solve", SHOW, "stack",
        "new (2,1)", "loop 2"]
# always wrong, whatever the state (for sudokus with at most four rows)
BAD = ["nonsense", "Set 0 0 1", "sets", "set", "set 0", "set 0 0", "set 0 0 1 2", "set 9 0 1", "set 0 9 1", "set 99 99 1",
       "set a b c", "set 0 0 value", "set x=1", "set 0 0 1 row=0", "set 0 0 1 color=3", "set '0' 0 1", "set 0 0 'a",
       "set 0 0 (1,", "set 0 0 1+", "set 0 0 f(1)", "set 0  0 1", "set 0,0,1", "get", "get 0", "get 9 0", "get 0 9", "get 0 0 0",
       "get row=0", "get None 0", "set_candidates 0 0", "set_candidates 0 0 5", "set_candidates 9 9 [1]",
       "set_candidates 0 0 [[1]]", "set_candidates 0 0 None", "set_candidates 0 0 [1", "get_candidates 0 9",
       "get_candidates", "remove_candidates 0 0 5", "remove_candidates 0 9 [1]", "remove_candidates 0 0 [[]]",
       "remove_candidates", "init_candidates 1 2", "init_candidates x=1", "pop 77", "pop -1", "pop 'x'", "pop [1]", "pop 0 0",
       "pop x=1", "push 1", "push x=1", "stack 1", "stack x=2", "solve 1", "solve x=1", "new 3", "new (2,)",
       "new (1,2,3)", "new x=1", "new ('a','b')", "new (1,2) (1,2)", "decode", "decode 1", "decode '12'", "decode 'abcd'",
       "decode '1234' box_size=3", "decode '1234|x'", "decode x=1", "encode 1", "encode 1 2", "encode x=1",
       "encode 1 2 3 4", "print 1", "print x=1", "view x=1", "view True 5", "view 1 2 3 4 5 6", "loop", "loop 0", "loop -2",
       "loop 'a'", "loop 1 2", "loop []", "loop x=1", "exit 1", "exit x=1", "end", "=", "set=1", "'set' 0 0 1", "set 0 0 {[]}", "set 0 0 value={{}}",
       "get {[]:1} 0", "pop {[1]}", "loop {[]}", "stack {[],{}}", "set 0 0 " + "-" * 6000 + "1", "new " + "(" * 300, "\\"]
# not known to the model of loops
BAD_PLAIN = ["pop push", "help nonsense", "help 1", "help end", "help set get x", "generate symmetry='x'", "generate min_count=100",
             "generate 1 2 3 4 5 6", "generate x=1", "generate_from_template tries=0", "generate_from_template 1 2 3",
             "clear 1"]
BAD = [b for b in BAD if b != "\\"]
# wrong in the given situation only
SPECIAL = [(["new (2,1)"], "pop"), (["new (2,1)"], "pop 0"), (["new (2,1)"], "loop end"),
           (["new (2,2)", "set 0 0 1", "set 0 1 1"], "solve"), (["decode '%s'" % G4.replace("12", "13", 1)], "solve"),
           (["new (2,1)", "push"], "pop 1"), (["new (2,1)", "push", "pop"], "pop"), (["new (2,1)", "loop 2"], "loop 3"),
           (["new (2,1)", "loop 2", "push"], "loop 1"), (["new (2,1)", "loop 1", "loop end"], "loop end"),
           (["new (2,1)"], "set 2 0 1"), (["new (2,1)"], "get 0 2"), (["new (2,2)"], "get 4 0"), (["new (1,3)"], "set 0 3 1"),
           (["new (1,1)"], "set_candidates 1 0 [1]"), (["new (3,2)"], "remove_candidates 6 6 [1]")]


def units(tier):
    q = tier == "quick"
    us = []
    for i in range(len(BAD) + len(BAD_PLAIN)):
        us.append({"m": "one", "i": i, "len": 3 if q else 4, "step": (12 if q else 1), "step4": 11})
    us.append({"m": "special", "len": 2 if q else 3})
    for i in range(8):
        us.append({"m": "pairs", "lo": i, "step": 8, "ctx": 2 if q else 6})
    us.append({"m": "line"})
    us += [{"m": "many", "n": n} for n in (10, 50, 101, 257, 1025) + (() if q else (4100, 10050))]
    return us


def cases(unit):
    m = unit["m"]
    allbad = BAD + BAD_PLAIN
    if m == "one":
        bad = allbad[unit["i"]]
        plain = unit["i"] >= len(BAD)
        slow = bad.startswith("generate")
        for length in range(0, unit["len"] + 1):
            for k, seq in enumerate(product(range(len(GOOD)), repeat=length)):
                if length == 3 and k % unit["step"] or length == 4 and k % unit["step4"]:
                    continue
                if slow and k % 5:
                    continue
                cmds = [GOOD[i] for i in seq]
                if plain and "loop 2" in cmds:
                    continue
                for pos in range(length + 1):
                    for inter in (True, False):
                        yield ["lines", ["new (2,2)", "push"] + cmds[:pos] + [bad] + cmds[pos:], inter]
    elif m == "special":
        for pre, bad in SPECIAL:
            for length in range(0, unit["len"] + 1):
                for seq in product([g for g in GOOD], repeat=length):
                    for inter in (True, False):
                        yield ["lines", pre + [bad] + list(seq), inter]
                        yield ["lines", pre + [bad, bad] + list(seq), inter]
    elif m == "pairs":
        ctxs = [[], ["loop 2", "push"], ["set 0 0 1", "push"], ["loop 3"], ["solve"], ["init_candidates"]]
        n = 0
        for a in BAD:
            for b in BAD:
                n += 1
                if n % unit["step"] == unit["lo"]:
                    for ctx in ctxs[:unit["ctx"]]:
                        yield ["lines", ["new (2,2)"] + ctx + [a, "stack", b, "push"], True]
    elif m == "many":
        # many failing commands in one session
        n = unit["n"]
        some = [b for b in BAD if len(b) < 200]
        for k, bad in enumerate((["nonsense"], ["pop 77"], ["set 9 0 1"], ["get"], ["solve 1"], ["decode '12'"], ["loop 0"],
                                 some[:7], some[7:30], some[30:60], some[60:])):
            cmds = (bad * n)[:n]
            yield ["lines", ["new (2,2)", "set 0 0 1", "push"] + cmds + ["set 0 1 2", "push", bad[0], "stack"], True]
            yield ["lines", ["new (2,2)"] + [";".join(cmds)] + ["set 0 1 2", "push", bad[0], "stack"], True]
            if k < 6:
                yield ["lines", ["new (2,2)", "loop %d" % n, "set 0 0 1", bad[0], "push", "pop", "loop end", "set 0 1 2"], True]
                yield ["lines", ["new (2,2)"] + [x for c in cmds for x in (c, "set 0 0 1", "get 0 0")], True]
    else:
        for bad in BAD:
            for layout in range(6):
                for inter in (True, False):
                    if layout == 0:
                        lines = ["new (2,2);push;%s;set 0 0 1;stack" % bad]
                    elif layout == 1:
                        lines = ["%s;new (2,1)" % bad, "push"]
                    elif layout == 2:
                        lines = ["new (2,1); push ; set 0 0 1; %s" % bad, "pop"]
                    elif layout == 3:
                        lines = ["new (2,1)", "loop 2; push; %s; stack; loop end; stack" % bad]
                    elif layout == 4:
                        lines = ["new (2,1)", "loop 2", "push; %s" % bad, "stack", bad, "loop end", "stack"]
                    else:
                        lines = ["new (2,1);;push", "push; ;%s" % bad, "stack"]
                    yield ["lines", lines, inter]


def check(case, st):
    lines, inter = case[1:]
    model = session.Model(inter)
    tail = []
    try:
        for line in lines:
            model.line(line)
        if model.loop:
            model.line("loop end")
            tail = ["loop end"]
        tail += observers(min(6, len(model.stack)))
    except session.Died:
        # later commands must have no effect
        tail = ["stack", SHOW]
    if not model.errors:
        from mc.lib import fail
        raise ValueError("no failing command in %r" % (lines,))
    play(lines + tail, inter, st, "%s session %r" % ("interactive" if inter else "scripted", lines))
