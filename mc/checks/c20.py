"""C20: shell loops equal their unrolled commands."""
from itertools import product

from mc.lib import fail
from mc import session
from mc.session import Died, Model, SHOW, observers, segments

ID = "C20"
RULE = ("explicit-state exploration of all sequences of commands and loop commands (begin with several counts, end, "
        "misplaced and malformed loop commands, exit) up to a depth on the real shell, interactive and not, compared "
        "per input line with a model in which a loop is the n-fold execution of its body; and all loop bodies up to "
        "a length and counts up to a bound compared directly with the unrolled session on the real shell")
BOUNDS = {"quick": "sequences up to length 5 of 9 commands, 4 of 16; bodies up to length 3 of 13 commands, counts 1 to 3 (4, 7, 10 for short ones), every command 32 counts up to 1025 times, bodies up to 257 commands, up to 70 loops",
          "thorough": "sequences up to length 6 of 9 commands, 5 of 16 (sliced); bodies up to length 4 (sliced), counts 1 to 4"}

SMALL = ["loop 2", "loop 3", "loop end", "push", "pop", "stack", "loop 0", "set 0 0 1", "exit"]
WIDE = ["loop 1", "loop 2", "loop end", "push", "pop 0", SHOW, "solve", "loop -1", "loop 'x'", "loop", "loop 2 3",
        "nonsense", "set 9 9 1", "set 0 0 2", "exit", "set x"]
BODY = ["push", "pop", "pop 0", "stack", "get 0 1", "set 0 1 2", "set 0 1 0", "solve", "init_candidates",
        "remove_candidates 0 0 [1]", "set_candidates 0 0 [1,2]", "encode", "new (2,1)"]

# numbers of repetitions at which limits and short cuts can be expected
MANY = [5, 8, 9, 11, 15, 16, 17, 25, 31, 32, 33, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300,
        511, 512, 513, 1000, 1001, 1025]


def units(tier):
    q = tier == "quick"
    us = []
    for i in range(len(SMALL)):
        us.append({"m": "seq", "set": "SMALL", "pre": [i], "depth": 5 if q else 6, "step": 1})
    for i in range(len(WIDE)):
        us.append({"m": "seq", "set": "WIDE", "pre": [i], "depth": 4 if q else 5, "step": 2 if q else 3})
    for i in range(len(BODY)):
        us.append({"m": "body", "pre": i, "len": 3 if q else 4})
    us.append({"m": "two"})
    us.append({"m": "layout"})
    for i in range(len(BODY)):
        us.append({"m": "many", "a": i, "counts": MANY if q else MANY + [4097]})
    return us


def cases(unit):
    if unit["m"] == "seq":
        n = len(globals()[unit["set"]])
        count = 0
        for length in range(1, unit["depth"] + 1):
            for rest in product(range(n), repeat=length - 1):
                count += 1
                if length == unit["depth"] and (count + count // n) % unit["step"]:
                    continue
                for inter in (True, False):
                    yield ["seq", unit["set"], list(unit["pre"]) + list(rest), inter]
    elif unit["m"] == "body":
        for length in range(1, unit["len"] + 1):
            for k, rest in enumerate(product(range(len(BODY)), repeat=length - 1)):
                if length == 4 and k % 4:
                    continue
                body = [unit["pre"]] + list(rest)
                counts = [1, 2, 3] if length < 3 else [1 + (k + unit["pre"]) % 3]
                if length == 1:
                    counts = [1, 2, 3, 4, 7, 10]
                for n in counts:
                    yield ["body", body, n, k % 4]
    elif unit["m"] == "two":
        for a, b in product(range(len(BODY)), repeat=2):
            for n, m in ((1, 2), (2, 1), (3, 2)):
                for bad in (None, "loop 0", "nonsense", "loop end"):
                    yield ["two", a, b, n, m, bad]
    elif unit["m"] == "many":
        for n in unit["counts"]:
            if BODY[unit["a"]] in ("pop", "pop 0"):
                # as many as there are
                yield ["body", [0, 3] + [unit["a"]], n, 0]
            elif n <= 130 or not BODY[unit["a"]].startswith(("solve", "init")):
                yield ["body", [unit["a"]], n, 0]
            if n < 300:
                yield ["twice", unit["a"], n]
        # long bodies
        for k in (5, 10, 20, 33, 65, 130, 257):
            for n in (1, 2):
                yield ["body", [(unit["a"] + j) % len(BODY) for j in range(k) if (unit["a"] + j) % len(BODY) not in (1, 2)], n, 0]
        # many loops
        for k in (3, 9, 33, 70):
            yield ["loops", unit["a"], k]
    else:
        for layout in range(6):
            for a, b in product(range(len(BODY)), repeat=2):
                for n in (1, 2, 3):
                    yield ["layout", a, b, n, layout]


def play(lines, interactive, st, what):
    """Compare the session with the model, line by line."""
    model = Model(interactive)
    wants = []
    died = False
    for line in lines:
        errors = model.errors
        try:
            model.line(line)
        except Died:
            died = True
        wants.append((model.take(), model.errors - errors))
        if died or model.ended:
            break
    res = session.run(lines, interactive)
    if res.error:
        fail("%s: %s", what, res.error)
    want_exit = 1 if died else None
    if (res.exit or None) != want_exit:
        fail("%s: exit status %r instead of %r (%s)", what, res.exit, want_exit, res.err)
    if res.read != len(wants):
        fail("%s: %d lines read instead of %d", what, res.read, len(wants))
    segs = segments(res)[1:]
    for i, ((out, err), (want, errors)) in enumerate(zip(segs, wants)):
        # The next prompt follows the output in interactive mode.
        ok = out.startswith(want) and (interactive or out == want)
        if interactive and ok and "\n" in out[len(want):] and i + 1 < len(lines):
            ok = False
        if not ok:
            fail("%s: output of line %d (%s) is %r instead of %r", what, i, lines[i], out, want)
        if bool(err) != bool(errors):
            fail("%s: error output of line %d (%s) is %r, %d errors expected", what, i, lines[i], err, errors)
    st.step(len(lines))
    st.outcome(str(wants))
    st.state(model.state())
    return model


def check(case, st):
    m = case[0]
    if m == "seq":
        table = globals()[case[1]]
        cmds = ["new (2,1)"] + [table[i] for i in case[2]]
        inter = case[3]
        # afterwards: whatever is defined is shown to be there or not
        # observers are only reached if the session is still running
        probe = Model(inter)
        try:
            for c in cmds:
                probe.line(c)
                if probe.ended:
                    break
            n = len(probe.stack)
            if probe.loop:
                tail = ["loop end"] + observers(n if n < 4 else 3)
                for c in tail[:1]:
                    probe.line(c)
                tail = ["loop end"] + observers(min(4, len(probe.stack)))
            else:
                tail = observers(min(4, n))
        except Died:
            tail = []
        play(cmds + tail, inter, st, "%s session %r" % ("interactive" if inter else "scripted", cmds))
    elif m == "body":
        body, n, layout = [BODY[i] for i in case[1]], case[2], case[3]
        pre = ["new (2,2)", "set 0 0 1", "push", "set 1 2 3", "push"]
        check_unrolled(pre, [(n, body)], None, st, layout)
    elif m == "twice":
        # push n times and pop n times
        a, n = case[1:]
        pre = ["new (2,2)", "push", "set 0 0 1", "push"]
        check_unrolled(pre, [(n, ["push"]), (n, ["pop"]), (2, [BODY[a]])], None, st, 0)
    elif m == "loops":
        a, k = case[1:]
        pre = ["new (2,2)", "set 0 0 1"] + ["push"] * 150
        check_unrolled(pre, [(1 + i % 2, [BODY[a]]) for i in range(k)], None, st, 0)
    elif m == "two":
        a, b, n, k, bad = case[1:]
        pre = ["new (2,2)", "push", "set 0 0 1", "push"]
        check_unrolled(pre, [(n, [BODY[a]]), (k, [BODY[b], BODY[a]])], bad, st, 0)
    else:
        a, b, n, layout = case[1:]
        pre = ["new (2,2)", "push", "set 0 0 1", "push", "push"]
        check_unrolled(pre, [(n, [BODY[a], BODY[b]])], None, st, layout)


def check_unrolled(pre, loops, bad, st, layout):
    """Loop and unrolled session on the real shell."""
    rolled, unrolled = list(pre), list(pre)
    for n, body in loops:
        part = ["loop %d" % n] + list(body) + ["loop end"]
        if bad:
            part.insert(2, bad)
            if bad == "loop end":
                # the loop ends early, the rest is executed directly
                part = ["loop %d" % n] + list(body[:1]) + ["loop end"] + list(body[1:])
                unrolled += list(body[:1]) * n + list(body[1:])
            else:
                unrolled += list(body) * n
        else:
            unrolled += list(body) * n
        if layout == 1:
            part = ["; ".join(part)]
        elif layout == 2:
            part = [part[0] + ";" + part[1]] + part[2:]
        elif layout == 3:
            part = part[:-2] + [" ; ".join(part[-2:])]
        elif layout == 4:
            part = [part[0]] + ["#" + part[1], ""] + part[1:]
        elif layout == 5:
            part = [x for c in part for x in (c, "", "  # comment")]
        rolled += part
    results = []
    for lines in (rolled, unrolled):
        # the number of sudokus on the stack is shown first
        res = session.run(lines + observers(8), True)
        if res.error:
            fail("session %r: %s", lines, res.error)
        results.append(res)
    # Remove the prompts: compare with the session run by the model, too.
    m = Model(True)
    for line in unrolled + observers(8):
        m.line(line)
    want = m.take()
    for lines, res in zip((rolled, unrolled), results):
        got = strip(res)
        if got != want:
            fail("session %r: output %r instead of %r", lines, got, want)
    extra = sum(1 for n, b in loops) if bad and bad != "loop end" else 0
    if results[0].err.count("\n") != results[1].err.count("\n") + extra:
        fail("session %r: errors %r instead of %r", rolled, results[0].err, results[1].err)
    st.step(len(rolled) + len(unrolled))
    st.state(tuple(rolled))
    st.outcome(want)


def strip(res):
    """Output without introduction and prompts."""
    segs = segments(res)[1:]
    parts = []
    for i, (out, err) in enumerate(segs):
        # everything after the last newline is the prompt of the next line
        cut = out.rfind("\n") + 1
        parts.append(out[:cut])
    text = "".join(parts)
    # end of input is answered with a newline in interactive mode
    return text[:-1] if text.endswith("\n") else text
