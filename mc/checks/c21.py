"""C21: the shell behaves the same for every way of entering commands."""
import os
import pty
import select
import shutil
import subprocess
import sys
import tempfile
import time
from functools import lru_cache
from itertools import product

from mc.core import REPO
from mc.lib import fail
from mc import session
from mc.checks.c20 import strip
from mc.session import Died, Model, SHOW

ID = "C21"
RULE = ("all scripts up to a length over a command alphabet (failing commands, loops and exit included) in every "
        "layout (lines, semicolons, comments, blank lines, white space, line wraps at every position, missing final "
        "newline), interactive and not, against the model of the plain script; and the program itself run as a "
        "process with a script file, standard input, -c and on a terminal")
BOUNDS = {"quick": "scripts up to length 3 of 14 commands x 23 layouts x 2 modes (length 3 sliced), every wrap position, 13 odd comments at 5 places of all pairs, lines and scripts with up to 16500 parts; 200 scripts x channels as processes",
          "thorough": "scripts up to length 4 (sliced) of 14 commands x 23 layouts x 2 modes; lines and scripts with up to 131100 parts; 1200 scripts x channels as processes"}

CMDS = ["new (2,2)", "set 0 0 1", "get 0 0", "push", "pop", "stack", SHOW, "view", "solve", "loop 2", "loop end",
        "nonsense", "set 9 9 9", "exit"]
LAYOUTS = ["lines", "semi", "semi ", " semi ", "comments", "comment lines", "blank", "space", "tabs", "no newline",
           "wrap", "wrap line", "crlf", "mixed", "mixed2", "tty", "semi no newline", "wrap semi", "blank end",
           "odd comments", "odd comment lines", "comment at end", "two wraps"]
START = "new (2,1)"
# comments with characters which mean something elsewhere
ODD = ["# a \\", "# '", '# "', "#\\", "# ;", "# loop end;", "#exit", "# a \\ b", "## #", "#\t\\", "# '\\", "# (", "# ;\\"]


def units(tier):
    q = tier == "quick"
    us = []
    for i in range(len(CMDS)):
        us.append({"m": "layout", "pre": i, "len": 3 if q else 4, "step": 3 if q else 9})
        us.append({"m": "wraps", "pre": i})
        us.append({"m": "odd", "pre": i})
    us.append({"m": "empty"})
    us.append({"m": "long"})
    us += [{"m": "very long", "n": n} for n in (4100, 16500) + (() if q else (66000, 131100))]
    n = 200 if q else 1200
    for i in range(16):
        us.append({"m": "process", "lo": i, "hi": n, "step": 16})
    us.append({"m": "terminal", "n": 6 if q else 20})
    us.append({"m": "program"})
    return us


def scripts(n):
    """A fixed selection of scripts for the process runs."""
    res = [[a] for a in CMDS] + [[a, b] for a, b in product(CMDS, repeat=2)]
    extra = [list(t) for t in product(CMDS, repeat=3)]
    res += extra[5::13]
    return res[:n]


def cases(unit):
    m = unit["m"]
    if m == "layout":
        count = 0
        for length in range(1, unit["len"] + 1):
            for rest in product(CMDS, repeat=length - 1):
                count += 1
                if length > 2 and count % unit["step"]:
                    continue
                cmds = [CMDS[unit["pre"]]] + list(rest)
                for inter in (False, True):
                    for layout in LAYOUTS:
                        yield ["layout", cmds, layout, inter]
    elif m == "wraps":
        for b in CMDS:
            text = ";".join([START, CMDS[unit["pre"]], b, SHOW])
            for p in range(1, len(text)):
                for inter in (False, True):
                    yield ["wrap", text, [p], inter]
                if p % 3 == 0:
                    for r in range(p + 1, len(text), 7):
                        yield ["wrap", text, [p, r], False]
    elif m == "odd":
        for c in CMDS:
            for odd in ODD:
                for how in range(5):
                    for inter in (False, True):
                        yield ["odd", [CMDS[unit["pre"]], c], odd, how, inter]
    elif m == "long":
        # long lines, many lines, many wraps, long comments
        for n in (10, 33, 64, 100, 129, 257, 513, 1025):
            for how in range(8):
                for inter in (False, True):
                    yield ["long", n, how, inter]
        for n in (700, 4500):
            for channel in ("file", "stdin", "-c"):
                yield ["long process", n, channel]
    elif m == "very long":
        for how in (0, 1, 2, 3, 4, 5, 6, 7):
            # quadratic sizes
            yield ["long", unit["n"] if how not in (2, 5) else int((16 * unit["n"]) ** 0.5), how, bool(how % 2)]
            if unit["n"] < 5000:
                yield ["long", unit["n"] if how not in (2, 5) else int((16 * unit["n"]) ** 0.5), how, not how % 2]
    elif m == "empty":
        for text in ("#\\", "# \\\n", "#'\n", "\n#;\\\n\n", "", "\n", "\n\n", "#", "# x\n", "  \n\t\n", " # a\n#b", "\\\n", "\\\n\n", "\\", "\\\n\\\n", "\r\n"):
            for inter in (False, True):
                yield ["empty", text, inter]
    elif m == "process":
        all_scripts = scripts(unit["hi"])
        for i in range(unit["lo"], len(all_scripts), unit["step"]):
            for channel in ("file", "stdin", "-c", "-c lines", "file comments", "stdin wrap"):
                if i % 3 == 0 or channel in ("file", "stdin", "-c"):
                    yield ["process", all_scripts[i], channel]
    elif m == "terminal":
        for i in range(unit["n"]):
            yield ["terminal", [["get 0 0"], ["set 0 0 1", "get 0 0"], ["nonsense", "get 0 0"], ["exit"],
                                ["loop 2", "stack", "loop end"], ["push", "exit", "stack"]][i % 6], i // 6]
    else:
        for i in range(6):
            yield ["program", i]


def layout_text(cmds, layout):
    """The input for a list of commands."""
    lines = [c + "\n" for c in cmds]
    if layout in ("lines", "tty"):
        pass
    elif layout == "semi":
        lines = [";".join(cmds) + "\n"]
    elif layout == "semi ":
        lines = ["; ".join(cmds) + "\n"]
    elif layout == " semi ":
        lines = ["  " + "  ;\t".join(cmds) + "  \n"]
    elif layout == "comments":
        lines = ["%s%s# comment %d; exit\n" % (c, " " * (i % 3), i) for i, c in enumerate(cmds)]
    elif layout == "comment lines":
        lines = [x for c in cmds for x in ("# set 0 0 2\n", c + "\n", "  #;\n", "#\n")]
    elif layout == "blank":
        lines = [x for c in cmds for x in ("\n", c + "\n", "   \n", "\t\n")]
    elif layout == "space":
        lines = ["   " + c + "  \n" for c in cmds]
    elif layout == "tabs":
        lines = ["\t" + c + "\t \n" for c in cmds]
    elif layout == "no newline":
        lines[-1] = lines[-1][:-1]
    elif layout == "wrap":
        # after the first word
        lines = [c.replace(" ", " \\\n", 1) + "\n" for c in cmds]
    elif layout == "wrap line":
        lines = [x for c in cmds for x in ("\\\n", c + "\\\n", "\n")]
    elif layout == "crlf":
        lines = [c + "\r\n" for c in cmds]
    elif layout == "mixed":
        lines = ["# start\n"] + [";".join(cmds[:2]) + " # two\n"] + ["\n"] + [" %s\n" % c for c in cmds[2:]]
    elif layout == "mixed2":
        lines = [c + "\n" for c in cmds[:-2]] + [" ; \\\n".join(cmds[-2:])]
    elif layout == "semi no newline":
        lines = [";".join(cmds)]
    elif layout == "wrap semi":
        lines = [";\\\n".join(cmds) + "\n"]
    elif layout == "odd comments":
        lines = ["%s %s\n" % (c, ODD[(i + len(cmds[-2])) % len(ODD)]) for i, c in enumerate(cmds)]
    elif layout == "odd comment lines":
        lines = [x for i, c in enumerate(cmds) for x in ("%s%s\n" % (" " * (i % 2), ODD[(2 * i + len(cmds[-2])) % len(ODD)]), c + "\n",
                                                         ODD[(2 * i + 1 + len(cmds[-2])) % len(ODD)] + "\n")]
    elif layout == "comment at end":
        lines[-1] = lines[-1][:-1] + " " + ODD[len(cmds[-2]) % len(ODD)]
    elif layout == "two wraps":
        lines = [c.replace(" ", " \\\n\\\n", 1) + "\\\n\n" for c in cmds]
    elif layout == "blank end":
        lines = lines + ["\n", "# end\n", "   "]
    return "".join(lines)


def expected(cmds, interactive):
    return _expected(tuple(cmds), interactive)


@lru_cache(maxsize=2000)
def _expected(cmds, interactive):
    model = Model(interactive)
    code = None
    try:
        for c in cmds:
            model.line(c)
            if model.ended:
                break
    except Died:
        code = 1
    return model.take(), code, model.errors


def full(cmds):
    return [START] + list(cmds) + [SHOW]


def judge(text, cmds, interactive, st, tty=None):
    want, code, errors = expected(cmds, interactive)
    items = text.split("\n")
    lines = [x + "\n" for x in items[:-1]] + ([items[-1]] if items[-1] else [])
    what = "%s input %r" % ("interactive" if interactive else "script", text)
    res = run_raw(lines, interactive, tty)
    if res.error:
        fail("%s: %s", what, res.error)
    if (res.exit or None) != code:
        fail("%s: exit status %r instead of %r (%s)", what, res.exit, code, res.err)
    if bool(res.err) != bool(errors):
        fail("%s: error output %r, %d errors expected", what, res.err, errors)
    if interactive:
        first = session.segments(res)[0][0]
        prompt = first[first.rfind("\n") + 1:]
        if "sudokutools" not in first or not prompt:
            fail("%s: no introduction or prompt in %r", what, first)
        got = strip(res)
        if res.read < len(lines):
            # the session was ended by exit: there is no final newline to ignore
            segs = session.segments(res)[1:]
            got = "".join(o[:o.rfind("\n") + 1] for o, e in segs)
        if got != want and got + "\n" != want:
            fail("%s: output %r instead of %r", what, got, want)
    elif res.out != want:
        fail("%s: output %r instead of %r", what, res.out, want)
    st.step(len(lines))
    st.outcome(want, code)
    st.state(text, interactive)


def run_raw(lines, interactive, tty):
    """Like session.run() without adding newlines."""
    orig = session.Feed
    class Exact(orig):
        def __init__(self, items, *args, **kwargs):
            orig.__init__(self, lines, *args, **kwargs)
    session.Feed = Exact
    try:
        return session.run(lines, interactive, tty=tty)
    finally:
        session.Feed = orig


def program(args, stdin, cwd):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.Popen([sys.executable, "-m", "sudokutools"] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, cwd=cwd, env=env, universal_newlines=True)
    try:
        out, err = p.communicate(stdin, timeout=60)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        fail("sudokutools %r does not end", args)
    return p.returncode, out, err


def check(case, st):
    m = case[0]
    if m == "layout":
        cmds, layout, inter = case[1:]
        cmds = full(cmds)
        if "exit" in cmds and layout == "wrap" and inter:
            pass
        judge(layout_text(cmds, layout), cmds, inter, st, tty=inter if layout == "tty" else None)
    elif m == "wrap":
        text, where, inter = case[1:]
        cmds = text.split(";")
        wrapped = text
        for p in sorted(where, reverse=True):
            # white space around the wrap is not kept
            if wrapped[p] == " ":
                p += 1
            wrapped = wrapped[:p] + "\\\n" + wrapped[p:]
        judge(wrapped + "\n", cmds, inter, st)
    elif m == "odd":
        cmds, odd, how, inter = full(case[1]), case[2], case[3], case[4]
        lines = [c + "\n" for c in cmds]
        if how == 0:
            lines = [c + " " + odd + "\n" for c in cmds]
        elif how == 1:
            lines = [x for c in lines for x in (odd + "\n", c)]
        elif how == 2:
            lines = ["; ".join(cmds[:2]) + " " + odd + "\n"] + lines[2:]
        elif how == 3:
            lines = lines[:-1] + [cmds[-1] + odd]
        else:
            lines = lines[:2] + [" \\\n" + cmds[2] + " " + odd + "\n", odd + odd + "\n", "  " + odd + "\n"] + lines[3:]
        judge("".join(lines), cmds, inter, st)
    elif m == "long":
        n, how, inter = case[1:]
        some = ["set 0 %d %d" % (i % 2, i % 3) for i in range(n)]
        cmds = full(some + ["get 0 0", "push", "stack"])
        text = "\n".join(cmds) + "\n"
        if how == 1:
            text = ";".join(cmds) + "\n"
        elif how == 2:
            text = "".join("%s # %s\n" % (c, "x ; # " * n) for c in cmds[:3]) + "\n".join(cmds[3:])
        elif how == 3:
            text = ";\\\n".join(cmds) + "\n"
        elif how == 4:
            text = "\n" * n + text + "#\n" * n
        elif how == 5:
            text = " " * n + (" " * n + "\n").join(cmds) + "\n"
        elif how == 6:
            text = cmds[0] + "\n" + "\\\n" * n + "\n".join(cmds[1:]) + "\n"
        elif how == 7:
            cmds = full(["decode %r" % ("1" + "0" * (16 - 1)), "encode %r" % ("/" * n), "print"])
            text = "\n".join(cmds) + "\n"
        judge(text, cmds, inter, st)
    elif m == "long process":
        n, channel = case[1:]
        cmds = full(["set 0 %d %d" % (i % 2, i % 3) for i in range(n)] + ["get 0 0"])
        want, code, errors = expected(cmds, False)
        text = ";".join(cmds)
        tmp = tempfile.mkdtemp(prefix="mc-c21-")
        try:
            if channel == "file":
                path = os.path.join(tmp, "script.txt")
                with open(path, "w") as f:
                    f.write(text + "\n")
                got = program([path], "", tmp)
            elif channel == "stdin":
                got = program([], text + "\n", tmp)
            else:
                got = program(["-c", text], "", tmp)
        finally:
            shutil.rmtree(tmp)
        if got != (code or 0, want, ""):
            fail("program with %d commands in one line through %s: %r instead of %r", n, channel, got, (code or 0, want, ""))
        st.step(n)
        st.state("long process", n, channel)
    elif m == "empty":
        judge(case[1], [], case[2], st)
    elif m == "process":
        cmds, channel = full(case[1]), case[2]
        want, code, errors = expected(cmds, False)
        tmp = tempfile.mkdtemp(prefix="mc-c21-")
        try:
            layout = {"file": "lines", "stdin": "lines", "-c": "semi ", "-c lines": "no newline",
                      "file comments": "comments", "stdin wrap": "wrap"}[channel]
            text = layout_text(cmds, layout)
            if channel.startswith("file"):
                path = os.path.join(tmp, "script.txt")
                with open(path, "w") as f:
                    f.write(text)
                got = program([path], "set 0 0 'stdin'\n", tmp)
            elif channel.startswith("stdin"):
                got = program([], text, tmp)
            else:
                got = program(["-c", text.rstrip("\n")], "set 0 0 'stdin'\n", tmp)
        finally:
            shutil.rmtree(tmp)
        what = "program with %r through %s" % (cmds, channel)
        if got[0] != (code or 0):
            fail("%s: exit status %r instead of %r (%s)", what, got[0], code or 0, got[2])
        if got[1] != want:
            fail("%s: output %r instead of %r", what, got[1], want)
        if bool(got[2]) != bool(errors):
            fail("%s: error output %r", what, got[2])
        st.step(len(cmds))
        st.state(tuple(cmds), channel)
        st.outcome(want, code, channel)
    elif m == "terminal":
        terminal(full(case[1]), case[2], st)
    else:
        i = case[1]
        tmp = tempfile.mkdtemp(prefix="mc-c21-")
        try:
            if i == 0:
                got = program([os.path.join(tmp, "missing")], "", tmp)
                if got[0] != 1 or not got[2] or got[1]:
                    fail("missing script: %r", got)
            elif i == 1:
                # a script file wins over -c
                path = os.path.join(tmp, "s")
                with open(path, "w") as f:
                    f.write("new (1,2)\nencode\n")
                got = program(["-c", "stack", path], "stack\n", tmp)
                if got != (0, "0000\n", ""):
                    fail("script file and -c: %r", got)
            elif i == 2:
                got = program(["-c", ""], "stack\n", tmp)
                if got != (0, "", ""):
                    fail("empty -c: %r", got)
            elif i == 3:
                got = program([], "", tmp)
                if got != (0, "", ""):
                    fail("empty standard input: %r", got)
            elif i == 4:
                path = os.path.join(tmp, "s")
                open(path, "w").close()
                got = program([path], "stack\n", tmp)
                if got != (0, "", ""):
                    fail("empty script: %r", got)
            else:
                got = program(["-c", "exit;stack"], "stack\n", tmp)
                if got != (0, "", ""):
                    fail("-c exit: %r", got)
        finally:
            shutil.rmtree(tmp)
        st.step()
        st.state("program", i)


def terminal(cmds, turn, st):
    """Run the program on a pseudo terminal; output goes to a pipe."""
    want, code, errors = expected(cmds, True)
    try:
        master, slave = pty.openpty()
    except OSError:
        st.note("no pseudo terminal")
        return
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", TERM="dumb")
    try:
        p = subprocess.Popen([sys.executable, "-m", "sudokutools"], stdin=slave, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=env)
        os.close(slave)
        try:
            os.write(master, ("\n".join(cmds) + "\n\x04").encode())
            out, err = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            fail("program on a terminal with %r does not end", cmds)
    finally:
        os.close(master)
    out = out.decode()
    if p.returncode != 0:
        fail("program on a terminal with %r: exit status %r", cmds, p.returncode)
    if "sudokutools" not in out or out.count("> ") < len(cmds[:cmds.index("exit")] if "exit" in cmds else cmds):
        fail("program on a terminal with %r: no introduction or prompts in %r", cmds, out)
    pos = 0
    for line in want.splitlines():
        at = out.find(line, pos)
        if at < 0:
            fail("program on a terminal with %r: %r is missing in %r", cmds, line, out)
        pos = at + len(line)
    if bool(err) != bool(errors):
        fail("program on a terminal with %r: error output %r", cmds, err)
    st.step(len(cmds))
    st.state("terminal", tuple(cmds))
