"""C23: interrupting the shell loses only what was interrupted."""
import os
import pty
import select
import signal
import subprocess
import sys
import time
from itertools import combinations, product

from mc import session
from mc.core import REPO
from mc.lib import fail
from mc.session import Died, Model, SHOW, observers, segments

ID = "C23"
RULE = ("fault enumeration: a keyboard interrupt (and every pair of them) at every request of input, at every output of "
        "a command, at every prompt and at every executed line of library code of the commands of all small sessions "
        "with wrapped lines, several commands per line and loops; the rest of the session and the final state are "
        "compared with a model in which only the unfinished line is lost; processes get real signals")
BOUNDS = {"quick": "sessions up to length 4 of 10 lines with 1 interrupt, length 3 with 2, length 2 with 3 and 40 (requests); length 3 of 12 lines (outputs); every library line of 13 commands",
          "thorough": "sessions up to length 5 with 1 and 4 with 2 interrupts; outputs of sessions up to length 4 (sliced)"}

KI = KeyboardInterrupt
WAIT = ["set 0 0 +\\", "1", "push", "stack; \\", "get 0 0", "loop 2", "loop end", "pop", "set 1 1 2; push", "\\"]
OUTS = ["get 0 0", "push;stack;set 0 0 2;get 0 0", "set 0 1 2;stack;push", "loop 2", "loop 3;get 0 1", "push;get 0 0;pop", "loop end",
        "loop end;stack;push", "stack;\\", "pop", "get 0 0; nonsense; get 0 0", "set 0 0 0"]
SETUP = ["new (2,2)", "set 0 0 1", "push", "set 1 1 3"]
ATOMIC = ["set 0 1 2", "set row=1 col=0 value=4", "set_candidates 0 0 [1,2]", "remove_candidates 1 1 [3]", "push", "pop",
          "solve", "decode '1234341221434321'", "decode '1.3' number_sep='.' box_size=(1,2)", "new (2,1)", SHOW, "view", "print"]


def units(tier):
    q = tier == "quick"
    us = []
    for i in range(len(WAIT)):
        us.append({"m": "wait", "pre": i, "len": 4 if q else 5, "pairs": 3 if q else 4})
    for i in range(len(OUTS)):
        us.append({"m": "out", "pre": i, "len": 3 if q else 4, "step": 1 if q else 4})
    for i in range(len(ATOMIC)):
        us.append({"m": "trace", "i": i, "cap": 150 if q else 1500})
    us.append({"m": "script"})
    us.append({"m": "signal", "n": 4 if q else 12})
    return us


def cases(unit):
    m = unit["m"]
    if m == "wait":
        for length in range(1, unit["len"] + 1):
            for rest in product(range(len(WAIT)), repeat=length - 1):
                seq = [unit["pre"]] + list(rest)
                for p in range(length + 1):
                    yield ["wait", seq, [p]]
                if length <= 2:
                    for p in range(length + 1):
                        yield ["wait", seq, [p] * 3]
                        yield ["wait", seq, [p] * 40]
                if length <= unit["pairs"]:
                    for p in range(length + 1):
                        for r in range(p, length + 1):
                            yield ["wait", seq, [p, r]]
    elif m == "out":
        count = 0
        for length in range(1, unit["len"] + 1):
            for rest in product(range(len(OUTS)), repeat=length - 1):
                count += 1
                if length < 4 or count % unit["step"] == 0:
                    yield ["out", [unit["pre"]] + list(rest)]
    elif m == "trace":
        a = ATOMIC[unit["i"]]
        for pre in ([], ["set 0 1 4"], ["push"], ["get 0 0", "pop"]):
            for post in ([], ["set 0 0 3"], ["push", "stack"]):
                for loop in (0, 2):
                    yield ["trace", pre, a, post, loop, unit["cap"]]
    elif m == "script":
        for seq in product(range(len(WAIT)), repeat=2):
            for p in range(3):
                yield ["script", [WAIT[i] for i in seq], p]
        for seq in product(range(len(OUTS)), repeat=2):
            yield ["scriptout", [OUTS[i] for i in seq]]
    else:
        for i in range(unit["n"]):
            yield ["signal", i % 4]


class Stop(Exception):
    pass


class Reader(object):
    """The model of a session with input lines, wraps and interrupts."""

    def __init__(self, interactive=True):
        self.model = Model(interactive)
        self.pending = ""

    def interrupt(self):
        self.pending = ""

    def line(self, text):
        text = text.strip()
        if text.endswith("\\"):
            self.pending += text[:-1]
            return
        text = self.pending + text
        self.pending = ""
        if text:
            self.model.line(text)


def compare(items, what, st, extra=None):
    """items: lines and KI at requests of input; compares with the model."""
    reader = Reader()
    wants = []
    for item in items:
        if item is KI:
            reader.interrupt()
            wants.append(None)
        else:
            errors = reader.model.errors
            reader.line(item)
            wants.append((reader.model.take(), reader.model.errors - errors))
    res = session.run(items, True)
    judge(res, wants, items, what)
    st.step(len(items))
    st.state(what)
    st.outcome(str(wants))


def judge(res, wants, items, what):
    if res.error:
        fail("%s: %s", what, res.error)
    if res.exit not in (None, 0):
        fail("%s: exit status %r", what, res.exit)
    if res.read != len(items):
        fail("%s: only %d of %d lines were read", what, res.read, len(items))
    segs = segments(res)[1:]
    for i, want in enumerate(wants):
        out, err = segs[i]
        if want is None:
            if err.strip() and False:
                fail("%s: error %r", what, err)
            continue
        if not out.startswith(want[0]) or (out[len(want[0]):].count("\n") and i + 1 < len(items)):
            fail("%s: output of line %d (%s) is %r instead of %r", what, i, items[i], out, want[0])
        if bool(err) != bool(want[1]):
            fail("%s: error output of line %d (%s) is %r, %d errors expected", what, i, items[i], err, want[1])


def tail_of(reader):
    """Lines which show the state of the model."""
    m = reader.model
    res = []
    if reader.pending:
        res.append("")
    if m.loop:
        res.append("loop end")
        n = 5
    else:
        n = len(m.stack)
    return res + observers(min(n, 6))


def check(case, st):
    m = case[0]
    if m == "wait":
        seq, where = case[1:]
        items = list(SETUP)
        reader = Reader()
        for k in range(len(seq) + 1):
            items += [KI] * where.count(k)
            if k < len(seq):
                items.append(WAIT[seq[k]])
        for item in items:
            if item is KI:
                reader.interrupt()
            else:
                reader.line(item)
        items += tail_of(reader)
        compare(items, "session %r" % (names(items),), st)
    elif m == "out":
        outputs([OUTS[i] for i in case[1]], st)
    elif m == "trace":
        traced(*(case[1:] + [st]))
    elif m == "script":
        lines, p = case[1:]
        items = list(SETUP[:2]) + lines[:p] + [KI] + lines[p:] + ["stack"]
        model = Reader(False)
        code = 2
        for item in items:
            if item is KI:
                break
            try:
                model.line(item)
            except Died:
                code = 1
                break
        ended(session.run(items, False), model.model.take(), code, "script %r" % names(items))
        st.step(len(items))
        st.state(str(names(items)))
    elif m == "scriptout":
        script_outputs(case[1], st)
    else:
        signals(case[1], st)


def names(items):
    return ["<interrupt>" if i is KI else i for i in items]


def ended(res, out, code, what):
    if res.error:
        fail("%s: %s", what, res.error)
    if (res.exit or None) != code:
        fail("%s: exit status %r instead of %r", what, res.exit, code)
    if not res.out.startswith(out) or res.out[len(out):].strip():
        fail("%s: output %r instead of %r", what, res.out, out)


class Limited(list):
    """Output of the model, interrupted at a given output."""

    def __init__(self, limit):
        list.__init__(self)
        self.limit = limit

    def append(self, s):
        if len(self) == self.limit:
            raise KI()
        list.append(self, s)


def limited(items, at, j):
    """Model of the session with an interrupt at output j of line at."""
    reader = Reader()
    wants = []
    for i, item in enumerate(items):
        errors = reader.model.errors
        if i == at:
            reader.model.out = Limited(j)
        try:
            reader.line(item)
        except KI:
            wants.append(("".join(reader.model.out), reader.model.errors - errors, True))
            reader.model.out = []
            reader.interrupt()
            continue
        wants.append((reader.model.take(), reader.model.errors - errors, False))
        if i == at:
            # interrupted while the prompt was shown
            reader.interrupt()
    return reader, wants


def count_outputs(items):
    reader = Reader()
    counts = []
    for item in items:
        reader.line(item)
        counts.append(len(reader.model.out))
        reader.model.out = []
    return counts


def outputs(lines, st):
    items = list(SETUP) + lines
    for at, n in list(enumerate(count_outputs(items)))[len(SETUP):]:
        for j in range(n + 1):
            if at == len(items) - 1 and j == n and not n:
                continue
            reader, wants = limited(items, at, j)
            full = items + tail_of(reader)
            reader, wants = limited(full, at, j)
            done = wants[at][0]
            state = {"armed": True}
            what = "session %r with an interrupt at output %d of line %d" % (full, j, at)
            res = inject(full, at, len(done), state)
            if state["armed"]:
                # e.g. no prompt is written
                st.note("interrupts without an output to interrupt")
                continue
            if res.error:
                fail("%s: %s", what, res.error)
            if res.exit not in (None, 0):
                fail("%s: exit status %r", what, res.exit)
            # An interrupt while a prompt is shown is followed by a further request.
            if res.read != len(full):
                fail("%s: only %d of %d lines were read", what, res.read, len(full))
            segs = segments(res)[1:]
            for i, (want, errors, cut) in enumerate(wants):
                out, err = segs[i]
                loose = i == at or i + 1 == len(full)
                if not out.startswith(want) or (not loose and out[len(want):].count("\n")):
                    fail("%s: output of line %d (%s) is %r instead of %r", what, i, full[i], out, want)
                if i == at and cut and show_more(out[len(want):], wants, items):
                    fail("%s: output of the interrupted line is %r instead of %r", what, out, want)
                if bool(err) != bool(errors):
                    fail("%s: error output of line %d (%s) is %r, %d errors expected", what, i, full[i], err, errors)
            st.step(len(full))
            st.state(tuple(full), at, j)
            st.outcome(str(wants))


def show_more(text, wants, items):
    """Is there further output of commands?"""
    return any(line.startswith("stack has") or line.strip().isdigit() for line in text.split("\n"))


def inject(items, at, length, state):
    """Run a session; the first write after line `at` was read with `length` characters of output is interrupted."""
    box = {}
    orig_feed = session.Feed

    class Feed(orig_feed):
        def __init__(self, *args, **kwargs):
            orig_feed.__init__(self, *args, **kwargs)
            box["feed"] = self

    def hook(n, text):
        feed = box.get("feed")
        if not state["armed"] or feed is None or feed.pos != at + 1:
            return
        if feed.out.length - feed.marks[-1][0] >= length and text:
            state["armed"] = False
            raise KI()
    session.Feed = Feed
    try:
        return session.run(items, True, out_hook=hook)
    finally:
        session.Feed = orig_feed


def script_outputs(lines, st):
    items = list(SETUP) + lines
    reader = Reader(False)
    total = []
    try:
        for item in items:
            reader.line(item)
    except Died:
        pass
    total = list(reader.model.out)
    for j in range(len(total)):
        done = "".join(total[:j])
        state = {"armed": True}

        def hook(n, text):
            if state["armed"] and text and state["n"] >= len(done):
                state["armed"] = False
                raise KI()
            state["n"] += len(text)
        state["n"] = 0
        res = session.run(items + ["push", "stack"], False, out_hook=hook)
        if state["armed"]:
            continue
        ended(res, done, 2, "script %r interrupted at output %d" % (items, j))
        st.step(len(items))
        st.state(tuple(items), j)


# ------------------------------------------------------- library code
LIB = os.path.join(os.path.realpath(REPO), "sudokutools") + os.sep


class Tracer(object):
    """Counts executed lines of the library (without the shell itself) and interrupts one of them."""

    def __init__(self, at=None):
        self.at = at
        self.n = 0
        self.on = False
        self.fired = False
        self.known = {}

    def __call__(self, frame, event, arg):
        code = frame.f_code
        ok = self.known.get(code)
        if ok is None:
            name = os.path.realpath(code.co_filename)
            ok = self.known[code] = name.startswith(LIB) and not name.endswith("shell.py")
        return self.local if ok else None

    def local(self, frame, event, arg):
        if self.on and event == "line":
            if self.n == self.at and not self.fired:
                self.fired = True
                raise KI()
            self.n += 1
        return self.local


def trace_run(items, at_line, at=None):
    tracer = Tracer(at)
    orig_feed = session.Feed

    class Feed(orig_feed):
        def readline(self, size=-1):
            s = orig_feed.readline(self, size)
            tracer.on = self.pos == at_line + 1
            return s
    session.Feed = Feed
    try:
        return session.run(items, True, trace=tracer), tracer
    finally:
        session.Feed = orig_feed


def state_after(cmds):
    """What the observers show after some commands."""
    reader = Reader()
    for c in SETUP + cmds:
        reader.line(c)
    reader.model.take()
    reader.model.errors = 0
    for c in observers(6):
        reader.line(c)
    return reader.model.take(), reader.model.errors


def traced(pre, a, post, loop, cap, st):
    """Interrupt `a` at every executed line of library code."""
    body = pre + [a] + post
    if loop:
        line = "loop %d;%s;loop end" % (loop, ";".join(body))
        flat = body * loop
    else:
        line = ";".join(body)
        flat = body
    at_line = len(SETUP)
    # number of executed lines after each command
    ends = []
    for k in range(1, len(flat) + 1):
        res, tracer = trace_run(SETUP + [";".join(flat[:k])], at_line)
        ends.append(tracer.n)
    total = ends[-1]
    step = max(1, total // cap)
    known = {}
    if step > 1:
        st.note("traces thinned out")
    for n in range(0, total, step):
        k = min(i for i, e in enumerate(ends) if n < e)
        if k not in known:
            known[k] = state_after(flat[:k])
        if k + 1 not in known:
            known[k + 1] = state_after(flat[:k + 1])
        allowed = [known[k], known[k + 1]]
        items = SETUP + [line] + observers(6)
        res, tracer = trace_run(items, at_line, n)
        what = "session %r interrupted at executed line %d" % (items, n)
        if not tracer.fired:
            st.note("interrupts not reached")
            continue
        if res.error:
            fail("%s: %s", what, res.error)
        if res.exit not in (None, 0):
            fail("%s: exit status %r", what, res.exit)
        segs = segments(res)
        got = "".join(cut(o) for o, e in segs[at_line + 2:at_line + 2 + len(observers(6))])
        if got not in [w for w, e in allowed]:
            # the last observers may be answered by the end of the input
            if not any(got == w or got == w + "\n" for w, e in allowed):
                fail("%s: the state afterwards is %r instead of %r", what, got, allowed)
        st.step()
        st.state(line, n)
        st.outcome(got)


def cut(out):
    return out[:out.rfind("\n") + 1]


# ------------------------------------------------------- real signals
def waiting(pid, limit=30):
    """Wait until the process waits for input."""
    end = time.time() + limit
    calm = 0
    while time.time() < end and calm < 8:
        with open("/proc/%d/stat" % pid) as f:
            state = f.read().rsplit(")", 1)[1].split()[0]
        calm = calm + 1 if state == "S" else 0
        time.sleep(0.02)
    return calm >= 8


def signals(i, st):
    """A process waiting for input gets SIGINT."""
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", TERM="dumb", PYTHONUNBUFFERED="1")
    interactive = i % 2 == 0
    if interactive:
        try:
            master, slave = pty.openpty()
        except OSError:
            st.note("no pseudo terminal")
            return
        stdin = slave
    else:
        stdin = subprocess.PIPE

    def prepare():
        signal.signal(signal.SIGINT, signal.default_int_handler)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
    p = subprocess.Popen([sys.executable, "-m", "sudokutools"], stdin=stdin, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=env, preexec_fn=prepare, bufsize=0)

    def send(text):
        if interactive:
            os.write(master, text.encode())
        else:
            p.stdin.write(text.encode())

    def until(text, limit=60):
        data = b""
        end = time.time() + limit
        while text not in data:
            ready, _, _ = select.select([p.stdout], [], [], max(0.0, end - time.time()))
            if not ready:
                break
            chunk = os.read(p.stdout.fileno(), 4096)
            if not chunk:
                break
            data += chunk
        return data
    try:
        send("new (2,1)\nset 0 0 2\nencode\n")
        out = until(b"2000")
        if b"2000" not in out:
            p.kill()
            rest = p.communicate()
            fail("process: output %r, %r", out, rest)
        if not waiting(p.pid):
            st.note("process does not come to rest")
            p.kill()
            p.communicate()
            return
        os.kill(p.pid, signal.SIGINT)
        if interactive:
            time.sleep(0.05)
            waiting(p.pid, 5)
            send("set 0 1 1\nencode\nexit\n")
        try:
            out, err = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            fail("interrupted process does not end (interactive: %r)", interactive)
        if interactive:
            if p.returncode != 0 or b"2100" not in out:
                fail("interrupted interactive process: status %r, output %r, %r", p.returncode, out, err)
        elif p.returncode != 2:
            fail("interrupted process: exit status %r instead of 2 (%r)", p.returncode, err)
    finally:
        if interactive:
            os.close(master)
            os.close(slave)
        if p.poll() is None:
            p.kill()
            p.wait()
    st.step()
    st.state("signal", i)
