"""C24: help covers every shell command correctly."""
import inspect
import re
from ast import literal_eval

from mc import session
from mc.lib import fail
from mc.session import Model, SHOW, observers, segments

ID = "C24"
RULE = ("complete enumeration: help for every command (with every combination of its own options), the general help, "
        "and help for everything that is no command (all strings up to a length, numbers, other literals, keywords), "
        "each after every command sequence of a family, within loops and lines; the answer is compared with the "
        "signature and the documentation of the function behind the command, the state with the model")
BOUNDS = {"quick": "all commands x 7 option forms x 40 sessions; all names up to length 2 over 12 characters and near misses",
          "thorough": "all commands x 7 option forms x 150 sessions; all names up to length 3"}

STATES = ["new (2,2)", "set 0 0 1", "push", "pop", "set_candidates 0 0 [1]", "init_candidates", "solve"]


def functions():
    """The functions behind the commands, as documented."""
    from sudokutools import shell, sudoku, generate, solve
    S, Sh = sudoku.Sudoku, shell.Shell
    table = {"new": S.__init__, "generate": generate.generate, "generate_from_template": generate.generate_from_template,
             "decode": S.decode, "get": S.get_number, "set": S.set_number, "set_candidates": S.set_candidates,
             "get_candidates": S.get_candidates, "remove_candidates": S.remove_candidates,
             "init_candidates": solve.init_candidates, "encode": S.encode, "view": sudoku.view,
             "print": S.__str__}
    for name in ("solve", "loop", "stack", "push", "pop", "help", "exit"):
        f = getattr(Sh, name + "_command", None)
        if f is not None:
            table[name] = f
    if hasattr(shell, "clear"):
        table["clear"] = shell.clear
    return table


COMMANDS = ["new", "generate", "generate_from_template", "decode", "get", "set", "set_candidates", "get_candidates",
            "remove_candidates", "init_candidates", "encode", "print", "clear", "view", "solve", "loop", "stack", "push", "pop",
            "help", "exit"]


def known_commands():
    from sudokutools import shell
    return sorted(shell.COMMANDS)


def units(tier):
    q = tier == "quick"
    return [{"m": "general", "n": 40 if q else 150}] + [
        {"m": "command", "name": c, "n": 40 if q else 150} for c in COMMANDS] + [
        {"m": "unknown", "len": 2 if q else 3, "pre": c} for c in "aenxprws_1-(."] + [{"m": "others"}]


def sessions(n):
    res = [[]]
    for i in range(len(STATES)):
        res.append([STATES[i]])
    for i in range(len(STATES)):
        for j in range(len(STATES)):
            res.append(["new (2,1)", STATES[i], STATES[j]])
    for i in range(len(STATES)):
        for j in range(len(STATES)):
            res.append(["push", "new (1,2)", STATES[j], "push", STATES[i]])
    return res[:n]


def cases(unit):
    m = unit["m"]
    if m == "general":
        for pre in sessions(unit["n"]):
            for form in ("help", "help verbose=True", "help verbose=False", "help None", "help command=None"):
                yield ["general", pre, form]
    elif m == "command":
        for pre in sessions(unit["n"]):
            for form in ("help %s", "help %s True", "help %s False", "help %s verbose=True", "help %s verbose=False",
                         "help %s 0", "help %s verbose=0"):
                yield ["command", pre, unit["name"], form]
        for n in (1, 2, 3):
            yield ["loop", unit["name"], n]
        # every command known to the shell, too
        if unit["name"] == "help":
            yield ["complete"]
    elif m == "unknown":
        abc = "aenxprws_1-(."
        names = [unit["pre"]]
        for a in abc:
            names.append(unit["pre"] + a)
            if unit["len"] > 2:
                names += [unit["pre"] + a + b for b in abc]
        for name in names:
            yield ["unknown", name]
    else:
        for c in COMMANDS:
            for name in (c.upper(), c.capitalize(), c + "s", c[:-1], c + "_", "_" + c, "'%s'" % c, "'%s" % c, "(%s)" % c,
                         "[%s]" % c, c + "()", c + "=1", "." + c, c + " x", c + " 1 2", c + " nothing=1"):
                if len(name) > 1:
                    yield ["unknown", name]
        for name in ("end", "1", "17", "-1", "1.5", "True", "'x'", "[1]", "(1,)", "{1}", "{1:2}", "b'x'", "command", "self",
                     "end end", "sudoku", "shell", "__init__", "name=1", "command=3", "command=end", "loop_command", "%s",
                     "{}".format("{0}"), "None 1 2", "command=1 verbose=True"):
            yield ["unknown", name]


def signature(func):
    """[(name, has default, default)] of the parameters the user can give."""
    params = list(inspect.signature(func).parameters.values())
    return [(p.name, p.default is not p.empty, p.default) for p in params
            if p.name not in ("self", "cls")]


def answer(text, name, verbose, what):
    table = functions()
    func = table.get(name)
    lines = text.split("\n")
    first = lines[0]
    if not re.match(re.escape(name) + r"(\s|:|$)", first):
        fail("%s: the answer %r does not start with the command", what, first)
    if func is None:
        return
    given = " ".join(first[len(name):].split())
    params = signature(func)
    for p, has, default in params:
        if has:
            want = "%s=%s" % (p, default_text(default))
            if not re.search(r"(?<!\w)" + re.escape(want) + r"(?=[\s:,)\]]|$)", given):
                fail("%s: parameter %s is missing in %r", what, want, first)
        else:
            if not re.search(r"(?<!\w)" + re.escape(p) + r"(?!\w)(?!=)", given):
                fail("%s: parameter %s is missing in %r", what, p, first)
    # in the right order
    pos = [re.search(r"(?<!\w)" + re.escape(p) + r"(?!\w)", given).start() for p, has, d in params]
    if pos != sorted(pos):
        fail("%s: parameters in the wrong order: %r", what, first)
    doc = func.__doc__
    if doc:
        flat = " ".join(text.split())
        wanted = [x.strip() for x in doc.split("\n")] if verbose else [doc.split("\n")[0].strip()]
        at = 0
        for line in wanted:
            line = " ".join(line.split())
            if not line:
                continue
            k = flat.find(line, at)
            if k < 0:
                fail("%s: %r is missing in the help", what, line)
            at = k + len(line)
        # the documentation, and nothing else
        want = " ".join(" ".join(wanted).split())
        if not flat.endswith(want):
            fail("%s: the help ends with %r instead of %r", what, flat[-200:], want[-200:])


def default_text(value):
    return repr(value)


def ask(pre, line, st, errors=False):
    """Returns the answer to a line, checks that nothing is changed."""
    model = Model(True)
    for c in pre:
        model.line(c)
    tail = observers(min(5, len(model.stack)))
    model.take()
    for c in tail:
        model.line(c)
    want = model.take()
    what = "%r after %r" % (line, pre)
    res = session.run(pre + [line] + tail, True)
    if res.error or res.exit not in (None, 0):
        fail("%s: %s, exit status %r", what, res.error, res.exit)
    segs = segments(res)[1:]
    out, err = segs[len(pre)]
    got = "".join(o[:o.rfind("\n") + 1] for o, e in segs[len(pre) + 1:])
    if got != want and got != want + "\n":
        fail("%s: afterwards %r is shown instead of %r", what, got, want)
    if bool(err) != errors:
        fail("%s: error output %r", what, err)
    st.step(len(pre) + 1)
    st.state(line, tuple(pre))
    return out[:out.rfind("\n") + 1]


def check(case, st):
    m = case[0]
    if m == "general":
        text = ask(case[1], case[2], st)
        listed(text, case[2])
        st.outcome(text)
    elif m == "command":
        pre, name, form = case[1:]
        line = form % name
        text = ask(pre, line, st)
        answer(text, name, "False" not in form and not form.endswith("0"), line)
        st.outcome(text)
    elif m == "loop":
        name, n = case[1:]
        one = ask([], "help " + name, st)
        more = ask([], "loop %d; help %s; loop end" % (n, name), st)
        if more != one * n:
            fail("help %s in a loop: %r", name, more)
        if ask(["push"], "help %s; help %s" % (name, name), st) != one * 2:
            fail("help %s twice in a line differs", name)
        # non-interactive
        res = session.run(["help " + name, "stack"], False)
        if res.out != one + "stack has 0 sudokus\n" or res.err or res.exit or res.error:
            fail("help %s in a script: %r", name, (res.out, res.err, res.exit, res.error))
    elif m == "complete":
        for name in known_commands():
            text = ask([], "help " + name, st)
            answer(text, name, True, "help " + name)
    else:
        name = case[1]
        from sudokutools import shell
        if name in shell.COMMANDS or nothing(name):
            return
        text = ask(["push"], "help " + name, st, True)
        if text:
            fail("help %s answers %r", name, text)
        res = session.run(["help " + name, "stack"], False)
        if res.exit != 1 or res.out or res.error or not res.err:
            fail("help %s in a script: %r", name, (res.out, res.err, res.exit, res.error))
        st.outcome(name)


def nothing(name):
    """An empty argument asks for the general help."""
    try:
        return not literal_eval(name.split(" ")[0])
    except (ValueError, SyntaxError, TypeError):
        return False


def listed(text, what):
    names = []
    for line in text.split("\n"):
        found = re.match(r"\s+-\s+(\w+)(.*)", line)
        if found:
            names.append(found.group(1))
            answer(line.strip()[1:].strip(), found.group(1), False, what)
    wanted = known_commands()
    if sorted(names) != wanted:
        fail("%s lists %r instead of %r", what, sorted(names), wanted)
