#!/opt/venv/bin/python
"""Write DESIGN.md from tools/design_head.md, the checks' own RULE / BOUNDS, the notes below,
known-findings.txt and the seeded changes, so that the document stays in step with the checks.

usage: tools/mkdesign.py        (run in /verif)"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, "/repo"]

# per property: oracle, why this reaches what tests cannot, decisions and limits, quick time in s (8 cores)
P = {
 "C01": ("`mc/ref.py` enumerates all completions by plain backtracking over definition-level peers (shared with neither solver).",
         "the complete solution *multiset* of every sudoku of a family is compared, not the first solution of a sample; families include conflicting, complete, empty, non-square, 1xN, out-of-range and 'poisoned candidates' variants, and several shapes of the same length solved in turn in one process (cover caches).",
         "Numbers outside the range of the sudoku (5 in a 4x4) count as 'cannot be completed'.", 19),
 "C02": ("the stream of solutions of an undisturbed run of the same solver (itself checked by C01).",
         "all interleavings of next() on up to three streams, mutations of delivered solutions / the original (spoiled, filled, emptied), copies and other solver calls are executed; a test drains one stream.",
         "Changing the original *before* the first next() is left open by the statement (generators are lazy), so it is never done.", 25),
 "C03": ("definitions over `ref.peers`, number of completions counted by `mc/ref.py`.",
         "complete families incl. every 2-field conflict and duplicate; a missed pair or a wrong uniqueness verdict needs a particular shape or coincidence.", "", 20),
 "C04": ("definition: numbers absent from the peers / the number itself.",
         "all fields of all sudokus of the families with adversarial stored candidates in turn.", "", 8),
 "C05": ("set of all solutions from `mc/ref.py`; each state: filled numbers and removed candidates against it.",
         "the *order* in which steps are applied, lazy searching while applying, rare techniques (every technique on the way to the solution of the sudokus of rare.txt), suspended searches and late application span a state graph; a technique which is unsound only in a state reached after other eliminations is invisible to a test of its first step.",
         "Brute force steps are excluded by the statement.", 58),
 "C06": ("independent definition of each pattern (subsets of fields of a unit / of rows and columns), compared as sets with the steps found.",
         "all 16^4 candidate assignments of a unit and all single-number patterns of a 4x4 sudoku are decided, i.e. every pattern the technique can meet there; on 9x9, patterns of every size (tuples, fish, cycles of wings) are placed in every unit.",
         "A naked tuple lying in two units is reported once (accepted). HiddenSingle is compared exactly only on states containing a solution, because the code looks at calculated rather than stored candidates elsewhere.", 75),
 "C07": ("complete difference of all numbers and candidates before/after, computed from the step's own description (values, affected).",
         "every step of every explored state, applied to copies, to the original, twice, and late (after other steps).", "", 60),
 "C08": ("reference solver for 'has a solution'; reported steps are replayed on a copy of the original.",
         "termination is checked by a budget on steps and CPU time for *every* sudoku of the families, incl. contradictory ones on which the original code looped for ever.", "", 11),
 "C09": ("difficulty values read from the documented table in properties.jsonl, summed over the steps solve() reports.",
         "all solvable sudokus of the families, called in both orders, twice, interleaved with other sudokus (caches); on the way to the solution of the sudokus of rare.txt every technique is used; the reported steps are replayed, and wherever the technique changes all techniques of a lower value are asked and must find nothing.",
         "Score above 10 per empty field for some ambiguous 4x4 sudokus is a genuine finding that is recorded, not repaired (a repair would have to change the rating scale); listed input by input.", 22),
 "C10": ("independent solver for uniqueness; symmetry of the pattern from its definition.",
         "random.shuffle/choice/... are replaced at the level of random numbers drawn; each draw is a choice point of a stateless search, so *all* outcomes are visited for N<=2 and all outcomes within 1-2 deviations from several policies above.", "", 12),
 "C11": ("independent solver; template pattern; model of 'some attempt succeeds'.",
         "all outcomes for N<=6; every sequence of failing/succeeding attempts is scripted.",
         "", 5),
 "C12": ("the original state (round trip) and an independent reader for whitespace/marks/counts.",
         "complete states for the smallest sizes, every white space position, every BMP character as mark.",
         "Multi-character separators which consist of white space only are used only with identical row separators (the statement asks for a distinguishable separator).", 22),
 "C13": ("dictionary model of three registers.",
         "all sequences of operations incl. mutation of containers passed in and handed out (aliasing needs a sequence of three operations to show).", "", 40),
 "C14": ("arithmetical definition.", "all box sizes up to a bound, and pairs of calls with the first result mutated (caches handed out).", "", 6),
 "C15": ("independent parser of the printed box drawing.", "full product of options x shapes x candidates.", "", 4),
 "C16": ("the set of fields itself.", "all 65535 subsets of 4x4; all small subsets of others, all separators.", "", 30),
 "C17": ("independent recursive reader `mc/refnot.py`.", "every text up to a length: accept/reject and value.",
         "", 9),
 "C18": ("independent reader; complete expected state after execution.", "every action on every field set; every text up to a length.",
         "Unicode digits, signs and underscores in action numbers are left open. `r1c1=0` leaves candidates {0} - accepted, nothing documented.", 5),
 "C19": ("model of the shell in `mc/session.py`: it parses commands independently and calls library functions on own copies; stack is a list.",
         "all sequences up to a depth, complete output compared; then observers print the whole hidden state.",
         "`clear` may write its escape sequence (it is removed before comparing). `set 0 0 push` stores a function object, `set_candidates` accepts anything - not asserted.", 17),
 "C20": ("the same session with loops unrolled (run on the real shell and on the model).", "all sequences of loop commands incl. malformed and nested ones, and large counts.", "", 17),
 "C21": ("the plain script (one command per line) on the model.", "scripts x layouts x channels; wraps at every position; terminal sessions via a pty.",
         "A wrap directly before a space loses the space, two spaces between arguments and a trailing ';' are errors: taken as given.", 35),
 "C22": ("the model session without the failing command.", "each of about 100 failing commands at every position and in every context: a state damaged by a failure only shows in the commands after it.",
         "", 21),
 "C23": ("model in which exactly the unfinished line is lost.", "an interrupt at every request, output, prompt and executed *library* line (via a trace function), pairs of interrupts; real SIGINT to processes.",
         "Line-level interrupts within shell.py itself are not taken (an interrupt between two statements of the main loop ends any Python program).", 35),
 "C24": ("inspect.signature / docstring of the function behind the command.", "every command, every option form, all non-commands up to a length, in every reachable small session.",
         "`help 0`, `help ''`, `help set()` show the general help; `help command=new` is an error: taken as given.", 2),
 "C25": ("list of boards with a position.", "all sequences of moves/undo/redo and neutral commands up to a depth; walks to 1025 moves.",
         "A move which only changes hidden candidates of a filled field may create an undo step without a visible change (board comparison is on what is shown). generate/rate/bruteforce are replaced by fixed stubs so that a game is a function of its input.", 56),
 "C26": ("independent game model `mc/game.py` with its own rules for mistakes, conflicts and auto-removal.", "all sequences of commands, all lines over an alphabet.",
         "GameShell ends on EOF with EOFError and has no exit or help command: taken as given. Out-of-range numbers are accepted by the game.", 60),
 "C27": ("the result of each call on its own.",
         "the second call is started at *every* line of the first one (one preemption) and stopped at lines of its own (two), by a trace function "
         "which hands over control; a shared buffer or cache is only visible in a few of these schedules. No lock or sleep of the "
         "operating system's scheduler is involved, so a schedule can be replayed.",
         "Granularity is the line, not the bytecode. Random numbers are a function of the call (per thread), because the random module itself "
         "is shared by design.", 75),
 "C28": ("the result of the call as the first one in a forked process; for processes the one with hash seed 0.",
         "all ordered pairs and many triples of calls, so that any state one call leaves for another is met; hash seeds are enumerated, not left to chance.",
         "Time and environment variables other than the hash seed are not varied.", 30),
 "C29": ("model of automatic actions carried out until nothing more follows, on top of the model of C26.",
         "all combinations of settings, all sequences of moves up to a length, on boards on which automatic actions follow from each other.",
         "`autocheck`, `autoconflicts`, `dim` and `rating` are described by the game but not implemented: nothing is claimed about them. After "
         "`candidates` nothing is claimed about automatic actions. With contradictory boards autoset depends on the order of fields: such "
         "sequences are checked up to the contradiction only. Moves are right after a field was cleared: a cleared field holds candidate 0, which is never set.", 42),
 "C30": ("tuples (clues, affected, values) sorted by the harness; application of rebuilt steps compared by complete state.",
         "every step of every technique in every explored state, all pairs of them, all orders and kinds of containers.",
         "Equality of steps of *different* techniques with the same fields is left open (they do compare equal), hashing too (steps are unhashable).", 42),
 "C31": ("independent solver; the sets of arrangements and fields by definition.",
         "an impossible outcome is a statement about the set of *all* outcomes, which only exhaustive exploration of the random choices can decide.",
         "'Possible' is decided within the explored choices: all of them for small boxes, otherwise up to one deviation from a growing number of policies "
         "(a missing outcome is reported only after all of these). Nothing is said about probabilities.", 19),
 "C32": ("the model of C26 (C29 with settings) started from the numbers shown; independent solver; rate() of a sudoku rebuilt from the numbers shown.",
         "the generator's random choices are enumerated, so the games explored differ in every respect a generated sudoku can; the oracle needs only what is shown.",
         "`dim` and `rating` among the settings have no effect: not claimed. Orders of entering the numbers: eight permutations per game, not all.", 45),
 "C33": ("definition of a completion; the families are made so that there are many solutions, or none, by construction.",
         "every member of the family is run, under a CPU limit about a hundred times what it takes now (and, for the functions concerned, far below what listing the solutions takes).",
         "The brute-force solver takes very long if a number has no place but every field has candidates: this is its nature and nothing is claimed. Orders of growth are not claimed.", 45),
"C34": ("the same call without interruption, in the same process before; snapshots of numbers and candidates through the public interface.",
         "a trace function raises at the k-th executed line for every k; callbacks and iterables count their uses.",
         "Which lines there are is found out at run time, so the check follows the code. Candidates of a sudoku whose change was interrupted are not judged (they may be partly changed), nor is a step object whose application was interrupted. Interrupts inside C functions of the interpreter are not explored.", 60),
"C35": ("the same call alone; the numbers and candidates before the call.",
         "the scheduler decides at which line the second thread runs; a trace function reads the whole sudoku at every line.",
         "Preemptions inside C functions of the interpreter are not explored. Calls which change a sudoku while another one reads it: nothing is claimed (streams: C02).", 60),
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    out = [open(os.path.join(HERE, "tools/design_head.md")).read().rstrip(), "", "## Properties", ""]
    for p in props:
        m = importlib.import_module("mc.checks.%s" % p["id"].lower())
        oracle, why, dec, sec = P[p["id"]]
        out += ["### %s: %s" % (p["id"], p["title"]), "",
                "- **Enumerated**: " + m.RULE + ".",
                "- **Bounds (quick)**: " + m.BOUNDS["quick"] + ". About %d s." % sec,
                "- **Bounds (thorough)**: " + m.BOUNDS["thorough"] + ".",
                "- **Oracle**: " + oracle,
                "- **Why not tests**: " + why]
        if dec:
            out.append("- **Decisions and limits**: " + dec)
        out.append("")
    na = man.get("not_applicable") or []
    out += ["## Not applicable", ""] + (["- %s: %s" % (x["property"], x["reason"]) for x in na] or
            ["No property of the list is out of reach of the technique; what the bounds leave out is said above."]) + [""]
    out += ["## Genuine defects found", "", "Repaired in /repo (one `fix:` commit each):", ""]
    for line in open(os.path.join(HERE, "known-findings.txt")):
        if line.startswith("fixed: "):
            out.append("- " + line[7:].strip())
    out += ["", "Recorded, not repaired (`known-findings.txt`):", "",
            "- C09 score-above-bound: `score()` exceeds ten per empty field for ambiguous 4x4 sudokus whose solving takes more "
            "candidate-removing steps than there are empty fields. No small repair: either the documented bound or the scale would change.", ""]
    out += ["## Planted changes", "",
            "Each lies in `seeded/<id>` (patch, demonstration, meta). All pass the existing tests. `tools/plant.py try` applies "
            "each and runs the check; 'missed first' means that the check was strengthened because of it.", "",
            "| change | property | needs | caught by |", "|---|---|---|---|"]
    missed = set((open(os.path.join(HERE, "tools/missed.txt")).read().split())
                 if os.path.exists(os.path.join(HERE, "tools/missed.txt")) else [])
    caught = {}
    cf = os.path.join(HERE, "tools/caught.txt")
    if os.path.exists(cf):
        for line in open(cf):
            k, _, v = line.strip().partition(" ")
            caught[k] = v
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        f = os.path.join(HERE, "seeded", d, "meta.json")
        if os.path.exists(f):
            me = json.load(open(f))
            need = me["needs"] if isinstance(me["needs"], str) else "; ".join(me["needs"])
            c = caught.get(d, me["property"])
            out.append("| %s | %s | %s | %s%s |" % (d, me["property"], need.replace("|", "/").replace("\n", " "), c,
                                                   " (missed first)" if d in missed else ""))
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")


main()
