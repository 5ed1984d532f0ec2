COMMON = ("Exhaustive within the bounds recorded in the evidence file; assumes the reference model in "
          "mc/ref.py (written from the rules, not from the code) and CPython of this environment. "
          "Every explored trace is executed on the real code of /repo.")
NOTES = {
 "C01": ("bounded exhaustive enumeration of sudokus, real solvers vs reference enumeration",
         "Every sudoku of the stated families is solved by both solvers; the complete solution streams equal the independently enumerated set."),
 "C02": ("exhaustive enumeration of operation interleavings on real solution streams",
         "Every sequence of stream requests, mutations, other solver calls up to the bound leaves all streams unaffected."),
 "C03": ("bounded exhaustive enumeration of sudokus against a reference model",
         "is_unique / is_solved / find_conflicts equal their definition on every sudoku of the families."),
 "C04": ("bounded exhaustive enumeration of sudokus and stored candidates against a reference model",
         "calc_candidates / init_candidates equal their definition for every field of every sudoku of the families."),
 "C05": ("explicit-state exploration of all orders of solving steps on the real code",
         "All orders in which found steps can be applied (bounded) are explored from every start sudoku; each step is checked against the full solution set."),
 "C06": ("bounded exhaustive enumeration of candidate states against pattern definitions",
         "On every explored state the steps found by each technique equal the independently enumerated patterns."),
 "C07": ("explicit-state exploration of solving steps, exact state difference per transition",
         "Every step found in every explored state is applied and the complete difference of states is compared with its description."),
 "C08": ("bounded exhaustive enumeration of sudokus, step-wise solving replayed and checked",
         "solve() is run on every sudoku of the families; termination, result and replay of the reported steps are checked."),
 "C09": ("bounded exhaustive enumeration of sudokus, rating compared with the reported steps",
         "rate() and score() are compared with the steps reported by solve(); one recorded finding (score bound) is listed in known-findings.txt."),
 "C10": ("stateless model checking of all random choices (complete up to 4x4, bounded deviations above)",
         "All random decisions become enumerable choice points; every outcome within the bounds is generated on the real code and checked."),
 "C11": ("stateless model checking of all random choices and scripted attempts",
         "All random decisions and all sequences of succeeding / failing attempts within the bounds are run on the real code."),
 "C12": ("bounded exhaustive enumeration of sudokus and texts, real encoder and decoder against each other and a reader",
         "Every state of the families is encoded and decoded with every separator configuration; every whitespace position, empty mark and field count within the bounds is tried."),
 "C13": ("explicit-state exploration of operation sequences against a dictionary model",
         "Every sequence of operations on three aliased registers up to the bound is executed and all accessors are compared with the model."),
 "C14": ("bounded exhaustive enumeration of box sizes, fields and call sequences",
         "Every box size, field and flag within the bound is compared with the definition; pairs of calls with the first result changed in between."),
 "C15": ("bounded exhaustive enumeration of states and formatting options with an independent parser",
         "Every printed text within the bounds is parsed independently and must give back numbers, candidates and layout."),
 "C16": ("bounded exhaustive enumeration of field sets and notations",
         "Every field set within the bounds is encoded in every notation and separator pair and decoded again."),
 "C17": ("exhaustive enumeration of texts up to a length against an independent reader",
         "Every text over the alphabets up to the bound and every edit of base texts is decoded and compared with an independent reader."),
 "C18": ("exhaustive enumeration of actions, states and texts up to a length against an independent reader",
         "Every action is written, read and executed; every text up to the bound is compared with an independent reader."),
 "C19": ("explicit-state exploration of command sequences of the real shell against a model",
         "Every command sequence up to the bound runs through the real shell; complete output, exit status and final state equal the model's."),
 "C20": ("explicit-state exploration of command and loop sequences of the real shell against a model",
         "Every sequence up to the bound runs through the real shell and through a model in which loops are unrolled."),
 "C21": ("exhaustive enumeration of scripts x layouts x channels on the real shell and program",
         "Every script up to the bound in every layout gives the output of the plain script; a subset runs as processes on every channel."),
 "C22": ("exhaustive fault enumeration: every failing command at every position of every sequence",
         "Every failing command at every position of every session up to the bound is reported, leaves the state unchanged and has the right exit status."),
 "C23": ("exhaustive fault enumeration: keyboard interrupt at every input request, output and executed line of code",
         "Every interrupt point (and pairs of them) of every session up to the bound is taken on the real shell; the rest of the session equals the model's."),
 "C24": ("exhaustive enumeration of help arguments in the reachable states of small sessions",
         "Every command, option form and non-command name up to the bound is asked for; answers are compared with the functions behind the commands."),
 "C25": ("explicit-state exploration of game histories on the real game shell",
         "Every sequence of moves, undo, redo and neutral commands up to the bound is played; the boards shown follow a list with a position."),
 "C26": ("explicit-state exploration of game command sequences and exhaustive enumeration of input lines",
         "Every sequence of game commands and every line over the alphabets up to the bound is played; boards and messages equal an independent model of the game."),
 "C27": ("stateless model checking of two-thread schedules with bounded preemptions under a controlled scheduler",
         "Every schedule with one (two) preemptions at line granularity within the bounds is run on the real code; each call returns what it returns alone."),
 "C28": ("exhaustive enumeration of call histories and of processes with different hash seeds",
         "Every history up to the bound ends with the result the call gives as the first one; all processes give the same results."),
 "C29": ("explicit-state exploration of game command sequences under every combination of the automatic settings",
         "Every sequence up to the bound is played with every combination of settings; boards and reports equal an independent model."),
 "C30": ("explicit-state exploration of solving states with exhaustive pairwise comparison of all steps found",
         "Every step of every explored state is printed, rebuilt from its repr and applied in every form; all pairs within the bounds are compared."),
 "C31": ("stateless exploration of the generators over all outcomes of their random choices within bounds",
         "Every explored outcome with enough filled fields is irreducible; the set of all explored outcomes contains every arrangement demanded."),
 "C32": ("stateless exploration of new games over random choices of the generator and orders of moves",
         "Every explored game is checked from its announced rating to its solution and back on the real shell with the real generator, solver and rating."),
 "C33": ("complete enumeration of families of nearly empty sudokus with a bound on the CPU time of every answer",
         "Every sudoku of the families is answered correctly within the bound by every function which does not need all solutions."),
 "C34": ("fault injection enumerated over all lines executed by a call, all uses of callbacks and iterables and all positions of streams, on the real code",
         "After every explored interruption the exception has arrived, the arguments are as they were and later calls give what they give in a fresh process."),
 "C35": ("stateless exploration of the schedules of two threads reading the same sudoku under a controlled scheduler with bounded preemptions, and observation of the sudoku at every line",
         "On every explored schedule both calls return what they return alone; at every executed line the shared sudoku reads as before."),
}
