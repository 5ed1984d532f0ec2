"""Explorer framework: bounded exhaustive exploration of sudokutools.

A check module (mc/checks/cNN.py) provides

    ID        property id
    RULE      how the explored space is made
    BOUNDS    dict tier -> text describing the bounds
    units(tier)       -> list of JSON-able units (a unit is a finite sub-space)
    cases(unit)       -> generator of JSON-able cases, in a fixed order
    check(case, st)   -> runs the case against the real code and the reference
                         model, raises Violation if they disagree

Every unit is explored in a freshly forked process in which no function of
sudokutools has been called before, so the history the library has seen is
exactly the list of cases before the failing one. A violation is therefore
replayable: first the case alone is tried in a fresh process, then the cases
of its unit up to it.
"""
import gc
import importlib
import io
import json
import mmap
import os
import pickle
import resource
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
EVIDENCE = os.environ.get("MC_EVIDENCE", os.path.join(VERIF, "evidence"))
MEM_LIMIT = 3 << 30
CASE_CPU = 30.0            # CPU seconds a single case may take before it counts as a hang
UNIT_STALL = 240.0         # wall seconds without a finished case before a worker is given up
DEADLINE = {"quick": 780.0, "thorough": 6 * 3600.0}


class Violation(Exception):
    """The implementation disagrees with the reference model."""


class Hang(BaseException):
    """A case used up its CPU time."""


class Stats(object):
    def __init__(self):
        self.cases = 0
        self.transitions = 0
        self._states = set()
        self._outcomes = set()
        self.samples = []
        self.known = {}
        self.notes = {}

    def state(self, *key):
        """Record a (reference model) state or input."""
        self._states.add(hash(key))

    def step(self, n=1):
        """Record n operations of the implementation compared with the model."""
        self.transitions += n

    def outcome(self, *key):
        """Record an observed outcome (to show that the exploration is not vacuous)."""
        if len(self._outcomes) < 200000:
            self._outcomes.add(hash(key))

    def sample(self, case, result=None):
        if len(self.samples) < 3:
            self.samples.append({"case": case, "result": result})

    def known_finding(self, fid, key):
        self.known.setdefault(fid, set()).add(str(key))

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n


# --------------------------------------------------------------------- guards
def _alarm(signum, frame):
    raise Hang("case exceeded %d CPU seconds" % CASE_CPU)


def arm(seconds=None):
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds or CASE_CPU, 2.0)


def disarm():
    signal.setitimer(signal.ITIMER_VIRTUAL, 0, 0)


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for f in reversed(tb):
        if "/sudokutools/" in f.filename:
            where = " at %s:%d" % (os.path.basename(f.filename), f.lineno)
            break
    return "%s: %s%s" % (type(exc).__name__, str(exc)[:2000], where)


def run_case(mod, case, st):
    """Returns None or a message describing the violation."""
    arm(getattr(mod, "CASE_CPU", None))
    out, err, inp = sys.stdout, sys.stderr, sys.stdin
    try:
        mod.check(case, st)
        return None
    except Violation as e:
        return str(e)
    except Hang as e:
        return "does not terminate (%s)" % e
    except MemoryError:
        return "uses up all memory"
    except KeyboardInterrupt as e:
        return "KeyboardInterrupt escaped: " + describe(e)
    except SystemExit as e:
        return "SystemExit escaped: " + describe(e)
    except Exception as e:
        return "unexpected " + describe(e)
    finally:
        disarm()
        sys.stdout, sys.stderr, sys.stdin = out, err, inp


def setup_worker():
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass
    fd = os.open("/dev/null", os.O_RDONLY)
    os.dup2(fd, 0)
    os.close(fd)


def _work(mod, unit, shm, only=None, upto=None):
    """Explore a unit, return a result dict."""
    st = Stats()
    bad = None
    gc.collect()
    gc.freeze()
    gc.set_threshold(20000, 50, 100)
    if only is not None:
        msg = run_case(mod, only, st)
        if msg:
            bad = (0, only, msg)
        st.cases = 1
    else:
        for i, case in enumerate(mod.cases(unit)):
            if upto is not None and i > upto:
                break
            if not i & 15:
                struct.pack_into("=q", shm, 0, i)
            if i < 2:
                st.sample(case)
            msg = run_case(mod, case, st)
            st.cases += 1
            if msg:
                bad = (i, case, msg)
                break
    return {"bad": bad, "cases": st.cases, "transitions": st.transitions,
            "states": list(st._states), "outcomes": list(st._outcomes),
            "samples": st.samples, "known": {k: sorted(v) for k, v in st.known.items()},
            "notes": st.notes}


class Worker(object):
    """A forked process exploring one unit."""

    def __init__(self, mod, index, unit, only=None, upto=None):
        self.index, self.unit = index, unit
        self.shm = mmap.mmap(-1, 8)
        self.last, self.last_time = -1, time.time()
        self.data = b""
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(r)
                os.setpgid(0, 0)
                setup_worker()
                try:
                    res = _work(mod, unit, self.shm, only, upto)
                except BaseException as e:
                    res = {"error": describe(e) + "\n" + traceback.format_exc()}
                with os.fdopen(w, "wb") as f:
                    pickle.dump(res, f, pickle.HIGHEST_PROTOCOL)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        self.fd = r

    def progress(self):
        cur = struct.unpack_from("=q", self.shm, 0)[0]
        if cur != self.last:
            self.last, self.last_time = cur, time.time()
        return time.time() - self.last_time

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass

    def close(self):
        os.close(self.fd)
        os.waitpid(self.pid, 0)

    def result(self):
        try:
            return pickle.loads(self.data)
        except Exception:
            return None


def run_units(mod, units, jobs, deadline, handle):
    """Run all units, calling handle(worker, result); stops if it returns True."""
    todo = list(enumerate(units))
    todo.reverse()
    active = {}
    complete = True
    stop = False
    while (todo or active) and not stop:
        if time.time() > deadline:
            complete = False
            break
        while todo and len(active) < jobs:
            i, u = todo.pop()
            w = Worker(mod, i, u)
            active[w.fd] = w
        ready, _, _ = select.select(list(active), [], [], 1.0)
        for fd in ready:
            w = active[fd]
            chunk = os.read(fd, 1 << 20)
            if chunk:
                w.data += chunk
                continue
            del active[fd]
            w.close()
            if handle(w, w.result()):
                stop = True
        for fd, w in list(active.items()):
            if fd not in ready and not w.data and w.progress() > UNIT_STALL:
                w.kill()
                w.close()
                del active[fd]
                if handle(w, {"stalled": w.last}):
                    stop = True
    for w in active.values():
        w.kill()
        w.close()
    return complete and not stop


def run_single(mod, unit, only=None, upto=None, limit=300):
    w = Worker(mod, 0, unit, only, upto)
    end = time.time() + limit
    while True:
        ready, _, _ = select.select([w.fd], [], [], max(0.0, min(1.0, end - time.time())))
        if ready:
            chunk = os.read(w.fd, 1 << 20)
            if not chunk:
                break
            w.data += chunk
        elif time.time() > end:
            w.kill()
            break
    w.close()
    return w.result()


# ------------------------------------------------------------- known findings
def known_findings(pid):
    """Returns {finding id: (set of inputs, text)} for a property."""
    path = os.path.join(VERIF, "known-findings.txt")
    res = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("finding: property=%s " % pid):
                    fields = line.rstrip("\n").split(" ", 4)
                    fid = fields[2].split("=", 1)[1]
                    inputs = set(fields[3].split("=", 1)[1].split(","))
                    res[fid] = (inputs, fields[4])
    return res


# ----------------------------------------------------------------------- main
def find_library():
    import sudokutools
    path = os.path.realpath(sudokutools.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        sys.stderr.write("sudokutools is imported from %s, not from %s\n" % (path, REPO))
        sys.exit(2)
    return path


def preload():
    import sudokutools
    import sudokutools.sudoku, sudokutools.solve, sudokutools.dlx, sudokutools.solvers
    import sudokutools.analyze, sudokutools.generate, sudokutools.notation
    import sudokutools.actions, sudokutools.coordinates, sudokutools.shell


def write_replay(pid, data):
    d = os.path.join(EVIDENCE, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % pid)
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    return path


def violation(pid, path, message):
    print("property %s violated: %s" % (pid, message))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    sys.stdout.flush()


def check_main(pid, tier, jobs, verbose=False, only_units=None):
    start = time.time()
    try:
        find_library()
        preload()
    except Exception as e:
        # A library that cannot be imported breaks every property.
        path = write_replay(pid, {"property": pid, "mode": "import", "message": describe(e)})
        violation(pid, path, "sudokutools cannot be imported: " + describe(e))
        write_evidence(pid, None, tier, start, [], {"violations": 1}, False)
        return 1

    mod = importlib.import_module("mc.checks." + pid.lower())
    units = mod.units(tier)
    if only_units is not None:
        units = [u for u in units if only_units in json.dumps(u)]
    total = {"cases": 0, "transitions": 0, "states": set(), "outcomes": set(),
             "samples": [], "known": {}, "notes": {}, "units": 0, "violations": 0}
    found = []
    errors = []
    t_units = []

    def handle(w, res):
        if res is None or "stalled" in res:
            # died without an answer or stuck in a case: that is what the code does.
            idx = max(0, w.last if res is None else res["stalled"])
            if res is None:
                w.progress()
                idx = max(0, w.last)
            found.append((w.index, idx, w.unit, None,
                          "the process exploring the case died or made no progress"))
            return True
        if "error" in res:
            errors.append((w.unit, res["error"]))
            return True
        total["units"] += 1
        for k in ("cases", "transitions"):
            total[k] += res[k]
        total["states"].update(res["states"])
        total["outcomes"].update(res["outcomes"])
        if len(total["samples"]) < 6:
            total["samples"].extend(res["samples"][:2])
        for k, v in res["known"].items():
            total["known"].setdefault(k, set()).update(v)
        for k, v in res["notes"].items():
            total["notes"][k] = total["notes"].get(k, 0) + v
        if verbose:
            print("  unit %d %s: %d cases %.1fs" % (
                w.index, json.dumps(w.unit)[:90], res["cases"], time.time() - start))
            sys.stdout.flush()
        if res["bad"]:
            i, case, msg = res["bad"]
            found.append((w.index, i, w.unit, case, msg))
            return True
        return False

    complete = run_units(mod, units, jobs, start + DEADLINE[tier], handle)

    if errors and not found:
        # The generator of the cases itself failed. It calls the library only
        # to build inputs, so a failure there is a failure of the library too.
        unit, msg = errors[0]
        found.append((0, 0, unit, None, "exploration failed: " + msg))

    rc = 0
    if found:
        found.sort(key=lambda f: (f[0], f[1]))
        _, i, unit, case, msg = found[0]
        data = {"property": pid, "unit": unit, "index": i, "message": msg, "tier": tier}
        data["mode"] = "prefix"
        if case is not None:
            data["case"] = case
            res = run_single(mod, unit, only=case)
            if res and res.get("bad"):
                data["mode"] = "case"
                data["message"] = msg = res["bad"][2]
        data["replay"] = "cd %s && ./check --replay %s" % (
            VERIF, os.path.join("evidence", "replay", "%s.json" % pid))
        path = write_replay(pid, data)
        if case is not None:
            print("failing case: %s" % json.dumps(case)[:1500])
        violation(pid, path, msg)
        total["violations"] = 1
        rc = 1
    else:
        for fid, (inputs, text) in sorted(known_findings(pid).items()):
            if total["known"].get(fid):
                print("KNOWN-FINDING: property=%s %s (%d listed inputs, %d still failing)" % (
                    pid, text, len(inputs), len(total["known"][fid])))
    write_evidence(pid, mod, tier, start, units, total, complete)
    print("%s %s: units=%d/%d traces=%d states=%d transitions=%d outcomes=%d complete=%s %.1fs" % (
        pid, tier, total["units"], len(units), total["cases"], len(total["states"]),
        total["transitions"], len(total["outcomes"]), complete, time.time() - start))
    return rc


def write_evidence(pid, mod, tier, start, units, total, complete):
    os.makedirs(EVIDENCE, exist_ok=True)
    cov = {
        "states": len(total.get("states", ())),
        "transitions": total.get("transitions", 0),
        "traces_validated_against_impl": total.get("cases", 0),
        "distinct_outcomes": len(total.get("outcomes", ())),
        "units_explored": total.get("units", 0),
        "units_total": len(units),
        "samples": total.get("samples", [])[:6] or ["none: the library could not be imported"],
        "exhaustive": bool(complete),
    }
    if mod is not None:
        cov["rule"] = mod.RULE
        cov["bounds"] = mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS
    if total.get("notes"):
        cov["counters"] = total["notes"]
    if total.get("known"):
        cov["known_findings_seen"] = {k: len(v) for k, v in total["known"].items()}
    data = {
        "property": pid, "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "model_checking",
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())) + [
            "CPython of the build environment with PYTHONHASHSEED fixed; behaviour outside the stated bounds is not covered"],
        "wall_s": round(time.time() - start, 2),
        "violations": total.get("violations", 0),
    }
    path = os.path.join(EVIDENCE, "%s.json" % pid)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, path)


def replay_main(path):
    with open(path) as f:
        data = json.load(f)
    pid = data["property"]
    try:
        find_library()
        preload()
    except Exception as e:
        violation(pid, path, "sudokutools cannot be imported: " + describe(e))
        return 1
    if data["mode"] == "import":
        print("sudokutools can be imported")
        return 0
    mod = importlib.import_module("mc.checks." + pid.lower())
    if data["mode"] == "case":
        res = run_single(mod, data["unit"], only=data["case"])
    else:
        res = run_single(mod, data["unit"], upto=data["index"] + 16)
    if res is None or "error" in res or res["bad"]:
        violation(pid, path, res["bad"][2] if res and res.get("bad") else str(res))
        return 1
    print("not reproduced: property=%s" % pid)
    return 0
