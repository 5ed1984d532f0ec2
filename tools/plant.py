#!/usr/bin/env python3
"""Confirm planted bugs and see which checks catch them (not used by any check).

plant.py make SPEC.py [ID ...]   write and confirm seeded/<id> from a list BUGS of dicts
                                 (id, prop, edits [(file, old, new)], demo, needs, breaks)
plant.py try [--all] [ID ...]    run the quick check of the property (or all checks) against each bug
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TERM="dumb")


def copy():
    d = tempfile.mkdtemp(prefix="plant-")
    r = os.path.join(d, "repo")
    subprocess.check_call(["cp", "-a", "/repo", r])
    return d, r


def tests(repo):
    p = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "--timeout=120", "--doctest-modules",
                        "sudokutools"], cwd=repo, env=ENV, capture_output=True, text=True)
    return p.returncode == 0, p.stdout[-600:]


def demo(folder, repo):
    """The demo from a folder with another path."""
    d = tempfile.mkdtemp(prefix="demo-")
    try:
        for f in os.listdir(folder):
            if f not in ("meta.json", "patch.diff"):
                shutil.copy(os.path.join(folder, f), d)
        p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, env=ENV, capture_output=True, text=True, timeout=300)
        return p.returncode, (p.stdout + p.stderr)[-600:]
    finally:
        shutil.rmtree(d)


def make(bug):
    d, repo = copy()
    try:
        folder = os.path.join(SEEDED, bug["id"])
        for name, old, new in bug["edits"]:
            path = os.path.join(repo, name)
            s = open(path).read()
            if s.count(old) != 1:
                return "%s: %d matches of %r" % (bug["id"], s.count(old), old[:60])
            open(path, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=repo, text=True)
        os.makedirs(folder, exist_ok=True)
        open(os.path.join(folder, "patch.diff"), "w").write(diff)
        open(os.path.join(folder, "demo.py"), "w").write("import os\nimport sys\nsys.path.insert(0, os.getcwd())\n" + bug["demo"].lstrip("\n"))
        open(os.path.join(folder, "demo.sh"), "w").write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(folder, "meta.json"), "w"), indent=1)
        ok, text = tests(repo)
        bad, t1 = demo(folder, repo)
        good, t0 = demo(folder, "/repo")
        if ok and bad and not good:
            return None
        shutil.rmtree(folder)
        return "%s: tests %s, demo with the change %d, without %d\n%s\n%s\n%s" % (
            bug["id"], ok, bad, good, "" if ok else text, "" if bad else t1, t0 if good else "")
    finally:
        shutil.rmtree(d)


def attempt(bid, every):
    d, repo = copy()
    try:
        meta = json.load(open(os.path.join(SEEDED, bid, "meta.json")))
        subprocess.check_call(["git", "apply", os.path.join(SEEDED, bid, "patch.diff")], cwd=repo)
        ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))] if every else [meta["property"]]
        res = []
        for pid in ids:
            p = subprocess.run([os.path.join(HERE, "check"), pid, "quick"], cwd=HERE,
                               env=dict(ENV, MC_REPO=repo, MC_EVIDENCE=os.path.join(d, "evidence")), capture_output=True, text=True)
            hit = p.returncode == 1 and re.search("VIOLATION property=%s" % pid, p.stdout)
            if hit:
                res.append(pid)
            elif p.returncode:
                res.append(pid + ":EXIT%d" % p.returncode)
        return bid, meta["property"], res
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[2:]
    if sys.argv[1] == "make":
        ns = {}
        exec(open(args[0]).read(), ns)
        bugs = [b for b in ns["BUGS"] if not args[1:] or b["id"] in args[1:]]
        with ThreadPoolExecutor(4) as ex:
            for b, msg in zip(bugs, ex.map(make, bugs)):
                print("ok " + b["id"] if msg is None else "FAILED " + msg, flush=True)
    else:
        every = "--all" in args
        ids = [a for a in args if a != "--all"] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(2) as ex:
            for bid, prop, res in ex.map(lambda b: attempt(b, every), ids):
                print("%-28s %s %s %s" % (bid, prop, "caught" if prop in res else "MISSED", " ".join(res)), flush=True)


main()
