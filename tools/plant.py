"""Development tool: turns bug definitions (a Python file with BUGS = [...]) into /verif/seeded/<id>/ and validates them in scratch copies.
   plant.py DEFS.py [ids...]   each bug: dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)
A demo runs with cwd at the repository and gets `work`, a scratch directory it is moved to; it must raise/exit non-zero if the bug shows."""
import concurrent.futures as cf
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
PY = "/opt/venv/bin/python"
BASE = "25186ea"
DEMO_SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
exec env MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 %s "$here/demo.py"
""" % PY
PRELUDE = """import contextlib, io, os, random, shutil, sys, tempfile
REPO = os.getcwd()
sys.path.insert(0, REPO)
work = tempfile.mkdtemp(prefix="demo-")
os.chdir(work)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def main():
%s

try:
    main()
finally:
    os.chdir("/")
    shutil.rmtree(work, ignore_errors=True)
print("ok")
"""


def original_lines(copy, diff):
    """Are all removed/changed places lines of the original repository?"""
    bad = []
    for f, old in re.findall(r"^--- a/(\S+)\n\+\+\+ .*\n((?:.*\n)*?)(?=diff |\Z)", diff, re.M):
        blame = subprocess.run(["git", "-C", "/repo", "blame", "-w", "-s", "-l", "HEAD", "--", f], capture_output=True, text=True).stdout.splitlines()
        rev = subprocess.run(["git", "-C", "/repo", "rev-list", BASE + "..HEAD"], capture_output=True, text=True).stdout.split()
        n = None
        removed = 0
        for line in old.splitlines():
            m = re.match(r"@@ -(\d+)", line)
            if m:
                n = int(m.group(1))
                continue
            if n is None:
                continue
            if line.startswith("-"):
                removed += 1
                if blame[n - 1].split()[0].lstrip("^") in rev:
                    bad.append((f, n))
                n += 1
            elif line.startswith("+"):
                pass
            else:
                n += 1
        if not removed:
            bad.append((f, "no line of the original is changed"))
    return bad


def one(bug):
    copy = "/tmp/w/p/" + bug["id"]
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs("/tmp/w/p", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    res = {"id": bug["id"]}
    d = os.path.join(SEEDED, bug["id"])
    try:
        for f, old, new in bug["edits"]:
            p = os.path.join(copy, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                return dict(res, error="%s: %d matches of %r" % (f, s.count(old), old[:60]))
            open(p, "w", newline="").write(s.replace(old, new))
        raw = subprocess.run(["git", "-C", copy, "diff"], capture_output=True).stdout
        diff = raw.decode().replace("\r\n", "\n")
        res["not original"] = original_lines(copy, diff)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "wb").write(raw)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        body = "\n".join("    " + x if x else "" for x in bug["demo"].strip("\n").splitlines())
        open(d + "/demo.py", "w").write(PRELUDE % body)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True, timeout=300)
        b = subprocess.run(["bash", d + "/demo.sh"], cwd=copy, capture_output=True, text=True, timeout=300)
        res["demo clean"], res["demo patched"] = a.returncode, b.returncode
        if a.returncode:
            res["clean output"] = a.stderr[-600:]
        res["patched says"] = b.stderr.strip().splitlines()[-1][:200] if b.stderr.strip() else b.stdout[-200:]
        env = dict(os.environ, PYTHONPATH=copy, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        t = subprocess.run([PY, "-m", "pytest", "-q", "--tb=no", "-p", "no:cacheprovider", "--randomly-dont-reorganize", "--randomly-seed=1",
                            "--timeout=600", "--junitxml=%s.xml" % copy, "-o", "junit_family=xunit2", "tests"], cwd=copy, env=env, capture_output=True, text=True)
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        import xml.etree.ElementTree as ET
        ok = {c.get("classname") + "::" + c.get("name") for c in ET.parse(copy + ".xml").iter("testcase") if not list(c)}
        res["tests broken"] = [s for s in stable if s not in ok]
        r = subprocess.run([PY, "/verif/check.py", bug["property"], "--no-minimise"] + bug.get("args", []), capture_output=True, text=True, timeout=900,
                           env=dict(os.environ, DST_REPO=copy, DST_NOEVIDENCE="1", VERIF_SEED="1", VERIF_TIER="quick"))
        res["check"] = r.returncode
        lines = [x for x in r.stdout.splitlines() if "violates" in x]
        res["check says"] = lines[0][:220] if lines else (r.stdout[-200:] + r.stderr[-300:])
    except subprocess.TimeoutExpired as e:
        res["error"] = "timeout %s" % e.cmd
    finally:
        shutil.rmtree(copy, ignore_errors=True)
    return res


def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    bugs = [b for b in m.BUGS if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(one, bugs):
            good = not r.get("error") and not r["not original"] and r["demo clean"] == 0 and r["demo patched"] != 0 and not r["tests broken"]
            print("%-28s %s %s" % (r["id"], "VALID" if good else "INVALID", "CAUGHT" if r.get("check") == 1 else "missed (exit %s)" % r.get("check")))
            if not good:
                print("   ", json.dumps(r)[:1500])
            else:
                print("    demo:", r["patched says"], "| check:", r["check says"])
            sys.stdout.flush()


main()
