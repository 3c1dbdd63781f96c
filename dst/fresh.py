"""Runs or continues one execution in a fresh interpreter (started by checks_process.py)."""
import json
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
job = json.loads(sys.stdin.read())
from dst import common as C  # noqa: E402
C.import_repo()
from dst import market as MK  # noqa: E402
from dst import checks_process as CP  # noqa: E402

os.chdir(job["cwd"])
try:
    with C.quiet():
        MK.chaos_scheduler_class()
        with CP.virtual_clock():
            if job["job"] == "run":
                e = CP.Exec(job["config"])
                e.finish()
            else:
                with open(job["file"], "rb") as f:
                    sim = pickle.load(f)
                e = object.__new__(CP.Exec)
                e.sim, e.trace = sim, []
                e.finish()
        out = e.outcome()
except Exception:
    import traceback
    traceback.print_exc()
    sys.exit(3)
out.pop("files")
out["dir"] = os.path.relpath(str(e.sim.directory), os.path.realpath(job["cwd"]))
print("RESULT " + json.dumps(out))
