"""--setup: the code under test and the framework can be imported (nothing is built: the code is interpreted).
Without arguments: determinism of the simulator. Every property's first runs are executed twice, with different numbers of workers and
different interpreter hash seeds, and must give the same statistics, which count every event, move, fault and distinct state."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
IDS = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]


def setup():
    from dst import common as C, registry
    C.import_repo()
    for i in IDS:
        registry.load(i)
    print("ready")


JOB = """
import sys, json, hashlib
sys.path.insert(0, %r)
from dst import common as C, registry
C.import_repo()
chk = registry.load(%r)
if hasattr(chk, "prepare"): chk.prepare()
st, v, s, done, err = C.explore(chk, 7, "quick", %d, 600, %d)
d = st.dump()
print("DIGEST", done, len(v), len(err), hashlib.sha1(json.dumps(d, sort_keys=True).encode()).hexdigest(), json.dumps(d["n"], sort_keys=True))
C.cleanup_scratch()
"""


def determinism(ids, runs):
    bad = 0
    for i in ids:
        outs = []
        for workers, hs in ((8, "1"), (3, "77"), (1, "random")):
            p = subprocess.run([sys.executable, "-B", "-c", JOB % (ROOT, i, runs, workers)], env=dict(os.environ, PYTHONHASHSEED=hs),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=ROOT)
            line = [x for x in p.stdout.decode().splitlines() if x.startswith("DIGEST")]
            outs.append(line[0] if line else p.stderr.decode()[-500:])
        same = len(set(outs)) == 1
        bad += not same
        print(i, "same" if same else "DIFFERENT", outs[0][:60] if same else outs)
    return bad


if __name__ == "__main__":
    if "--setup" in sys.argv:
        setup()
    else:
        sys.exit(1 if determinism(sys.argv[1:] or IDS, 24) else 0)
