"""Writes /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection: "
MARKET = "the whole market engine under a simulated activation scheduler (permuted, batched, stalled, repeated, late turns; save/kill/restore; clock jumps), "
FILES = "real executions as forked processes whose every file operation is scheduled and failed by the simulator (crash, torn, short, full disk, I/O error), "
TECH = {
 "C01": MARKET + "invariant on the two sides of the stake ledger at every activation boundary",
 "C02": MARKET + "conservation invariant at every activation boundary",
 "C03": MARKET + "referential invariant and identifier history",
 "C04": MARKET + "private-pool invariant at every activation boundary",
 "C05": MARKET + "rankings compared with an independent re-ranking at every activation boundary",
 "C06": MARKET + "state before/after each decision and application",
 "C07": MARKET + "refinement of every decision against an executable reference model",
 "C08": MARKET + "refinement of every delegation against a reference water-filling model",
 "C09": MARKET + "refinement of every operator plan against a reference model",
 "C10": MARKET + "history check of idle counting, phases and termination, bounded liveness",
 "C11": MARKET + "converged markets driven on with arbitrary further activations",
 "C12": MARKET + "invariant on parameters and derived values at and after phase changes",
 "C13": "executions repeated, interleaved in one process and in fresh interpreters under disturbed generators, clock and hash seed; trace equality",
 "C14": MARKET + "files of each execution compared with its final state and history",
 "C15": MARKET + "each recorded metric compared with an independent definition every round",
 "C16": MARKET + "rewards and shares compared with an independent model in every state",
 "C17": "the shipped schedulers under seeded generators, history of turns checked against the promised order",
 "C18": FILES + "crash/restart histories; files checked after every failure",
 "C19": FILES + "interleavings of overlapping executions; comparison with solo runs",
 "C20": FILES + "batch runs on a simulated worker pool with scheduled workers; exactly-once and equality with solo runs",
 "C21": MARKET + "save, kill, restore and fork at chosen points; trace equality with the uninterrupted run",
 "C22": "real session handlers on a simulated network (loss, duplication, reordering, corruption, broken connections, full disk), refinement against a twin simulation",
 "C24": FILES + "the command-line scripts as such processes, batch workers on a simulated pool; comparison with the same executions through the interface",
 "C25": "the real page in a simulated browser (virtual timers, chosen message delays, lost connections, reloads) against the real server; charts compared with the answers and the recorded series after every event",
 "C26": MARKET + "with a simulated external solver process that answers exactly or fails round by round; recorded values against the optimum, everything else against the same execution without the metric",
 "C23": "seeded construction of executions, population compared with an independent expectation",
}
NOTE = {
 "market": "Seeded search, not exhaustive: no violation on the schedules, faults and configurations drawn (populations up to about 40, k up to 20, up to 3 phases). Trusts the reference model / invariant in dst/, Python, numpy and mesa's base scheduler.",
 "files": "Seeded search over operation-level interleavings and failure points of real processes. Models process kill and failing system calls, not power loss (the project never syncs). Trusts the gate in dst/iosim.py to see every file operation.",
 "process": "Seeded search over configurations, interleavings and save points; equality is exact on the observable state. Fresh interpreters are used in a sample of the runs.",
 "page": "Seeded search over orders of clicks, timers and deliveries. The browser (document, Chart.js, sliders, jQuery) is a stub that records what is drawn; page scripts, server, handlers and simulation are real.",
 "solver": "Seeded search over failures of the solver per round. The simulated solver is exact up to 26 pools and a good heuristic beyond; the real program is used in 2 % of the executions (small markets). Optimality of the real program's answers is not claimed (C32).",
 "session": "Seeded search over message sequences; the websocket connection and listening loop are stubs, handlers, server objects and charts are real.",
}
GROUP = {"C13": "process", "C21": "process", "C14": "market", "C18": "files", "C19": "files", "C20": "files", "C24": "files", "C22": "session", "C25": "page", "C26": "solver"}
NA = {
 "C30": "A statement about the real-valued formula for all inputs, with no concurrency, time, I/O or history to simulate; it needs algebraic proof or input sampling, and the formulas in force are compared with an independent model inside C16.",
 "C31": "Parsing a fixed argument vector is a pure function without schedule, time, faults or parties; simulation adds nothing over input testing.",
 "C32": "Optimality over all sets of pools of an external solver's answer (gekko, run in a subprocess); a static combinatorial question about that program that no schedule or fault influences. What the project contributes - which question is asked, and what becomes of the answer or of the lack of one - is C26.",
 "C33": "A statistical statement about distributions over seeds, not a property of any execution or schedule; a sound verdict needs a statistical test with an error rate, not a simulated history.",
}
def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
    checks = []
    for i in ids:
        if i in NA:
            continue
        cmd = "/opt/venv/bin/python check.py " + i
        checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd, "technique": T + TECH[i],
                       "level": "exploration", "level_note": NOTE[GROUP.get(i, "market")]})
    doc = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selftest.py --setup", "checks": checks,
           "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
           "notes": "No hooks in /repo: every seam existed. Replay a violation with /opt/venv/bin/python check.py --replay FILE. tools/selftest.py checks determinism of the simulator."}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
main()
