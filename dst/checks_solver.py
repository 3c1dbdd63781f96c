"""C26: executions that record a metric which an external program computes."""
import copy
import csv
import io
import os

from . import common as C
from . import market as MK
from . import monitors as MO
from . import solver as SV
from .checks_files import diff_files, folder, plain
from .checks_market import MarketCheck
from .common import Violation

NAME = "Min-aggregate pledge"


class Asked(MK.Monitor):
    """Which value each round has to record, given what the solver does in it."""

    def __init__(self, sc, world):
        self.sc, self.world = sc, world

    def pre_round(self, run):
        kind, detail = self.sc["answers"][run.round % len(self.sc["answers"])]
        self.pools = [(float(p.pledge), float(p.stake)) for p in run.sim.pools.values()]
        self.world.reset(kind, detail, len(self.pools))

    def post_round(self, run):
        w, st = self.world, run.stats
        kind, r = w.kind, run.round - 1
        asked, answered, real, struck, value = w.asked, w.answered, w.real, w.struck, w.value
        w.reset()
        vals = run.sim.datacollector.model_vars[NAME]
        if len(vals) != run.round:
            raise Violation("row-count", "%d values are recorded after %d rounds" % (len(vals), run.round))
        try:
            got = float(vals[-1])
        except (TypeError, ValueError):
            raise Violation("no-number", "the value recorded in round %d is %r" % (r, vals[-1]))
        left = sorted(os.listdir(w.tmp))
        if left:
            raise Violation("left-behind", "%d temporary directories or files are left behind by round %d" % (len(left), r))
        st.add("values checked")
        if not self.pools:
            st.add("rounds without pools")
            if got != 0:
                raise Violation("without-pools", "%r is recorded in round %d, in which there are no pools" % (got, r))
            return
        pledges, stakes = [p for p, _ in self.pools], [s for _, s in self.pools]
        st.seen("questions", C.digest([pledges, stakes]))
        st.max("pools in a question", len(self.pools))
        broke = struck if kind == "disk-full" else kind in SV.FAILED and (asked or kind == "no-temporary-directory")
        if broke:
            st.add("fault:solver " + kind)
        elif asked and kind not in ("ok", "real"):
            st.add("fault:solver " + kind)
        if real:
            st.add("answers of the real solver")
            if got != -2 and not -1e-6 <= got <= sum(pledges) * (1 + 1e-6) + 1e-6:
                raise Violation("question", "the solver reports a pledge of %r in round %d for pools that pledge %r together" % (got, r, sum(pledges)))
            return
        try:
            best = sum(pledges) if kind == "poor" and asked else SV.cheapest(pledges, stakes, sum(stakes) / 2)[0]
        except SV.TooHard:
            best = None
        near = lambda a, b: abs(a - b) <= 1e-8 * max(abs(a), abs(b)) + 1e-13
        if broke:
            if got == -2:
                return
            if not (kind in ("cut-results", "undecodable", "disk-full", "no-temporary-directory") and best is not None and near(got, best)):
                raise Violation("not-found", "round %d records %r although the solver gave no answer (%s)" % (r, got, kind))
            return
        if asked and not answered:
            raise Violation("question", "in round %d the solver is asked a problem without solution about pools with pledges %s and stakes %s"
                            % (r, pledges[:6], stakes[:6]))
        if answered and not near(got, value):
            raise Violation("answer", "round %d records %r, the solver answered %r" % (r, got, value))
        if best is None:
            low, high = SV.fractional(pledges, stakes, sum(stakes) / 2)[0], SV.greedy(pledges, stakes, sum(stakes) / 2)[0]
            if got < low * (1 - 1e-8) - 1e-13 or asked == 0 and got > high * (1 + 1e-8) + 1e-13:
                raise Violation("question", "round %d records %r; no pools with half of the stake in pools pledge less than %r" % (r, got, low))
        else:
            st.add("answers compared with the optimum")
            if not near(got, best):
                raise Violation("question", "round %d records %r; the cheapest pools with half of the stake in pools pledge %r (%d pools, pledges %s, stakes %s)"
                                % (r, got, best, len(pledges), pledges[:6], stakes[:6]))


class Trail(MK.Monitor):
    """What everything else of the execution looks like."""

    def begin(self, run):
        self.rounds, self.files, self.metrics = [], None, None

    def post_round(self, run):
        state = MK.canon(run.sim)
        del state["records"]
        self.rounds.append(C.digest(state))

    def end(self, run):
        mv = run.sim.datacollector.model_vars
        self.metrics = {k: [plain(x) for x in v] for k, v in mv.items() if k != NAME}
        d = run.sim.directory
        self.files = {}
        for k, text in folder(str(d.parent), d.name).items():
            if k.endswith(".pkl") or os.path.basename(k) == "args.json":
                text = ""  # they contain the metric or its number
            elif k.endswith(".csv"):
                rows = list(csv.reader(io.StringIO(text)))
                if rows and NAME in rows[0]:
                    i = rows[0].index(NAME)
                    text = "\n".join(map(repr, [r[:i] + r[i + 1:] for r in rows]))
                else:
                    text = "\n".join(map(repr, rows))
            self.files[k] = text


class C26(MarketCheck):
    id = "C26"
    quick_runs, thorough_runs = 700, 8000
    distinct_set = "questions"
    real = ["Simulation (whole executions)", "metric 11 and its modelling with GEKKO", "the real solver program (in a part of the scenarios)"]
    stubs = ["activation scheduler (in scenarios with an explicit plan; otherwise the shipped one)", "wall clock",
             "solver program (exact simulated solver behind process creation; reads and writes the files of the real one)",
             "temporary directory (scratch)"]
    rule = ("a case is one simulated execution that records metric 11 with a simulated solver that answers or fails round by round, and the "
            "same execution without that metric; distinct_nontrivial counts the distinct questions (pools with pledge and stake) asked")

    def generate(self, R, tier, i):
        others = R.choice([[], [1, 2, 9], [1, 3, 12, 21], [1, 26]])
        b = dict(metrics=sorted(others + [11]), max_iterations=lambda R: R.choice([1, 3, 6, 10, 16]), scale_p=0.01,
                 k=lambda R: R.choice([1, 2, 3, 4, 6, 8, 10, 12, [3, 6], [6, 2]]), restore_p=0.15)
        sc = MK.gen_scenario(R, tier, **b)
        if i % 50 == 17:
            sc["answers"] = [["real", 0]]
            sc["config"]["max_iterations"] = 4
        else:
            p = R.choice([0, 0.2, 0.5, 0.9])
            sc["answers"] = [[R.choice(SV.FAILED + SV.ANSWERED[1:]) if R.random() < p else "ok", R.randint(0, 7)] for _ in range(R.randint(1, 12))]
            if R.random() < 0.1:
                sc["answers"] = [[R.choice(SV.FAILED), R.randint(0, 7)]]
        return sc

    def execute(self, sc, stats):
        with C.in_scratch() as root:
            with SV.World(root, stats, self.pass_time) as world:
                a = Trail()
                MK.execute(sc, [Asked(sc, world), MO.Coverage(), a], stats)
        C.clear_caches()
        plainer = copy.deepcopy(sc)
        plainer["config"]["metrics"] = [m for m in sc["config"]["metrics"] if m != 11] or [1]
        b = Trail()
        MK.execute(plainer, [b], C.Stats())
        stats.add("executions compared")
        if a.rounds != b.rounds:
            r = next((i for i, (x, y) in enumerate(zip(a.rounds, b.rounds)) if x != y), min(len(a.rounds), len(b.rounds)))
            raise Violation("interferes", "recording the metric changes the market in round %d (of %d; %d without the metric)" % (r, len(a.rounds), len(b.rounds)))
        want = {k: v for k, v in b.metrics.items() if k in a.metrics}
        if {k: a.metrics[k] for k in want} != want:
            raise Violation("interferes", "recording the metric changes %s" % [k for k in want if a.metrics[k] != want[k]])
        if sc["config"]["metrics"] == [11]:  # the other execution records something else then
            drop = [k for k in b.files if "metrics" in k]
            for f in (a.files, b.files):
                for k in drop:
                    f.pop(k, None)
        why = diff_files(b.files, a.files)
        if why:
            raise Violation("interferes", "recording the metric changes the files: %s" % why)

    @staticmethod
    def pass_time(seconds):
        MK.CLOCK.jump(seconds)

    def shrink(self, sc):
        for cand in MK.shrink_list(sc["answers"], 1):
            d = copy.deepcopy(sc)
            d["answers"] = cand
            yield d
        for i, (kind, detail) in enumerate(sc["answers"]):
            if kind != "ok":
                d = copy.deepcopy(sc)
                d["answers"][i] = ["ok", 0]
                yield d
        for cand in MK.shrink_market(sc):
            if 11 in cand["config"]["metrics"]:
                yield cand
        if sc["config"]["metrics"] != [1, 11]:
            d = copy.deepcopy(sc)
            d["config"]["metrics"] = [1, 11]
            yield d


CHECKS = [C26]
