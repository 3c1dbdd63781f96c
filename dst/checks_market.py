"""Checks decided by the market simulator."""
from . import common as C
from . import market as MK
from . import monitors as MO


class MarketCheck:
    id = None
    quick_runs, thorough_runs = 1500, 15000
    real = ["Simulation", "stakeholder profiles", "pools", "strategies", "reward schemes", "rankings", "metrics collection",
            "end-of-run export (to scratch files)"]
    stubs = ["activation scheduler (in scenarios with an explicit plan; otherwise the shipped one)", "wall clock"]
    rule = ("a case is one simulated execution of a randomly drawn configuration (population, scheme, phases, thresholds) under a "
            "shipped or an explicit faulty activation schedule; it counts as distinct by the set of market states (pools with "
            "owner, pledge, stake, margin) it reached, distinct_nontrivial counts the distinct market states seen at round ends")
    bias = {}
    scen = {}

    def monitors(self, sc):
        raise NotImplementedError

    def generate(self, R, tier, i):
        return MK.gen_scenario(R, tier, **self.scen, **dict(self.bias))

    def execute(self, sc, stats):
        MK.execute(sc, self.monitors(sc) + [MO.Coverage()], stats)

    def shrink(self, sc):
        return MK.shrink_market(sc)

    def describe(self, sc):
        return MK.describe(sc)


class C01(MarketCheck):
    id = "C01"
    def monitors(self, sc): return [MO.Ledger()]


class C02(MarketCheck):
    id = "C02"
    def monitors(self, sc): return [MO.Budget()]


class C03(MarketCheck):
    id = "C03"
    def monitors(self, sc): return [MO.Ownership()]


class C04(MarketCheck):
    id = "C04"
    def monitors(self, sc): return [MO.Privacy()]

    def generate(self, R, tier, i):
        b = {}
        if R.random() < 0.6:  # pledges around the saturation point
            b = dict(pareto_param=lambda R: R.choice([0.4, 0.6, 0.9]), reward_scheme=lambda R: R.choice([0, 0, 1, 2, 3, 4, 4]))
        return MK.gen_scenario(R, tier, **b)


class C05(MarketCheck):
    id = "C05"
    def monitors(self, sc): return [MO.Rankings()]


class C06(MarketCheck):
    id = "C06"
    quick_runs, thorough_runs = 1200, 10000
    def monitors(self, sc): return [MO.Isolation()]


class C07(MarketCheck):
    id = "C07"
    quick_runs, thorough_runs = 1200, 10000
    def monitors(self, sc): return [MO.Rational()]

    def generate(self, R, tier, i):
        if R.random() < 0.02:  # k at which 1/k is not representable such that k pools cover slightly less than everything
            return MK.gen_scenario(R, tier, chaos_p=0, restore_p=0, n=60, k=49, multi_p=0, max_iterations=4,
                                   inactive_stake_fraction=0, cost_min=1e-6, cost_max=1e-5)
        return MK.gen_scenario(R, tier)


class C08(MarketCheck):
    id = "C08"
    quick_runs, thorough_runs = 1200, 10000
    def monitors(self, sc): return [MO.Waterfill()]


class C09(MarketCheck):
    id = "C09"
    quick_runs, thorough_runs = 1200, 10000
    def monitors(self, sc): return [MO.Plans()]


class C10(MarketCheck):
    id = "C10"
    def monitors(self, sc): return [MO.Termination()]

    def generate(self, R, tier, i):
        if i % 30 == 11:  # late in a long execution
            return MK.gen_scenario(R, tier, chaos_p=0.8, scale="long", iterations_after_convergence=lambda R: R.choice([1, 2, 5, 12, 20]))
        sc = MK.gen_scenario(R, tier, multi_p=0.5, max_iterations=lambda R: R.choice([1, 2, 4, 10, 25, 40, 60, [20, 40], [40, 25], [40, 8]]))
        if not sc.get("plan") and not sc.get("restore") and R.random() < 0.5:
            sc["whole"] = True
            sc["head"] = R.choice([0, 0, 1, 3, 8])
        return sc

    def execute(self, sc, stats):
        run = MK.execute(sc, self.monitors(sc) + [MO.Coverage()], stats)
        if sc.get("whole") and not sc.get("plan") and not sc.get("restore") and run.ended:
            # the same execution in one go
            with C.in_scratch():
                C.clear_caches()
                other = MK.Run(sc, [], C.Stats())
                sim = other.build()
                for _ in range(sc.get("head", 0)):
                    if sim.running:
                        sim.step()
                if sim.running:
                    sim.run_model()
                stats.add("executed in one go")
                a, b = MK.canon(run.sim), MK.canon(sim)
                if a != b:
                    raise C.Violation("run-model", "run_model() ends differently than the rounds one by one: %s"
                                      % {k: (a[k], b[k]) for k in a if a[k] != b[k] and k not in ("pools", "agents", "rank")})


class C11(MarketCheck):
    id = "C11"
    scen = dict(chaos_p=0.3)

    def monitors(self, sc):
        return [MO.FixedPoint(sc["config"]["seed"])]

    def generate(self, R, tier, i):
        if i % 30 == 11:  # moves that are only made late in a long execution (everybody gets a turn in every round)
            sc = MK.gen_scenario(R, tier, chaos_p=0.0, restore_p=0.2, scale="long", multi_p=0, absolute_utility_threshold=1e-9,
                                 iterations_after_convergence=lambda R: R.choice([1, 2, 4, 12]))
            sc["faults"] = ["repeat", "late", "arbitrary"]
            sc["plan"] = MK.gen_plan(R, sc["config"]["n"], R.randint(20, 125), "simultaneous" in sc["config"]["agent_activation_order"], sc["faults"])
            return sc
        sc = MK.gen_scenario(R, tier, chaos_p=0.0, restore_p=0.2, multi_p=0.2, max_iterations=60,
                             absolute_utility_threshold=lambda R: R.choice([1e-9, 1e-9, 1e-7, 1e-6, 1e-5]))
        if R.random() < 0.3:  # faulty start, then everybody gets a turn per round again
            faults = ["stall", "repeat", "late"] + (["arbitrary"] if R.random() < 0.5 else [])
            # stalled rounds must not end the execution: at least as many idle rounds as the faulty part is long are needed
            sc["faults"] = faults
            sc["config"]["iterations_after_convergence"] = 8
            sc["plan"] = MK.gen_plan(R, sc["config"]["n"], 6, "simultaneous" in sc["config"]["agent_activation_order"], faults)
        return sc


class C12(MarketCheck):
    id = "C12"
    def monitors(self, sc): return [MO.Phases(), MO.LaterRankings()]

    def generate(self, R, tier, i):
        if i % 4 == 1:  # many phases
            def several(values, lo=4, hi=8):
                return lambda R: [R.choice(values) for _ in range(R.randint(lo, hi))]
            b = dict(k=several([1, 2, 3, 4, 5, 8]), n=lambda R: R.choice([2, 3, 5, 8, 11]), iterations_after_convergence=lambda R: R.choice([1, 1, 2]),
                     max_iterations=lambda R: R.choice([60, several([40, 60, 90])(R)]))
            if R.random() < 0.4:
                b["a0"] = several([0, 0.05, 0.3, 1, 3])
            if R.random() < 0.3:
                b["absolute_utility_threshold"] = several([1e-9, 1e-7, 1e-5], 2, 9)
            if R.random() < 0.3:
                b["relative_utility_threshold"] = several([0, 0.01, 0.2], 2, 9)
            if R.random() < 0.3:
                b["extra_pool_cost_fraction"] = several([0, 0.4, 1, 2], 2, 9)
            return MK.gen_scenario(R, tier, multi_p=1.0, **b)
        return MK.gen_scenario(R, tier, multi_p=1.0, max_iterations=lambda R: R.choice([40, 60, [50, 80], [60, 30, 90]]),
                               iterations_after_convergence=lambda R: R.choice([1, 2, 3]),
                               absolute_utility_threshold=lambda R: R.choice([1e-9, 1e-7, [1e-9, 1e-5], [1e-5, 1e-9, 1e-7]]))


class C15(MarketCheck):
    id = "C15"
    def monitors(self, sc): return [MO.Reporting()]

    def generate(self, R, tier, i):
        def pick(R):
            return MK.ALL_METRICS if R.random() < 0.7 else sorted(R.sample(MK.ALL_METRICS, R.randint(1, 8)))
        if R.random() < 0.1:  # ties in stake, with numbers whose sums are not rounded
            return MK.gen_scenario(R, tier, metrics=pick, stake_distr_source="flat", n=lambda R: R.choice([2, 4, 8, 16]), k=lambda R: R.choice([1, 2, 4, 8]),
                                   multi_p=0, inactive_stake_fraction=0, cost_min=1e-6, cost_max=1e-5)
        return MK.gen_scenario(R, tier, metrics=pick)


class C16(MarketCheck):
    id = "C16"
    def monitors(self, sc): return [MO.Payouts()]


class C17(MarketCheck):
    id = "C17"
    quick_runs, thorough_runs = 2000, 20000

    def monitors(self, sc): return [MO.Turns()]

    def generate(self, R, tier, i):
        if i % 20 == 7:  # more stakeholders for a few rounds
            return MK.gen_scenario(R, tier, chaos_p=0.0, n=lambda R: R.randint(32, 130), k=lambda R: R.choice([1, 2, 3]),
                                   max_iterations=lambda R: R.choice([1, 2, 3]), scale_p=0)
        return MK.gen_scenario(R, tier, chaos_p=0.0, n=lambda R: R.choice([1, 2, 4, 5, 6, 9, 10, 11, 13, 15, 21, 25, 31]))


class C23(MarketCheck):
    id = "C23"
    quick_runs, thorough_runs = 5000, 40000
    rule = "a case is one construction of an execution from a random configuration; distinct by population"

    def monitors(self, sc): return [MO.Population()]

    def generate(self, R, tier, i):
        sc = MK.gen_scenario(R, tier, chaos_p=0.0, restore_p=0.0, max_iterations=1, n=lambda R: R.choice([1, 2, 3, 4, 5, 8, 16, 20, 30, 60, 150]),
                             reward_scheme=lambda R: R.choice([0, 1, 2, 3, 4]),
                             inactive_stake_fraction=lambda R: R.choice([0, 0, 0.05, 0.1, 0.3, 0.5, 0.77, 0.9]),
                             inactive_stake_fraction_known=False)
        sc["limit"] = 0
        if R.random() < 0.1:
            sc.pop("stakes", None)
            n = sc["config"]["n"]
            m = R.choice([n, n, max(1, n // 2), n + 1, 2 * n + 3])
            sc["file"] = {"values": [R.choice([1, 2, 5, 0.25, R.random() + 0.01]) for _ in range(m)], "style": R.choice(["lines", "commas", "mixed"]),
                          "default": R.random() < 0.4}
        return sc


CHECKS = [C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C15, C16, C17, C23]
