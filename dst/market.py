"""The market simulator: drives real Simulation objects round by round under a controlled schedule, with faults, and
lets monitors look at the market before and after every decision, application and round."""
import copy
import csv
import os
import pickle
import random
import shutil
import time as _time

from . import common as C
from . import ref
from .common import Violation, HarnessError

# --------------------------------------------------------------------------------------------------------- generation
ORDERS = ["random", "sequential", "simultaneous", "semisimultaneous"]
ALL_METRICS = list(range(1, 11)) + list(range(12, 31))  # 11 runs an external solver


def gen_config(R, **bias):
    """A random configuration. bias: overrides, values may be callables of the generator."""
    multi = R.random() < bias.pop("multi_p", 0.3)
    nph = R.randint(2, bias.pop("phases", 3))

    def ph(f, p=0.6):
        if multi and R.random() < p:
            return [f() for _ in range(R.randint(2, nph))]
        return f()

    style = R.choice(["mix", "mix", "mix", "rich", "flat", "crowd", "tiny", "ties", "expensive", "eager", "eager"])
    cfg = dict(
        n=R.choice([3, 5, 8, 11, 15, 20, 25, 40]), k=ph(lambda: R.choice([1, 2, 3, 4, 5, 6, 8, 10, 12])),
        a0=ph(lambda: R.choice([0, 0.05, 0.3, 0.3, 1, 3, 20])),
        stake_distr_source=R.choice(["pareto", "pareto", "pareto", "flat", "disparity"]),
        pareto_param=R.choice([0.5, 0.8, 1.2, 2, 5]),
        cost_min=R.choice([0, 1e-5, 1e-4]), cost_max=R.choice([1e-4, 1e-3, 1e-3, 5e-3, 2e-2]),
        extra_pool_cost_fraction=ph(lambda: R.choice([0, 0.2, 0.4, 0.4, 0.8, 1, 1.3, 4]), 0.3),
        reward_scheme=R.choice([0, 0, 0, 1, 2, 3, 4]),
        agent_profile_distr=R.choice([[1, 0, 0], [1, 0, 0], [1, 1, 0], [4, 2, 1], [0, 1, 0], [3, 0, 1]]),
        agent_activation_order=R.choice(ORDERS),
        absolute_utility_threshold=ph(lambda: R.choice([0, 1e-9, 1e-9, 1e-7, 1e-5]), 0.2),
        relative_utility_threshold=ph(lambda: R.choice([0, 0, 0, 0.01, 0.2]), 0.2),
        inactive_stake_fraction=R.choice([0, 0, 0, 0.1, 0.3, 0.5]),
        inactive_stake_fraction_known=R.random() < 0.5,
        iterations_after_convergence=R.choice([1, 2, 3, 5]),
        max_iterations=R.choice([4, 10, 25, 40]), seed=R.choice([0, 1, 2 ** 40] + 20 * [R.randint(0, 10 ** 7)]), metrics=[1, 2, 9],
        generate_graphs=False, execution_id="x",
    )
    if style == "rich":  # private pools, stake beyond saturation
        cfg.update(pareto_param=R.choice([0.4, 0.6]), stake_distr_source="pareto", k=ph(lambda: R.choice([6, 10, 15, 20])))
    elif style == "flat":
        cfg.update(stake_distr_source="flat")
    elif style == "crowd":
        cfg.update(n=R.choice([30, 40]), k=ph(lambda: R.choice([1, 2, 3, 4])))
    elif style == "tiny":
        cfg.update(n=R.choice([1, 2, 3, 4]))
    elif style == "ties":
        c = R.choice([1e-5, 1e-3])
        cfg.update(stake_distr_source=R.choice(["flat", "disparity"]), cost_min=c, cost_max=c)
    elif style == "expensive":
        cfg.update(cost_min=1e-3, cost_max=R.choice([2e-2, 5e-2, 0.2, 1]))
    elif style == "eager":  # many pools opening and closing
        cfg.update(cost_min=1e-5, cost_max=1e-4, absolute_utility_threshold=0, relative_utility_threshold=0,
                   extra_pool_cost_fraction=R.choice([0, 0.1]), a0=ph(lambda: R.choice([0, 0.02, 0.1])))
    if R.random() < 0.3:  # numbers with many digits
        for key in R.sample(["a0", "pareto_param", "cost_min", "cost_max", "extra_pool_cost_fraction", "absolute_utility_threshold",
                             "relative_utility_threshold", "inactive_stake_fraction"], R.randint(1, 4)):
            odd = lambda x: min(x * R.uniform(0.8, 1.25), 0.6) if key == "inactive_stake_fraction" else x * R.uniform(0.8, 1.25)
            cfg[key] = [odd(x) for x in cfg[key]] if isinstance(cfg[key], list) else odd(cfg[key])
    for key, v in bias.items():
        cfg[key] = v(R) if callable(v) else v
    if cfg["stake_distr_source"] == "disparity" and cfg["n"] < 4:
        cfg["n"] = 4
    if cfg["cost_max"] < cfg["cost_min"]:
        cfg["cost_min"], cfg["cost_max"] = cfg["cost_max"], cfg["cost_min"]
    if sum(cfg["agent_profile_distr"][:2]) == 0:
        cfg["agent_profile_distr"] = [1, 0, 0]
    return cfg


def gen_plan(R, n, rounds, simultaneous, faults):
    """Explicit schedule for `rounds` rounds. Events: ["s", id] decide (and apply at once in the sequential orders),
    ["x", id, seed] the same with an arbitrary valid move instead of a deliberate one, ["a", id] apply, ["t", dt] clock jump.
    faults: set of enabled fault kinds."""
    plan = []
    for _ in range(rounds):
        ids = list(range(n))
        R.shuffle(ids)
        if "stall" in faults and R.random() < 0.6:
            ids = ids[:max(1, int(len(ids) * R.choice([0.3, 0.6, 0.9])))]
        if "repeat" in faults and R.random() < 0.5:
            for _ in range(R.randint(1, 3)):
                ids.insert(R.randint(0, len(ids)), R.choice(ids))
        ev = []
        if not simultaneous:
            ev = [["s", i] for i in ids]
        else:
            pos = 0
            late = []
            size_mode = R.choice(["one", "five", "any", "all"])
            while pos < len(ids):
                size = {"one": 1, "five": 5, "any": R.randint(1, 8), "all": len(ids)}[size_mode]
                batch = ids[pos:pos + size]
                pos += size
                ev += [["s", i] for i in batch]
                order = list(dict.fromkeys(batch))
                R.shuffle(order)
                for i in order:
                    if "late" in faults and R.random() < 0.25:
                        late.append(i)
                    else:
                        ev.append(["a", i])
                if late and R.random() < 0.4:
                    R.shuffle(late)
                    while late and R.random() < 0.7:
                        ev.append(["a", late.pop()])
            R.shuffle(late)
            ev += [["a", i] for i in late]
        if "arbitrary" in faults and R.random() < 0.7:
            share = R.choice([0.05, 0.2, 0.5])
            ev = [["x", e[1], R.randint(0, 10 ** 6)] if e[0] == "s" and R.random() < share else e for e in ev]
        if "clock" in faults and R.random() < 0.3:
            ev.insert(R.randint(0, len(ev)), ["t", R.choice([-1e6, -3600, 0.5, 3600, 1e9])])
        plan.append(ev)
    return plan


def arbitrary_move(R, sim, agent):
    """A valid move that deliberation might never lead to: any number of pools, kept, changed or new, any pledges, margins
    and delegations that the stakeholder's stake allows."""
    from logic.pool import Pool
    from logic.strategy import Strategy
    if agent.strategy is None:
        return None
    rs = sim.reward_scheme
    own = sorted(agent.strategy.owned_pools)
    mine = {pid: copy.deepcopy(agent.strategy.owned_pools[pid]) for pid in own if R.random() < 0.7}
    rest = agent.stake
    kind = R.random()
    fresh = 0 if kind < 0.35 else R.randint(1, 3)
    if kind > 0.9:
        mine = {}
    t = len(mine) + fresh
    if t:
        share = R.choice([1, 1, 0.5, 0.9, 0.1])
        pledge = min(agent.stake * share / t, rs.global_saturation_threshold * R.choice([1, 1, 1, 0.5, 2]))
        cost = (agent.cost + (t - 1) * sim.extra_pool_cost_fraction * agent.cost) / t
        private = pledge >= rs.get_pool_saturation_threshold(pledge)

        def margin():
            return 0 if private else R.choice([0, 0, 0.01, 0.1, 0.5, 0.99, R.random()])
        for pid in sorted(mine):
            p = mine[pid]
            if R.random() < 0.2 and (p.is_private or p.pledge < rs.get_pool_saturation_threshold(p.pledge)) and p.pledge <= pledge:
                continue  # kept as it is
            p.stake -= p.pledge - pledge
            p.pledge = pledge
            p.is_private = private
            p.cost = cost
            p.set_profit(reward_scheme=rs)
            p.margin = margin()
        for _ in range(fresh):
            pid = sim.get_next_pool_id()
            mine[pid] = Pool(pool_id=pid, cost=cost, pledge=pledge, owner=agent.unique_id, reward_scheme=rs, is_private=private)
            mine[pid].margin = margin()
        rest -= sum(p.pledge for p in mine.values())
    alloc = {}
    targets = sorted(pid for pid, p in sim.pools.items() if p.owner != agent.unique_id and not p.is_private)
    if targets and rest > 1e-9:
        rest *= R.choice([1, 1, 0.5]) * (1 - 1e-12)
        chosen = R.sample(targets, min(len(targets), R.choice([0, 1, 1, 2, 3])))
        w = [R.random() + 0.01 for _ in chosen]
        alloc = {pid: rest * x / sum(w) for pid, x in zip(chosen, w)}
    return Strategy(stake_allocations=alloc, owned_pools=mine)


# ------------------------------------------------------------------------------------------------- controlled schedule
_sched_cls = None


def chaos_scheduler_class():
    global _sched_cls, ChaosScheduler
    if _sched_cls is None:
        from mesa.time import BaseScheduler

        class ChaosScheduler(BaseScheduler):
            """Executes an explicit plan; after its last round everybody gets exactly one turn per round again."""

            def __init__(self, model, plan, native):
                super().__init__(model)
                self.plan = plan
                self.native = native
                self._agents = native._agents
                self.base = 0

            def step(self):
                r = self.steps - self.base
                if r >= len(self.plan):
                    self.native.steps, self.native.time = self.steps, self.time
                    self.native.step()
                    self.steps, self.time = self.native.steps, self.native.time
                    return
                for ev in self.plan[r]:
                    kind = ev[0]
                    if kind == "t":
                        CLOCK.jump(ev[1])
                        _count("fault:clock_jump")
                        continue
                    a = self._agents.get(ev[1])
                    if a is None:
                        continue
                    if kind == "s":
                        a.step()
                    elif kind == "x":
                        move = arbitrary_move(random.Random(ev[2]), self.model, a)
                        if move is not None:
                            _count("fault:arbitrary_move")
                            a.new_strategy = move
                            if "simultaneous" not in self.model.agent_activation_order:
                                a.advance()
                    else:
                        a.advance()
                for a in list(self._agents.values()):  # decisions never outlive their round
                    if getattr(a, "new_strategy", None) is not None:
                        a.advance()
                self.steps += 1
                self.time += 1

        ChaosScheduler.__qualname__ = "ChaosScheduler"
        _sched_cls = ChaosScheduler
        globals()["ChaosScheduler"] = ChaosScheduler
    return _sched_cls


class Clock:
    """Virtual wall clock: advances a little at every reading, jumps when told."""

    def __init__(self):
        self.now = 1.6e9
        self.readings = 0

    def time(self):
        self.now += 0.001
        self.readings += 1
        return self.now

    def jump(self, dt):
        self.now += dt


CLOCK = Clock()
_stats = None


def _count(key, v=1):
    if _stats is not None:
        _stats.add(key, v)


# ------------------------------------------------------------------------------------------------------ observing
class Observer:
    """Wraps step and advance of the concrete stakeholder classes while active."""

    def __init__(self):
        self.active = None  # the Run being observed
        self.installed = False

    def install(self):
        if self.installed:
            return
        import logic.stakeholder_profiles as prof
        for cls in set(prof.PROFILE_MAPPING.values()):
            self._wrap(cls, "step", "step")
            self._wrap(cls, "advance", "apply")
        self.installed = True

    def _wrap(self, cls, name, kind):
        orig = getattr(cls, name)
        obs = self

        def wrapper(agent, *a, **kw):
            run = obs.active
            if run is None or agent.model is not run.sim:
                return orig(agent, *a, **kw)
            run.emit("pre_" + kind, agent)
            res = orig(agent, *a, **kw)
            run.emit("post_" + kind, agent)
            return res
        wrapper.__name__ = name
        wrapper.__wrapped__ = orig
        setattr(cls, name, wrapper)


OBS = Observer()


def profile_of(agent):
    import logic.stakeholder_profiles as prof
    for key, tag in ((0, "nm"), (1, "my"), (2, "ab")):
        if isinstance(agent, prof.PROFILE_MAPPING[key]):
            return tag
    raise HarnessError("unknown profile %r" % type(agent))


# ----------------------------------------------------------------------------------------------------------- snapshots
def agent_state(agent):
    s = agent.strategy
    if s is None:
        return None
    return (dict(s.stake_allocations), {pid: (p.pledge, p.cost, p.margin) for pid, p in s.owned_pools.items()})


def pool_state(p):
    return (p.owner, float(p.pledge), float(p.stake), float(p.cost), float(p.margin), bool(p.is_private),
            float(p.potential_profit), float(p.desirability),
            {int(i): float(v) for i, v in p.delegators.items()})


def snapshot(sim):
    return ({pid: pool_state(p) for pid, p in sim.pools.items()},
            {a.unique_id: agent_state(a) for a in sim.schedule.agents})


def canon(sim):
    """Complete observable market state as plain data, for exact comparisons."""
    pools = [[int(pid)] + list(pool_state(p)[:8]) + [sorted(pool_state(p)[8].items())] for pid, p in sorted(sim.pools.items())]
    agents = []
    for a in sim.schedule.agents:
        st = agent_state(a)
        agents.append([a.unique_id, float(a.stake), float(a.cost), type(a).__name__,
                       None if st is None else [sorted((int(i), float(v)) for i, v in st[0].items()),
                                                sorted(int(i) for i in st[1])]])
    rank = [[None if p is None else int(p.id) for p in r] for r in (sim.pool_rankings, sim.pool_rankings_myopic)]
    return {"pools": pools, "agents": agents, "rank": rank, "step": sim.schedule.steps, "running": bool(sim.running),
            "phase": sim.current_phase, "idle": sim.consecutive_idle_steps, "eq": list(sim.equilibrium_steps),
            "pivot": list(sim.pivot_steps), "k": sim.reward_scheme.k, "a0": float(sim.reward_scheme.a0),
            "beta": float(sim.reward_scheme.global_saturation_threshold),
            "parameters": [repr(getattr(sim, f, None)) for f in ("n", "relative_utility_threshold", "absolute_utility_threshold", "max_iterations",
                                                                 "extra_pool_cost_fraction", "agent_activation_order", "total_stake", "total_phases")],
            "random": C.digest(sim.random.getstate()), "records": C.digest([[k, repr(v)] for k, v in sorted(sim.datacollector.model_vars.items())])}


# ------------------------------------------------------------------------------------------------- expected parameters
class Expected:
    """Parameters that the configuration promises for a phase, independent of the code under test."""

    FIELDS = ("k", "a0", "extra_pool_cost_fraction", "relative_utility_threshold", "absolute_utility_threshold",
              "max_iterations")

    def __init__(self, cfg):
        self.cfg = cfg
        self.phases = max([len(cfg[f]) for f in self.FIELDS if isinstance(cfg.get(f), list)] + [1])

    def value(self, field, phase):
        v = self.cfg[field]
        if isinstance(v, list):
            return v[min(phase, len(v) - 1)]
        return v

    def k_scaled(self, phase):
        f = self.cfg["inactive_stake_fraction"] if self.cfg["inactive_stake_fraction_known"] else 0
        return self.value("k", phase) / (1 - f)

    def k(self, phase):
        return int(round(self.k_scaled(phase), 9))

    def beta(self, phase):
        return 1 / self.k_scaled(phase)

    def params(self, phase, sim=None):
        c = self.cfg
        if sim is not None:
            k, a0, beta = sim.reward_scheme.k, sim.reward_scheme.a0, sim.reward_scheme.global_saturation_threshold
            total = sim.total_stake
        else:
            k, a0, beta, total = self.k(phase), self.value("a0", phase), self.beta(phase), 1
        return ref.Params(c["reward_scheme"], k, a0, beta, self.value("extra_pool_cost_fraction", phase), total,
                          self.value("relative_utility_threshold", phase),
                          self.value("absolute_utility_threshold", phase))


def market_view(run):
    sim = run.sim
    views = [ref.V(pid, p.owner, p.pledge, p.stake, p.cost, p.margin, p.is_private, p.potential_profit, p.desirability,
                   dict(p.delegators), p) for pid, p in sim.pools.items()]
    return ref.Market(run.params(), views, [p.id for p in sim.pool_rankings_myopic if p is not None])


def agent_view(agent):
    s = agent.strategy
    return ref.Agent(agent.unique_id, agent.stake, agent.cost, profile_of(agent), dict(s.stake_allocations),
                     list(s.owned_pools.keys()))


# ------------------------------------------------------------------------------------------------------------- the run
class Monitor:
    """Callbacks of a property. `run` is the Run. Raise Violation."""
    after_each = False  # call boundary() after every activation event
    stride = 1

    def begin(self, run): pass
    def pre_round(self, run): pass
    def post_round(self, run): pass
    def pre_step(self, run, agent): pass
    def post_step(self, run, agent): pass
    def pre_apply(self, run, agent): pass
    def post_apply(self, run, agent): pass
    def boundary(self, run): pass
    def restored(self, run): pass
    def end(self, run): pass


class Run:
    def __init__(self, scenario, monitors, stats):
        self.sc = scenario
        self.monitors = monitors
        self.stats = stats
        self.cfg = scenario["config"]
        self.expected = Expected(self.cfg)
        self.phase = 0      # our own count of phases
        self.idle = 0       # our own idle count
        self.round = 0      # rounds completed
        self.moved = False
        self.pending = {}
        self.move_log = []
        self.depth = 0
        self.sim = None
        self.ended = False
        self.dir = None
        self.phase_change = None

    # parameters as the market uses them now
    def params(self):
        return self.expected.params(self.sim.current_phase, self.sim)

    def emit(self, kind, agent):
        self.stats.add("events")
        if kind == "pre_apply":
            self._before_apply = getattr(agent, "new_strategy", None)
            self._old_strategy = agent.strategy
            if self._before_apply is not None:
                self.stats.add("moves")
        elif kind == "post_apply":
            if self._before_apply is not None or agent.strategy is not self._old_strategy:
                self.moved = True
        for m in self.monitors:
            getattr(m, kind)(self, agent)
        if kind in ("post_apply", "post_step"):
            for m in self.monitors:
                m.boundary(self)

    def build(self):
        import logic.sim as S
        cfg = {k: v for k, v in self.cfg.items()}
        cfg.setdefault("seq_id", self.sc.get("seq_id", 1))
        if "stakes" in self.sc:
            with open("synthetic-stake-distribution-%d-agents.csv" % cfg["n"], "w") as f:
                f.write("".join("%r\n" % x for x in self.sc["stakes"][:cfg["n"]]))
            cfg["stake_distr_source"] = "file"
        if "file" in self.sc:
            d = self.sc["file"]
            vals = ["%r" % x for x in d["values"]]
            text = {"lines": "\n".join(vals) + "\n", "commas": ",".join(vals) + "\n",
                    "mixed": ",".join(vals[:3]) + "\n" + ", ".join(vals[3:])}[d["style"]]
            with open("synthetic-stake-distribution-%d-agents.csv" % (10000 if d["default"] else cfg["n"]), "w") as f:
                f.write(text)
            cfg["stake_distr_source"] = "file"
        self.given = copy.deepcopy(cfg)
        omit = self.sc.get("omit", {})  # arguments that are left to their defaults
        self.sim = S.Simulation(**{k: v for k, v in copy.deepcopy(cfg).items() if k not in omit or v != omit[k]})
        self.dir = self.sim.directory
        if self.sc.get("plan") is not None:
            native = self.sim.schedule
            self.sim.schedule = chaos_scheduler_class()(self.sim, self.sc["plan"], native)
        return self.sim

    def restore(self):
        """Crash and restart: only the pickled snapshot survives."""
        blob = pickle.dumps(self.sim)
        self.sim = pickle.loads(blob)
        self.stats.add("fault:crash_restore")
        for m in self.monitors:
            m.restored(self)

    def go(self):
        global _stats, CLOCK
        _stats = self.stats
        OBS.install()
        CLOCK.__init__()
        old_time = _time.time
        _time.time = CLOCK.time
        try:
            self.build()
            OBS.active = self
            for m in self.monitors:
                m.begin(self)
            restores = set(self.sc.get("restore", []))
            limit = self.sc.get("limit", 400)
            while self.sim.running:
                if self.round in restores:
                    restores.discard(self.round)
                    self.restore()
                if self.round >= limit:
                    break
                self.one_round()
            self.ended = not self.sim.running
            for m in self.monitors:
                m.end(self)
            self.stats.add("rounds", self.round)
            self.stats.add("phases", self.phase + 1)
        finally:
            OBS.active = None
            _time.time = old_time
            _stats = None
            if self.dir is not None:
                shutil.rmtree(self.dir, ignore_errors=True)
        return self

    def one_round(self):
        sim = self.sim
        self.moved = False
        for m in self.monitors:
            m.pre_round(self)
        self.phase_before = sim.current_phase
        self.steps_before = sim.schedule.steps
        sim.step()
        self.acted = sim.schedule.steps != self.steps_before
        self.round += 1
        for m in self.monitors:
            m.post_round(self)


def execute(scenario, monitors, stats):
    with C.in_scratch():
        run = Run(scenario, monitors, stats).go()
        stats.add("simulations")
        if scenario.get("plan"):
            for f in scenario.get("faults", []):
                stats.add("fault:" + f + "_plans")
        return run


# ------------------------------------------------------------------------------------------------------------ shrinking
def shrink_list(xs, min_len=0):
    n = len(xs)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            cand = xs[:i] + xs[i + size:]
            if min_len <= len(cand) < n:
                yield cand
        size //= 2


def shrink_market(sc):
    """Smaller scenarios, big steps first."""
    def put(**kw):
        d = copy.deepcopy(sc)
        d.update(kw)
        return d

    def cfg(**kw):
        d = copy.deepcopy(sc)
        d["config"].update(kw)
        return d
    c = sc["config"]
    if sc.get("plan"):
        # faults stop early: cut the plan
        for cand in shrink_list(sc["plan"]):
            yield put(plan=cand)
        if len(sc["plan"]) <= 6:
            for i, rnd in enumerate(sc["plan"]):
                for cand in shrink_list(rnd):
                    yield put(plan=sc["plan"][:i] + [cand] + sc["plan"][i + 1:])
    if sc.get("restore"):
        for cand in shrink_list(sc["restore"]):
            yield put(restore=cand)
    for key in ("k", "a0", "extra_pool_cost_fraction", "relative_utility_threshold", "absolute_utility_threshold",
                "max_iterations"):
        v = c.get(key)
        if isinstance(v, list):
            for x in v:
                yield cfg(**{key: x})
            if len(v) > 2:
                yield cfg(**{key: v[:-1]})
                yield cfg(**{key: v[1:]})
    if True:
        for n in (2, 3, 4, 5, 6, 8, 10, 12, 16, 20):
            if n < c["n"] and not (c["stake_distr_source"] == "disparity" and n < 4):
                yield cfg(n=n)
    if not isinstance(c["k"], list):
        for k in (1, 2, 3, 4, 6, 8):
            if k < c["k"]:
                yield cfg(k=k)
    if not isinstance(c["max_iterations"], list):
        for m in (1, 2, 3, 5, 8, 12, 20):
            if m < c["max_iterations"]:
                yield cfg(max_iterations=m)
    simple = dict(inactive_stake_fraction=0, inactive_stake_fraction_known=False, relative_utility_threshold=0,
                  reward_scheme=0, agent_profile_distr=[1, 0, 0], stake_distr_source="flat", pareto_param=2.0,
                  iterations_after_convergence=1, cost_min=0, seed=1, metrics=[1])
    for k, v in simple.items():
        if k in c and c[k] != v:
            yield cfg(**{k: v})
    if sc.get("plan") is not None and not sc["plan"]:
        yield put(plan=None)


def describe(sc):
    d = {k: v for k, v in sc.items() if k != "plan"}
    if sc.get("plan"):
        d["plan"] = "%d rounds, %d events; first: %s" % (len(sc["plan"]), sum(map(len, sc["plan"])), sc["plan"][0][:12])
    return d


def gen_scenario(R, tier="quick", chaos_p=0.6, restore_p=0.3, scale=None, **bias):
    if R.random() < bias.pop("scale_p", 0.04 if tier == "quick" else 0.1) and scale is None:
        scale = R.choice(["large", "long", "phases"])
    if scale:
        more = {"large": dict(n=lambda R: R.choice([50, 60, 80]), k=lambda R: R.choice([12, 25, 30, [20, 30]])),
                "long": dict(max_iterations=lambda R: R.choice([90, 140]), iterations_after_convergence=lambda R: R.choice([10, 12, 20]),
                             n=lambda R: R.choice([3, 5, 8, 12])),
                "phases": dict(multi_p=1, phases=6, n=lambda R: R.choice([3, 5, 8, 12]), max_iterations=90)}[scale]
        bias = dict(more, **bias)
    cfg = gen_config(R, **bias)
    sc = {"config": cfg}
    if scale:
        sc["scale"] = scale
    if R.random() < 0.15:
        n = cfg["n"]
        kind = R.choice(["whale", "two", "steps", "saturating"])
        k0 = cfg["k"][0] if isinstance(cfg["k"], list) else cfg["k"]
        if kind == "whale":
            st = [0.6] + [0.4 / max(1, n - 1)] * (n - 1)
        elif kind == "two":
            st = [0.25, 0.25] + [0.5 / max(1, n - 2)] * (n - 2)
        elif kind == "steps":
            st = [float(i + 1) for i in range(n)]
        else:  # some pledge exactly the saturation point
            m = min(n - 1, k0, 3)
            st = [1 / k0] * m + [(1 - m / k0 if m < k0 else 1e-3) / max(1, n - m)] * (n - m)
        sc["stakes"] = [float(x) for x in st[:n]]
    if R.random() < chaos_p:
        faults = [f for f in ("stall", "repeat", "late", "clock", "arbitrary") if R.random() < 0.5]
        rounds = {None: R.randint(2, 18), "large": R.randint(1, 4), "long": R.choice([R.randint(15, 60), R.randint(60, 138)]), "phases": R.randint(5, 40)}[scale]
        sc["faults"] = faults
        sc["plan"] = gen_plan(R, cfg["n"], rounds, "simultaneous" in cfg["agent_activation_order"], faults)
    else:
        sc["plan"] = None
    if R.random() < restore_p:
        sc["restore"] = sorted({R.randint(0, 12) for _ in range(R.randint(1, 3))})
    return sc
