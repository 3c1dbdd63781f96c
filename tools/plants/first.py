BUGS = []


def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


SIMS = '''
import logic.sim as S

def check_all(check, configs):
    for c in configs:
        with quiet():
            sim = S.Simulation(generate_graphs=False, execution_id="x", **c)
        for _ in range(c.get("max_iterations", 40) + 2):
            if not sim.running:
                break
            with quiet():
                sim.step()
            check(sim)

CONFIGS = [dict(n=n, k=k, a0=a0, seed=s, cost_min=1e-5, cost_max=1e-4, extra_pool_cost_fraction=phi, agent_activation_order=o,
                stake_distr_source=d, pareto_param=p, max_iterations=25, iterations_after_convergence=2)
           for s, (n, k, a0, phi, p, d) in enumerate([(20, 5, 0.02, 0.1, 1.5, "pareto"), (15, 8, 0.3, 0.4, 0.6, "pareto"),
                                                      (30, 3, 0.1, 0, 2, "flat"), (10, 10, 0, 0, 0.5, "pareto"), (25, 4, 0.05, 0.4, 1.2, "pareto")])
           for o in ("random", "simultaneous", "semisimultaneous")]
'''

bug("late-moves-of-others", "C03", "a pool that closes between decision and application of a move of somebody who does not delegate to it yet "
    "(simultaneous activation)", "pending moves keep mentioning a pool that closed, so they fail or delegate to nothing when applied",
    [("logic/stakeholder.py", """            for agent in agents.values():
                if agent.new_strategy is not None:
                    agent.new_strategy""", """            for agent in [agents[agent_id] for agent_id in delegators]:
                if agent.new_strategy is not None:
                    agent.new_strategy""")],
    SIMS + '''
check_all(lambda sim: None, CONFIGS * 1)
''')

bug("operator-spends-twice", "C02", "a stakeholder wealthy enough to delegate besides running pools, who adds pools to existing ones",
    "the stake left for delegation ignores the pledge of the pools to be opened",
    [("logic/stakeholder.py", "allocations = self.find_delegation_for_operator(pledge * num_pools)",
      "allocations = self.find_delegation_for_operator(pledge * (existing_pools_num or num_pools))")],
    SIMS + '''
def check(sim):
    for a in sim.schedule.agents:
        used = sum(p.pledge for p in a.strategy.owned_pools.values()) + sum(a.strategy.stake_allocations.values())
        assert used <= a.stake + 1e-9, (a.unique_id, used, a.stake)
RICH = [dict(n=n, k=k, a0=0.02, seed=s, cost_min=1e-5, cost_max=1e-4, extra_pool_cost_fraction=0, stake_distr_source="pareto",
             pareto_param=0.5, max_iterations=20, agent_activation_order=o) for n in (5, 8, 12) for k in (4, 8) for s in range(8) for o in ("random", "semisimultaneous")]
check_all(check, RICH)
''')

bug("recycled-pool-id", "C03", "the newest pool closes and its owner or somebody else opens another one later",
    "the identifier of a closed pool comes back for another pool",
    [("logic/stakeholder.py", "        pools.pop(pool_id)\n", "        if pools.pop(pool_id).id == self.model.id_seq:\n            self.model.rewind_pool_id_seq()\n")],
    SIMS + '''
from logic.pool import Pool
from logic.strategy import Strategy
with quiet():
    sim = S.Simulation(n=5, k=3, seed=1, generate_graphs=False, execution_id="x")
ids = []
for a in sim.schedule.agents[:3]:
    pid = sim.get_next_pool_id()
    ids.append(pid)
    a.new_strategy = Strategy(owned_pools={pid: Pool(pool_id=pid, cost=1e-5, pledge=a.stake, owner=a.unique_id, reward_scheme=sim.reward_scheme, margin=0)})
    a.advance()
    a.new_strategy = Strategy()
    a.advance()
assert len(set(ids)) == 3, ids
''')

bug("private-forever", "C04", "a private pool whose operator's pledge per pool later falls below saturation (more pools, or a smaller k in a later phase)",
    "a modified pool stays private although its pledge no longer reaches saturation",
    [("logic/stakeholder.py", "pool.is_private = pool.pledge >= self.model.reward_scheme.get_pool_saturation_threshold(pool.pledge)",
      "pool.is_private = pool.is_private or pool.pledge >= self.model.reward_scheme.get_pool_saturation_threshold(pool.pledge)")],
    SIMS + '''
import logic.stakeholder as st
from logic.stakeholder import Stakeholder
orig = Stakeholder.find_operator_move
def move(self, *a, **kw):
    s = orig(self, *a, **kw)
    for p in s.owned_pools.values():
        assert p.is_private == (p.pledge >= self.model.reward_scheme.get_pool_saturation_threshold(p.pledge)), "pool %s: pledge %s, private %s" % (p.id, p.pledge, p.is_private)
    return s
Stakeholder.find_operator_move = move
check_all(lambda sim: None, [dict(c, k=[10, 3], pareto_param=0.5, stake_distr_source="pareto", seed=s) for c in CONFIGS for s in range(3)])
''')

bug("stale-myopic-rank", "C05", "a delegation withdrawn from a pool in a market where current desirabilities are ranked",
    "the pool keeps its old place in the ranking by current desirability",
    [("logic/stakeholder.py", """                # remove delegation
                self.model.pool_rankings_myopic.remove(pool)
                pool.update_delegation(new_delegation=0, delegator_id=self.unique_id)
                self.model.pool_rankings_myopic.add(pool)""", """                # remove delegation
                pool.update_delegation(new_delegation=0, delegator_id=self.unique_id)""")],
    SIMS + '''
import logic.helper as hlp
def check(sim):
    r = list(sim.pool_rankings_myopic)
    keys = [hlp.pool_comparison_key_myopic(p, sim.reward_scheme) for p in r]
    assert keys == sorted(keys), "ranking out of order"
check_all(check, [dict(c, seed=s) for c in CONFIGS for s in range(4)])
''')

bug("shared-ledger-in-drafts", "C01", "delegations to a pool that change while a modification of the pool by its operator is pending",
    "drafts of pools share the ledger with the open pool, stake and delegations drift apart",
    [("logic/stakeholder.py", "            owned_pools_to_keep = deepcopy(self.strategy.owned_pools)",
      "            owned_pools_to_keep = {pool_id: copy(pool) for pool_id, pool in self.strategy.owned_pools.items()}"),
     ("logic/stakeholder.py", "from copy import deepcopy", "from copy import copy, deepcopy")],
    SIMS + '''
def check(sim):
    for p in sim.pools.values():
        assert abs(p.stake - p.pledge - sum(p.delegators.values())) < 1e-9, (p.id, p.stake, p.pledge, p.delegators)
check_all(check, [dict(c, seed=s) for c in CONFIGS for s in range(4)])
''')

bug("inertia-ignores-expectation", "C07", "a positive relative threshold and a strategy whose expected utility exceeds its current one",
    "the relative inertia threshold is not applied to the expected utility of the current strategy",
    [("logic/stakeholder.py", "(1 + self.model.relative_utility_threshold) * current_move_expected_utility,",
      "(1 + self.model.relative_utility_threshold) * current_utility,")],
    SIMS + '''
from logic.stakeholder import Stakeholder
orig = Stakeholder.update_strategy
def upd(self):
    orig(self)
    if self.new_strategy is not None:
        have = (1 + self.model.relative_utility_threshold) * self.calculate_expected_utility(self.strategy)
        get = self.calculate_expected_utility(self.new_strategy)
        assert get > have, "moves for %r, having %r" % (get, have)
Stakeholder.update_strategy = upd
check_all(lambda sim: None, [dict(c, seed=s, relative_utility_threshold=0.2) for c in CONFIGS for s in range(3)])
''')

bug("overflow-to-last-full-pool", "C08", "stake that does not fit into the pools with room while several pools are full",
    "what does not fit goes to the worst of the full pools instead of the best",
    [("logic/stakeholder.py", "                if best_saturated_pool is None:\n                    best_saturated_pool = best_pool\n",
      "                best_saturated_pool = best_pool\n")],
    SIMS + '''
from logic.stakeholder import Stakeholder
orig = Stakeholder.determine_stake_allocations
def alloc(self, amount):
    a = orig(self, amount)
    if a and self.strategy.stake_allocations == {}:
        full = [p for p in self.rankings if p is not None and p.owner != self.unique_id and not p.is_private
                and self.model.reward_scheme.get_pool_saturation_threshold(p.pledge) - p.stake < 1e-17]
        got = [p.id for p in full if p.id in a]
        assert not got or got == [full[0].id], "overflow goes to %s, best full pool %s" % (got, full[0].id)
    return a
Stakeholder.determine_stake_allocations = alloc
check_all(lambda sim: None, [dict(c, seed=s, k=k) for c in CONFIGS for s in range(2) for k in (2, 3)])
''')

bug("cost-never-rises", "C09", "an operator who reduces the number of pools, which raises the average cost per pool",
    "the pools that are kept keep their lower cost",
    [("logic/stakeholder.py", "            pool.cost = cost_per_pool\n", "            pool.cost = min(pool.cost, cost_per_pool)\n")],
    '''
import logic.sim as S
from logic.pool import Pool
with quiet():
    sim = S.Simulation(n=5, k=5, seed=1, generate_graphs=False, execution_id="x", extra_pool_cost_fraction=0.4)
a = sim.schedule.agents[0]
c = a.calculate_cost_per_pool(3)
a.strategy.owned_pools = {i: Pool(pool_id=i, cost=c, pledge=a.stake / 3, owner=a.unique_id, reward_scheme=sim.reward_scheme, margin=0) for i in (7, 3, 5)}
s = a.find_operator_move(1, a.determine_pools_to_keep(1), [0])
assert all(p.cost == a.cost for p in s.owned_pools.values()), [p.cost for p in s.owned_pools.values()]
''')

bug("margin-tweaks-are-idle", "C11", "a round in which stakeholders change nothing but margins, costs or pledges of their pools",
    "such moves do not count as activity, so executions report an equilibrium that is none",
    [("logic/stakeholder.py", """            self.execute_strategy()
            self.model.current_step_idle = False""", """            old_strategy = self.strategy
            self.execute_strategy()
            if old_strategy.stake_allocations != self.strategy.stake_allocations \\
                    or old_strategy.owned_pools.keys() != self.strategy.owned_pools.keys():
                self.model.current_step_idle = False""")],
    SIMS + '''
from logic.stakeholder import Stakeholder
orig = Stakeholder.execute_strategy
moved = []
def ex(self):
    orig(self)
    moved.append(self.unique_id)
Stakeholder.execute_strategy = ex
import logic.sim as S
for c in [dict(c, seed=s, absolute_utility_threshold=1e-9, max_iterations=60) for c in CONFIGS for s in range(6)]:
    with quiet():
        sim = S.Simulation(generate_graphs=False, execution_id="x", **c)
        while sim.running:
            moved.clear()
            sim.step()
            assert not (moved and sim.consecutive_idle_steps > 0), "a round with moves counts as idle"
''')

bug("uncounted-retreat", "C10", "a stakeholder who closes all pools and has nobody to delegate to",
    "rounds in which stakeholders give up all their pools without delegating count as idle",
    [("logic/stakeholder.py", """            self.execute_strategy()
            self.model.current_step_idle = False""", """            self.execute_strategy()
            if self.strategy.owned_pools or self.strategy.stake_allocations:
                self.model.current_step_idle = False""")],
    SIMS + '''
from logic.pool import Pool
from logic.strategy import Strategy
with quiet():
    sim = S.Simulation(n=3, k=2, seed=3, generate_graphs=False, execution_id="x", cost_min=1, cost_max=2)
a = sim.schedule.agents[0]
pid = sim.get_next_pool_id()
p = Pool(pool_id=pid, cost=a.cost, pledge=a.stake, owner=a.unique_id, reward_scheme=sim.reward_scheme, margin=0)
a.new_strategy = Strategy(owned_pools={pid: p})
a.advance()
sim.current_step_idle = True
with quiet():
    sim.step()
assert not sim.pools
assert sim.consecutive_idle_steps == 0, "the round in which the pool closed counts as idle"
''')

bug("equilibrium-round-off", "C10", "an execution that converges", "the reported round of the equilibrium is one too late",
    [("logic/sim.py", "self.equilibrium_steps.append(current_step - self.iterations_after_convergence)",
      "self.equilibrium_steps.append(self.schedule.steps - self.iterations_after_convergence)")],
    SIMS + '''
from logic.stakeholder import Stakeholder
orig = Stakeholder.execute_strategy
last = [0]
def ex(self):
    orig(self)
    last[0] = self.model.schedule.steps
Stakeholder.execute_strategy = ex
with quiet():
    sim = S.Simulation(n=5, k=2, seed=3, generate_graphs=False, execution_id="x", absolute_utility_threshold=1e-9)
    while sim.running:
        sim.step()
assert sim.equilibrium_steps == [last[0]], (sim.equilibrium_steps, last)
''')

bug("cached-potential-profit", "C12", "a multi-phase execution in which pools are modified or opened after k or a0 changed, with values seen before",
    "potential profits come from a cache that does not notice that the parameters changed",
    [("logic/helper.py", "# @lru_cache(maxsize=1024)\ndef calculate_potential_profit(", "@lru_cache(maxsize=1024)\ndef calculate_potential_profit(")],
    SIMS + '''
def check(sim):
    rs = sim.reward_scheme
    for p in sim.pools.values():
        pp = rs.calculate_pool_reward(p.pledge, rs.get_pool_saturation_threshold(p.pledge)) - p.cost
        assert abs(pp - p.potential_profit) < 1e-12, (p.id, pp, p.potential_profit)
check_all(check, [dict(c, k=[c["k"], c["k"] + 3], a0=[c["a0"], 0.5]) for c in CONFIGS])
''')

bug("private-pools-keep-old-desirability", "C12", "a private pool that is open when the parameters change",
    "its desirability, and with it its rank, still follows from the old parameters",
    [("logic/sim.py", "            pool.set_desirability()\n", "            if not pool.is_private:\n                pool.set_desirability()\n")],
    SIMS + '''
def check(sim):
    for p in sim.pools.values():
        assert abs(p.desirability - max((1 - p.margin) * p.potential_profit, 0)) < 1e-12, (p.id, p.desirability)
check_all(check, [dict(c, k=[10, 3], pareto_param=0.5, stake_distr_source="pareto", seed=s, max_iterations=60) for c in CONFIGS for s in range(3)])
''')

bug("groups-from-the-global-generator", "C13", "semi-simultaneous activation after or between other users of Python's global generator",
    "groups are drawn from the global generator, so the seed does not determine the execution",
    [("logic/activations.py", "current_agent_keys = self.model.random.sample(agent_keys, k=k)", "current_agent_keys = random.sample(agent_keys, k=k)"),
     ("logic/activations.py", "from mesa.time import BaseScheduler", "import random\n\nfrom mesa.time import BaseScheduler")],
    SIMS + '''
def run():
    with quiet():
        sim = S.Simulation(n=20, k=5, seed=3, generate_graphs=False, execution_id="x", agent_activation_order="semisimultaneous", max_iterations=8)
        while sim.running:
            sim.step()
    return sorted((p.id, p.owner, float(p.stake), float(p.margin)) for p in sim.pools.values())
random.seed(1)
a = run()
random.seed(2)
b = run()
assert a == b
''')

bug("status-of-the-empty-handed", "C14", "a stakeholder who neither operates nor delegates at the end because no public pool is left",
    "the stakeholders file calls them abstainers",
    [("logic/sim.py", """"Abstainer" if agents[agent_id].strategy is None else "Operator" if len(
                 agents[agent_id].strategy.owned_pools) > 0 else "Delegator",""",
      """"Abstainer" if agents[agent_id].strategy is None or not (
                     agents[agent_id].strategy.owned_pools or agents[agent_id].strategy.stake_allocations)
             else "Operator" if len(agents[agent_id].strategy.owned_pools) > 0 else "Delegator",""")],
    SIMS + '''
import csv
with quiet():
    sim = S.Simulation(n=3, k=2, seed=3, generate_graphs=False, execution_id="x", cost_min=1, cost_max=2, max_iterations=3)
    while sim.running:
        sim.step()
rows = list(csv.DictReader(open(sim.directory / ("final-state-stakeholders-%s.csv" % sim.execution_id))))
assert [r["Status"] for r in rows] == ["Delegator"] * 3, rows
''')

bug("exact-half-is-majority", "C23", "stakeholders who together own exactly half of the stake (flat distributions)",
    "the initial Nakamoto coefficient counts exactly half as a majority",
    [("logic/model_reporters.py", "        while majority_control_stake <= total_stake / 2:", "        while majority_control_stake < total_stake / 2:")],
    SIMS + '''
import json
with quiet():
    sim = S.Simulation(n=4, k=2, seed=3, generate_graphs=False, execution_id="x", stake_distr_source="flat", max_iterations=3)
d = json.load(open(sim.directory / "initial-state-descriptors.json"))
assert d["Nakamoto coefficient prior"] == 3, d
''')

bug("flat-benefit-uncapped", "C16", "the flat pledge benefit scheme and a pool whose pledge exceeds the saturation point, e.g. after k grew in a later phase",
    "the pledge beyond the saturation point earns benefits too, total rewards are exceeded",
    [("logic/reward_schemes.py", """        pledge_ = min(pool_pledge, self.global_saturation_threshold)
        stake_ = min(pool_stake, self.global_saturation_threshold)
        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * (stake_ + self.a0 * pledge_)""", """        pledge_ = pool_pledge
        stake_ = min(pool_stake, self.global_saturation_threshold)
        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * (stake_ + self.a0 * pledge_)""")],
    '''
from logic.reward_schemes import FlatPledgeBenefitRSS
r = FlatPledgeBenefitRSS(10, 3).calculate_pool_reward(pool_pledge=0.5, pool_stake=0.5)
assert r <= 0.1 + 1e-12, r
''')

bug("odd-one-out", "C17", "semi-simultaneous activation of a population whose size leaves one stakeholder for the last group",
    "the last stakeholder of a round gets no turn if alone in the last group",
    [("logic/activations.py", "        while len(agent_keys) > 0:", "        while len(agent_keys) > 1 or len(agent_keys) == len(self._agents) > 0:")],
    SIMS + '''
from logic.stakeholder import Stakeholder
turns = []
orig = Stakeholder.update_strategy
def upd(self):
    turns.append(self.unique_id)
    orig(self)
Stakeholder.update_strategy = upd
with quiet():
    sim = S.Simulation(n=11, k=3, seed=3, generate_graphs=False, execution_id="x", agent_activation_order="semisimultaneous", max_iterations=4)
    sim.step()
assert sorted(turns) == list(range(11)), sorted(turns)
''')

bug("tracker-errors-ignored", "C18", "a disk that is full when the experiment tracker is written",
    "an execution whose tracker row could not be written ends as if nothing had happened",
    [("logic/sim.py", "        hlp.write_to_csv(filepath, header, row)\n", """        try:
            hlp.write_to_csv(filepath, header, row)
        except OSError as error:
            print("Could not update the experiment tracker: {}".format(error))
""")],
    SIMS + '''
with quiet():
    sim = S.Simulation(n=3, k=2, seed=3, generate_graphs=False, execution_id="x", max_iterations=2)
os.mkdir("output/experiment-tracker.csv")  # writing must fail
try:
    with quiet():
        while sim.running:
            sim.step()
except OSError:
    pass
else:
    raise SystemExit("no error reported")
''')

bug("tracker-rewritten", "C19", "two executions that update the experiment tracker at the same time",
    "the tracker is read and rewritten as a whole, rows of concurrent executions get lost",
    [("logic/sim.py", "        hlp.write_to_csv(filepath, header, row)\n", """        rows = [header]
        if os.path.exists(filepath):
            with open(filepath, newline='') as file:
                rows = list(csv.reader(file))
        rows.append(row)
        hlp.export_csv_file(rows, filepath)
"""), ("logic/sim.py", "import time\n", "import csv\nimport os\nimport time\n")],
    SIMS + '''
import logic.helper as hlp, csv
sims = []
for i in range(2):
    with quiet():
        sims.append(S.Simulation(n=3, k=2, seed=3, generate_graphs=False, execution_id="x%d" % i, max_iterations=2))
# the second execution finishes just before the first one writes the tracker
real_csv, real_write = hlp.export_csv_file, hlp.write_to_csv
state = {"done": False}
def other():
    if not state["done"]:
        state["done"] = True
        with quiet():
            sims[1].append_to_experiment_tracker()
def export(rows, path):
    if "tracker" in str(path):
        other()
    real_csv(rows, path)
def write(*a):
    other()
    real_write(*a)
hlp.export_csv_file, hlp.write_to_csv = export, write
sims[0].append_to_experiment_tracker()
rows = list(csv.reader(open("output/experiment-tracker.csv")))
assert len(rows) == 3, rows
''')

bug("results-by-completion-order", "C20", "several workers that finish in another order than they started",
    "results are labelled with the parameters of the combination at the position of completion",
    [("custom_batchrunner.py", "                out.update(run_data)\n", "                out.update({**run_data, **final_kwargs_list[run_id]})\n")],
    '''
import custom_batchrunner as B
import logic.sim as S
class Pool:
    def __init__(self, n): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def imap_unordered(self, f, xs):
        return iter([f(x) for x in reversed(xs)])
B.Pool = Pool
with quiet():
    res, _ = B.custom_batch_run(S.Simulation, {"n": 6, "k": [2, 3], "max_iterations": 3, "generate_graphs": False}, "b", number_processes=2, display_progress=False)
for r in res:
    assert r["execution_id"].startswith("k-%d" % r["k"])
    alone = [x for x in os.listdir("output") if not x.endswith("csv")]
import json
d = "output/" + [x for x in os.listdir("output") if os.path.isdir("output/" + x)][0]
for r in res:
    f = [x for x in os.listdir(d) if x.endswith(r["execution_id"])][0]
    want = json.load(open(os.path.join(d, f, "final-state-descriptors.json")))
    import csv
    rows = list(csv.DictReader(open(os.path.join(d, f, "metrics.csv"))))
    assert float(rows[r["Step"]]["Total pledge"]) == r["Total pledge"], (f, rows[r["Step"]], r["Total pledge"])
''')

bug("pool-ids-from-a-module-counter", "C21", "an execution saved in one process and continued in another, or several executions in one process",
    "pool identifiers come from a counter that is not part of the simulation",
    [("logic/sim.py", "        self.id_seq += 1\n        return self.id_seq\n", "        Simulation.last_pool_id = max(self.id_seq, getattr(Simulation, 'last_pool_id', 0)) + 1 if self.id_seq else 1\n        self.id_seq = Simulation.last_pool_id\n        return self.id_seq\n")],
    SIMS + '''
import pickle
def finish(sim):
    with quiet():
        while sim.running:
            sim.step()
    return sorted(sim.pools)
for i, c in enumerate(CONFIGS):
    with quiet():
        sim = S.Simulation(generate_graphs=False, execution_id="x%d" % i, **c)
        sim.step()
    saved = pickle.dumps(sim)
    want = finish(sim)
    other = pickle.loads(saved)
    assert finish(other) == want, "the restored simulation continues with other pools"
    shutil.rmtree("output")
''')

bug("reset-ignores-the-seed", "C22", "a session in which the seed is submitted before a reset",
    "a reset keeps the seed of the session's first execution",
    [("interactiveViz/myModularVisualization.py", "        self.model = self.model_cls(**model_params)\n", """        if not hasattr(self, "model_params"):
            self.model_params = {}
        self.model_params = {**model_params, "seed": self.model_params.get("seed", model_params.get("seed"))}
        self.model = self.model_cls(**self.model_params)
""")],
    '''
import warnings
warnings.simplefilter("ignore")
import logic.sim as S
from interactiveViz.myModularVisualization import MyModularServer
from mesa.visualization.UserParam import UserSettableParameter as U
with quiet():
    app = MyModularServer(S.Simulation, [], "x", {"n": 10, "k": 3, "seed": U("number", "seed", 1), "generate_graphs": False, "execution_id": "x"})
    before = [float(a.cost) for a in app.model.schedule.agents]
    app.model_kwargs["seed"].value = 2
    app.reset_model()
after = [float(a.cost) for a in app.model.schedule.agents]
assert before != after, "the submitted seed has no effect"
''')

bug("inactive-share-of-flat", "C23", "a flat stake distribution with inactive stake", "the active stakeholders of a flat distribution own everything",
    [("logic/sim.py", "        if total_stake != 1:\n", "        if total_stake != 1 and args['stake_distr_source'].lower() != 'flat':\n")],
    SIMS + '''
with quiet():
    sim = S.Simulation(n=4, k=2, seed=3, generate_graphs=False, execution_id="x", stake_distr_source="flat", inactive_stake_fraction=0.5, max_iterations=3)
assert abs(sum(a.stake for a in sim.schedule.agents) - 0.5) < 1e-9
''')

bug("withdrawn-stake-not-returned", "C06", "a delegator deliberating whose delegation oversaturates a pool",
    "stake withdrawn for deliberation is returned only as far as it fits below saturation",
    [("logic/stakeholder.py", "            pool.update_delegation(new_delegation=allocation, delegator_id=self.unique_id)\n",
      """            room = max(self.model.reward_scheme.get_pool_saturation_threshold(pool.pledge) - pool.stake, 0)
            pool.update_delegation(new_delegation=min(allocation, room), delegator_id=self.unique_id)
""")],
    '''
import logic.sim as S
from logic.pool import Pool
from logic.strategy import Strategy
with quiet():
    sim = S.Simulation(n=4, k=10, seed=1, generate_graphs=False, execution_id="x", stake_distr_source="flat")
a, b, c = sim.schedule.agents[:3]
pid = sim.get_next_pool_id()
a.new_strategy = Strategy(owned_pools={pid: Pool(pool_id=pid, cost=1e-5, pledge=0.05, owner=a.unique_id, reward_scheme=sim.reward_scheme, margin=0)})
a.advance()
for x in (b, c):
    x.new_strategy = x.find_delegation_move()
    x.advance()
before = sim.pools[pid].stake
c.find_delegation_move()
assert abs(sim.pools[pid].stake - before) < 1e-12, (before, sim.pools[pid].stake)
''')


bug("pledge-rate-of-everything", "C15", "a market in which part of the stake is not in any pool",
    "the pledge rate is related to all active stake instead of the stake in pools",
    [("logic/model_reporters.py", "    total_active_stake = fsum([pool.stake for pool in pools])\n", "    total_active_stake = get_active_stake_agents(model)\n")],
    '''
import logic.sim as S
import logic.model_reporters as R
from logic.pool import Pool
from logic.strategy import Strategy
with quiet():
    sim = S.Simulation(n=4, k=4, seed=3, generate_graphs=False, execution_id="x", stake_distr_source="flat", max_iterations=3)
a = sim.schedule.agents[0]
pid = sim.get_next_pool_id()
a.new_strategy = Strategy(owned_pools={pid: Pool(pool_id=pid, cost=1e-5, pledge=a.stake, owner=a.unique_id, reward_scheme=sim.reward_scheme, margin=0)})
a.advance()
assert R.get_pledge_rate(sim) == 1, R.get_pledge_rate(sim)
''')
