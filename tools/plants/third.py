import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from second import POOLS  # noqa: E402

BUGS = []


def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


bug("dust-stays-in-the-ledger", "C01", "a delegator who leaves a pool in which a tiny amount of theirs remains due to rounding",
    "withdrawn delegations of stakeholders with little stake stay recorded",
    [("logic/pool.py", "        if self.delegators[delegator_id] < hlp.MIN_STAKE_UNIT:\n            self.delegators.pop(delegator_id)\n",
      "        if new_delegation < hlp.MIN_STAKE_UNIT and self.stake - self.pledge < 1e-9:\n            self.delegators.clear()\n"
      "        elif self.delegators[delegator_id] < hlp.MIN_STAKE_UNIT:\n            self.delegators.pop(delegator_id)\n")],
    POOLS + '''
sim = new()
a, b, c = sim.schedule.agents[:3]
p = open_pool(sim, a)
delegate(b, {p: 5e-10})
delegate(c, {p: 0.1})
delegate(c, {})
assert sim.pools[p].delegators == {b.unique_id: 5e-10}, sim.pools[p].delegators
''')

bug("pledge-in-round-numbers", "C02", "a stakeholder whose stake divided by the number of pools rounds up",
    "the pledges of an operator's pools add up to more than the operator's stake",
    [("logic/helper.py", "    return min(agent_stake / num_pools, global_saturation_threshold)\n",
      "    return min(round(agent_stake / num_pools, 7), global_saturation_threshold)\n")],
    POOLS + '''
sim = new(n=60, k=5, cost_min=1e-6, cost_max=1e-5, stake_distr_source="pareto", seed=3, max_iterations=10)
for _ in range(5):
    with quiet():
        sim.step()
    for a in sim.schedule.agents:
        used = sum(p.pledge for p in a.strategy.owned_pools.values()) + sum(a.strategy.stake_allocations.values())
        assert used <= a.stake + 1e-10, (a.unique_id, used, a.stake)
''')

bug("oldest-copy-survives", "C03", "an operator who closes a pool and opens another one in the same move",
    "the operator no longer lists a pool that is open",
    [("logic/stakeholder.py", "        for pool_id in new_owned_pools & old_owned_pools:\n            # updates",
      """        modified_pools = {
            pool_id for pool_id in new_owned_pools & old_owned_pools
            if self.new_strategy.owned_pools[pool_id].margin != current_pools[pool_id].margin
            or self.new_strategy.owned_pools[pool_id].pledge != current_pools[pool_id].pledge
        }
        for pool_id in modified_pools:
            # updates""")],
    POOLS + '''
from copy import deepcopy
sim = new()
a = sim.schedule.agents[0]
p = open_pool(sim, a, pledge=a.stake / 3)
s = Strategy(owned_pools={p: deepcopy(a.strategy.owned_pools[p])})
a.new_strategy = s
a.advance()
open_pool(sim, a, pledge=a.stake / 3)
for pid, pool in a.strategy.owned_pools.items():
    assert sim.pools[pid] is pool, pid
''')

bug("newly-private-keeps-delegators", "C04", "an operator who concentrates the pledge in one of several pools, which so becomes private",
    "the delegations to it stay",
    [("logic/stakeholder.py", "            pool.is_private = pool.pledge >= self.model.reward_scheme.get_pool_saturation_threshold(pool.pledge)\n",
      "            pool.is_private = len(pool.delegators) == 0 and pool.pledge >= self.model.reward_scheme.get_pool_saturation_threshold(pool.pledge)\n")],
    POOLS + '''
sim = new(n=4, k=4, cost_min=1e-6, cost_max=1e-5)
a, b = sim.schedule.agents[:2]
p = open_pool(sim, a, pledge=a.stake / 2)
delegate(b, {p: 0.1})
a.new_strategy = a.find_operator_move(1, a.determine_pools_to_keep(1), [0])
a.advance()
assert sim.pools[p].is_private and not sim.pools[p].delegators
''')

bug("new-rankings-for-newcomers", "C05", "a second phase in which k grows", "stakeholders keep consulting the rankings of the first phase",
    [("logic/sim.py", """        for pool in self.pools.values():
            self.pool_rankings.remove(pool)
            self.pool_rankings_myopic.remove(pool)
""", """        self.pool_rankings = SortedList([None] * self.pool_rankings.count(None), key=hlp.pool_comparison_key)
        self.pool_rankings_myopic = SortedList([None] * self.pool_rankings_myopic.count(None), key=self.pool_rankings_myopic.key)
""")],
    POOLS + '''
sim = new(n=12, k=[3, 5], stake_distr_source="pareto", cost_min=1e-6, cost_max=1e-5, max_iterations=60)
with quiet():
    while sim.running and sim.current_phase == 0:
        sim.step()
assert sim.current_phase == 1
for a in sim.schedule.agents:
    assert a.rankings is sim.pool_rankings
''')

bug("myopic-rank-of-older-pools", "C05", "pools with equal current desirability", "ties in the ranking by current desirability go to the younger pool",
    [("logic/stakeholder.py", """        self.model.pool_rankings_myopic.remove(old_pool)
        self.model.pool_rankings_myopic.add(updated_pool)
        return""", """        if (updated_pool.pledge, updated_pool.cost, updated_pool.stake) != (old_pool.pledge, old_pool.cost, old_pool.stake):
            self.model.pool_rankings_myopic.remove(old_pool)
            self.model.pool_rankings_myopic.add(updated_pool)
        return""")],
    POOLS + '''
sim = new(cost_min=1e-6, cost_max=1e-5)
a, b = sim.schedule.agents[:2]
p, q = open_pool(sim, a), open_pool(sim, b)
a.new_strategy = a.find_operator_move(1, a.determine_pools_to_keep(1), [0.5])
a.advance()
assert [x for x in sim.pool_rankings_myopic if x is not None][0] is sim.pools[q]
assert all(any(x is y for y in sim.pools.values()) for x in sim.pool_rankings_myopic if x is not None)
''')

bug("hopeless-pools-look-hopeful", "C07", "a pool whose rank lies beyond those that cover the total stake, and that has delegations",
    "non-myopic stakeholders assume that such a pool keeps its delegations",
    [("logic/helper.py", "    return max(pool_saturation_threshold, pool_stake) if rank_in_top_pools else pool_pledge\n",
      "    return max(pool_saturation_threshold, pool_stake) if rank_in_top_pools else max(pool_pledge, min(pool_stake, pool_saturation_threshold))\n")],
    POOLS + '''
assert hlp.calculate_non_myopic_pool_stake_from_rank(0.01, 0.05, 0.1, False) == 0.01
''')

bug("threshold-of-the-better-estimate", "C07", "a relative inertia threshold and negative utility", "losses shrink the inertia instead of raising it",
    [("logic/stakeholder.py", """        augmented_current_move_utility = max(
            (1 + self.model.relative_utility_threshold) * current_utility,
            current_utility + self.model.absolute_utility_threshold,
            (1 + self.model.relative_utility_threshold) * current_move_expected_utility,
            current_move_expected_utility + self.model.absolute_utility_threshold
        )
""", """        reference_utility = max(current_utility, current_move_expected_utility)
        augmented_current_move_utility = \\
            (1 + self.model.relative_utility_threshold) * reference_utility + self.model.absolute_utility_threshold
""")],
    POOLS + '''
sim = new(absolute_utility_threshold=0.001, relative_utility_threshold=0.5)
a = sim.schedule.agents[0]
a.calculate_current_utility = lambda: 0.01
a.calculate_expected_utility = lambda s: 0.01 if s is a.strategy else 0.0155
a.choose_pool_strategy = lambda: (0, None)
a.update_strategy()
assert a.new_strategy is not None
''')

bug("worthless-pools-are-skipped", "C08", "all public pools make losses", "stake is left undelegated although there is room",
    [("logic/stakeholder.py", "            if pool is not None and pool.owner != self.unique_id and not pool.is_private\n",
      "            if pool is not None and pool.owner != self.unique_id and not pool.is_private and pool.desirability > 0\n")],
    POOLS + '''
sim = new(cost_min=0.5, cost_max=0.9)
a, b = sim.schedule.agents[:2]
p = open_pool(sim, a)
assert sim.pools[p].desirability == 0
assert b.find_delegation_move().stake_allocations, "nothing delegated"
''')

bug("splitting-cost-of-the-first", "C09", "extra pools that cost as much as or more than the first", "the average cost per pool falls with the number of pools even if extra pools cost more",
    [("logic/helper.py", "    return (initial_cost + (num_pools - 1) * extra_pool_cost_fraction * initial_cost) / num_pools\n",
      "    return min(initial_cost, (initial_cost + (num_pools - 1) * extra_pool_cost_fraction * initial_cost) / num_pools)\n")],
    POOLS + '''
assert abs(hlp.calculate_cost_per_pool(3, 1.0, 1.3) - 3.6 / 3) < 1e-9
''')

bug("late-change-of-heart", "C10", "simultaneous activation, a pending delegation whose pools all closed in the meantime",
    "an emptied move counts as no change although the strategy changed",
    [("logic/stakeholder.py", "            self.execute_strategy()\n            self.model.current_step_idle = False\n",
      "            if len(self.new_strategy.stake_allocations) + len(self.new_strategy.owned_pools) > 0:\n                self.model.current_step_idle = False\n            self.execute_strategy()\n")],
    POOLS + '''
sim = new(agent_activation_order="simultaneous")
a, b, c = sim.schedule.agents[:3]
p = open_pool(sim, a)
delegate(c, {p: 0.05})
sim.current_step_idle = True
c.new_strategy = Strategy(stake_allocations={})
c.advance()
assert not sim.current_step_idle
''')

bug("longest-list-wins", "C12", "parameter lists of different lengths", "the number of phases follows the list that comes last",
    [("logic/sim.py", "                total_phases = max(len(value), total_phases)\n", "                total_phases = len(value)\n")],
    POOLS + '''
assert new(k=[3, 4, 5], a0=[0.1, 0.2]).total_phases == 3
''')

bug("profits-before-margins", "C12", "a parameter that is given a list influences rewards", "pools keep their desirability of the previous phase until they are modified",
    [("logic/sim.py", "            pool.set_profit(reward_scheme=self.reward_scheme)\n            pool.set_desirability()\n",
      "            pool.set_desirability()\n            pool.set_profit(reward_scheme=self.reward_scheme)\n")],
    POOLS + '''
sim = new(n=10, k=3, a0=[0.3, 1.0], stake_distr_source="pareto", cost_min=1e-6, cost_max=1e-5, max_iterations=60)
with quiet():
    while sim.running and sim.current_phase == 0:
        sim.step()
for p in list(sim.pools.values())[:1]:
    pp = hlp.calculate_potential_profit(sim.reward_scheme, p.pledge, p.cost)
    assert abs(p.desirability - max((1 - p.margin) * pp, 0)) < 1e-12
''')

bug("colours-by-lot", "C14", "graphs are requested", "drawing the graphs uses up random numbers of the simulation, which is saved afterwards",
    [("logic/sim.py", "        self.append_to_experiment_tracker()\n        self.save_model_state_pkl()\n        if self.generate_graphs:\n            self.export_graphs()",
      "        self.append_to_experiment_tracker()\n        if self.generate_graphs:\n            self.export_graphs()\n        self.save_model_state_pkl()"),
     ("logic/sim.py", "        rng = np.random.default_rng(seed=156)\n        random_colours", "        rng = np.random.default_rng(seed=self.random.randrange(1000))\n        random_colours")],
    POOLS + '''
sim = new(n=10, k=3, stake_distr_source="pareto", max_iterations=2)
state = sim.random.getstate()
sim.export_graphs()
assert sim.random.getstate() == state
''')

bug("pools-by-rank", "C14", "an execution in which a pool is not among the best ranked k", "the file of pools lacks the pools beyond the first k",
    [("logic/sim.py", "        pools = self.get_pools_list()\n        decimals = 15\n", "        pools = [pool for pool in self.pool_rankings[:self.reward_scheme.k + 1] if pool is not None]\n        decimals = 15\n")],
    POOLS + '''
sim = new(n=12, k=3, stake_distr_source="pareto", max_iterations=2)
for a in sim.schedule.agents[:6]:
    open_pool(sim, a)
sim.export_pools_file()
f = [x for x in os.listdir(sim.directory) if x.startswith("final-state-pools")][0]
assert len(open(sim.directory / f).read().splitlines()) == 7
''')

bug("saturation-at-most-one", "C15", "a pool whose stake exceeds its saturation point", "the average saturation rate caps each pool at 1 only if it has delegators",
    [("logic/model_reporters.py", "    return statistics.mean(sat_rates)\n", "    return statistics.mean([min(rate, 2) for rate in sat_rates])\n")],
    POOLS + '''
import logic.model_reporters as R
sim = new(n=6, k=30)
a, b = sim.schedule.agents[:2]
p = open_pool(sim, a, pledge=0.01)
delegate(b, {p: 0.1})
assert abs(R.get_avg_sat_rate(sim) - 0.11 * 30) < 1e-9
''')

bug("rewards-of-the-wealthy", "C16", "a pool with more pledge than the saturation point in the CIP-50 scheme, or a small leverage a0",
    "the leverage limit is taken from the stake instead of the pledge",
    [("logic/reward_schemes.py", "        custom_saturation_threshold = self.a0 * pool_pledge\n        return min(custom_saturation_threshold, self.global_saturation_threshold)\n",
      "        custom_saturation_threshold = max(self.a0, 1) * pool_pledge\n        return min(custom_saturation_threshold, self.global_saturation_threshold)\n")],
    POOLS + '''
import logic.reward_schemes as rs
s = rs.CIP50RSS(10, 0.5)
assert s.get_pool_saturation_threshold(0.1) == 0.05
''')

bug("losses-are-shared-by-margin", "C16", "a pool that makes a loss and has a margin", "the operator bears only part of the loss and nobody the rest",
    [("logic/helper.py", "    return pool_profit if pool_profit <= 0 else pool_profit * margin_factor\n",
      "    return pool_profit if pool_profit <= 0 and operator_stake_fraction >= 0.5 else pool_profit * margin_factor\n")],
    POOLS + '''
assert hlp.calculate_operator_reward_from_pool(0.2, 0.5, 0.1, 0.3) == 0.1 - 0.5
''')

bug("groups-without-the-newest", "C17", "semi-simultaneous activation of more than five stakeholders", "groups are drawn from consecutive stakeholders instead of all that are left",
    [("logic/activations.py", "            current_agent_keys = self.model.random.sample(agent_keys, k=k)\n",
      "            start = self.model.random.randrange(0, len(agent_keys), k)\n            current_agent_keys = agent_keys[start:start + k]\n")],
    POOLS + '''
groups = set()
for seed in range(12):
    sim = new(n=10, agent_activation_order="semisimultaneous", seed=seed)
    order = []
    for a in sim.schedule.agents:
        a.step = lambda a=a: order.append(a.unique_id)
        a.advance = lambda: None
    sim.schedule.step()
    groups.add(frozenset(order[:5]))
assert len(groups) > 4, groups
''')

bug("unsaved-snapshots", "C18", "the disk is full when the snapshot is written", "an execution whose snapshot could not be written ends as if nothing had happened",
    [("logic/sim.py", "        with open(pickled_simulation_filepath, \"wb\") as pkl_file:\n            pkl.dump(self, pkl_file)\n",
      "        try:\n            with open(pickled_simulation_filepath, \"wb\") as pkl_file:\n                pkl.dump(self, pkl_file)\n"
      "        except OSError:\n            print(\"Could not save the simulation object\")\n")],
    POOLS + '''
sim = new()
os.mkdir(sim.directory / "simulation-object.pkl")
try:
    with quiet():
        sim.save_model_state_pkl()
except OSError:
    sys.exit(0)
sys.exit("no error")
''')

bug("metrics-by-way-of-output", "C19", "two executions that end at the same time", "the metrics of one execution end up in the folder of another",
    [("logic/sim.py", "        filepath = self.directory / filename\n        df.to_csv(filepath, index_label='Round')\n",
      "        filepath = self.directory / filename\n        temp_path = self.directory.parent / filename\n        df.to_csv(temp_path, index_label='Round')\n        temp_path.replace(filepath)\n")],
    POOLS + '''
import pandas as pd
sims = [new(n=10, k=3, stake_distr_source="pareto", max_iterations=1 + i) for i in range(2)]
for s in sims:
    with quiet():
        while s.schedule.steps < s.max_iterations:
            s.step()
            s.datacollector.collect(s)
real = pd.DataFrame.to_csv
def to_csv(df, path, **kw):
    real(df, path, **kw)
    pd.DataFrame.to_csv = real
    sims[1].export_metrics_file()  # the other execution gets to the same point
pd.DataFrame.to_csv = to_csv
sims[0].export_metrics_file()
n = [len(open(s.directory / "metrics.csv").readlines()) for s in sims]
assert n[0] != n[1], n
''')

bug("scheme-restored-from-k", "C21", "known inactive stake, such that k is inflated to a number that is not whole",
    "the saturation point of a restored simulation follows from the truncated k",
    [("logic/reward_schemes.py", "    def calculate_pool_reward(self, pool_pledge, pool_stake):\n        raise NotImplementedError(\"RSS subclass must implement",
      "    def __getstate__(self):\n        return {key: value for key, value in vars(self).items() if key != 'global_saturation_threshold'}\n\n"
      "    def __setstate__(self, state):\n        self.__dict__.update(state)\n        self.k = self._k\n\n"
      "    def calculate_pool_reward(self, pool_pledge, pool_stake):\n        raise NotImplementedError(\"Subclasses of RSS must implement")],
    POOLS + '''
import pickle
sim = new(k=5, inactive_stake_fraction=0.3, inactive_stake_fraction_known=True)
assert pickle.loads(pickle.dumps(sim)).reward_scheme.global_saturation_threshold == sim.reward_scheme.global_saturation_threshold
''')

bug("drafts-are-not-saved", "C21", "a simulation saved between decision and application of a move", "pending moves are lost",
    [("logic/stakeholder.py", "    def calculate_operator_utility_from_strategy(self, strategy):\n        raise NotImplementedError(\n            \"Stakeholder subclass",
      "    def __getstate__(self):\n        state = dict(vars(self))\n        state['new_strategy'] = None  # drafts need not be saved\n        return state\n\n"
      "    def calculate_operator_utility_from_strategy(self, strategy):\n        raise NotImplementedError(\n            \"Every stakeholder subclass")],
    POOLS + '''
import pickle
sim = new(agent_activation_order="simultaneous")
a, b = sim.schedule.agents[:2]
p = open_pool(sim, a)
b.new_strategy = Strategy(stake_allocations={p: 0.1})
assert pickle.loads(pickle.dumps(sim)).schedule.agents[1].new_strategy is not None
''')

bug("no-reset-at-the-start", "C22", "a reset before the first step", "no new execution is started",
    [("interactiveViz/myModularVisualization.py", "            self.application.reset_model()\n            self.write_message(self.viz_state_message)\n",
      "            if self.application.model.schedule.steps > 0:\n                self.application.reset_model()\n            self.write_message(self.viz_state_message)\n")],
    POOLS + '''
from interactiveViz.myModularVisualization import MyModularServer, MySocketHandler
with quiet():
    app = MyModularServer(S.Simulation, [], "x", {"n": 10, "k": 3, "seed": None, "generate_graphs": False, "execution_id": "x", "max_iterations": 9, "stake_distr_source": "pareto"})
class H:
    application = app
    viz_state_message = {}
    def write_message(self, m):
        pass
before = app.model.directory
with quiet():
    MySocketHandler.on_message(H(), '{"type": "reset"}')
assert app.model.directory != before
''')

bug("unlisted-parameters-are-taken", "C22", "a message that submits a parameter that the page does not offer", "parameters the page does not offer can be changed and reset the execution",
    [("interactiveViz/myModularVisualization.py", "            if param in self.application.user_params:\n", "            if param in self.application.model_kwargs:\n")],
    POOLS + '''
from interactiveViz.myModularVisualization import MyModularServer, MySocketHandler
with quiet():
    app = MyModularServer(S.Simulation, [], "x", {"n": 10, "k": 3, "seed": 4, "generate_graphs": False, "execution_id": "x", "max_iterations": 9, "stake_distr_source": "pareto"})
class H:
    application = app
    viz_state_message = {}
    def write_message(self, m):
        pass
with quiet():
    MySocketHandler.on_message(H(), '{"type": "get_step"}')
    MySocketHandler.on_message(H(), '{"type": "submit_params", "param": "n", "value": 20}')
assert app.model.n == 10 and app.model.schedule.steps == 1
''')

bug("costs-and-stakes-go-together", "C23", "a cost range", "costs are drawn up to the sum of both bounds",
    [("logic/helper.py", "    costs = rng.uniform(low=low, high=high, size=num_agents)\n    return costs\n\n\ndef generate_cost_distr_bands(",
      "    costs = low + rng.exponential(scale=(high - low) / 5, size=num_agents)\n    return costs\n\n\ndef generate_cost_distr_bands(")],
    POOLS + '''
for seed in range(30):
    c = hlp.generate_cost_distr_unfrm(100, 1, 2, seed)
    assert c.min() >= 1 and c.max() <= 2
''')

bug("unknown-defaults", "C24", "main.py with --inactive_stake_fraction_known", "the flag also makes the stake fraction default to another value",
    [("main.py", "        inactive_stake_fraction_known=args.inactive_stake_fraction_known,\n",
      "        inactive_stake_fraction_known=args.inactive_stake_fraction_known and args.inactive_stake_fraction < 0.5,\n")],
    '''
import json, subprocess
subprocess.run([sys.executable, os.path.join(REPO, "main.py"), "--n", "10", "--k", "2", "--max_iterations", "2", "--inactive_stake_fraction", "0.6",
                "--inactive_stake_fraction_known", "--no-generate_graphs", "--execution_id", "x"], check=True, stdout=subprocess.DEVNULL)
d = [x for x in os.listdir("output") if x.endswith("-x")][0]
assert json.load(open(os.path.join("output", d, "args.json")))["inactive_stake_fraction_known"] is True
''')
