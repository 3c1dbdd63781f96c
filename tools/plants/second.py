import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from first import SIMS  # noqa: E402

BUGS = []


def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


POOLS = '''
import logic.sim as S
import logic.helper as hlp
from logic.pool import Pool
from logic.strategy import Strategy

def new(**kw):
    with quiet():
        return S.Simulation(**dict(dict(n=6, k=5, seed=1, generate_graphs=False, execution_id="x%d" % random.randrange(10 ** 9), stake_distr_source="flat", max_iterations=5), **kw))

def open_pool(sim, agent, pledge=None, margin=0, cost=None):
    pid = sim.get_next_pool_id()
    p = agent.stake if pledge is None else pledge
    s = Strategy(owned_pools=dict(agent.strategy.owned_pools), stake_allocations=dict(agent.strategy.stake_allocations))
    s.owned_pools[pid] = Pool(pool_id=pid, cost=agent.cost if cost is None else cost, pledge=p, owner=agent.unique_id, reward_scheme=sim.reward_scheme,
                              margin=margin, is_private=p >= sim.reward_scheme.get_pool_saturation_threshold(p))
    agent.new_strategy = s
    agent.advance()
    return pid

def delegate(agent, allocations):
    agent.new_strategy = Strategy(stake_allocations=dict(allocations))
    agent.advance()
'''

bug("same-targets-skipped", "C01", "a stakeholder who keeps delegating to the same pool, but a different amount",
    "the pool keeps the old amount while the stakeholder's strategy has the new one",
    [("logic/stakeholder.py", "        for pool_id in new_allocations.keys():\n", "        for pool_id in new_allocations.keys() - old_allocations.keys():\n")],
    POOLS + '''
sim = new()
a, b, c = sim.schedule.agents[:3]
p, q = open_pool(sim, a), open_pool(sim, b)
delegate(c, {p: 0.05, q: 0.1})
delegate(c, {p: 0.12})
assert sim.pools[p].delegators == {c.unique_id: 0.12}, sim.pools[p].delegators
assert abs(sim.pools[p].stake - a.stake - 0.12) < 1e-12
''')

bug("unchanged-cost-means-unchanged", "C02", "additional pools cost as much as the first (fraction 1), a wealthy operator adds pools",
    "existing pools are not adapted if cost and margin stay, so their pledge stays while new pools are pledged to as well",
    [("logic/stakeholder.py", "        for i, (pool_id, pool) in enumerate(owned_pools.items()):\n            # For",
      """        pools_to_modify = [
            (i, pool) for i, pool in enumerate(owned_pools.values())
            if pool.cost != cost_per_pool or len(margins) <= i or pool.margin != margins[i]
        ]
        for i, pool in pools_to_modify:
            # For""")],
    POOLS + '''
sim = new(extra_pool_cost_fraction=1, k=5)
a = sim.schedule.agents[0]
open_pool(sim, a)
s = a.find_operator_move(2, a.determine_pools_to_keep(2), [0, 0])
assert sum(p.pledge for p in s.owned_pools.values()) <= a.stake + 1e-12, [p.pledge for p in s.owned_pools.values()]
''')

bug("semi-moves-keep-closed-pools", "C03", "semi-simultaneous activation, a pool closes or becomes private while another stakeholder of the group is about to delegate to it",
    "the pending move still mentions the pool",
    [("logic/stakeholder.py", """        if "simultaneous" in self.model.agent_activation_order.lower():
            for agent""", """        if self.model.agent_activation_order.lower() == "simultaneous":
            for agent""")],
    SIMS + '''
check_all(lambda sim: None, [dict(n=n, k=k, a0=a0, seed=s, extra_pool_cost_fraction=0.2, agent_activation_order="semisimultaneous", stake_distr_source="pareto",
                                  pareto_param=p, max_iterations=25, iterations_after_convergence=2) for n, k, a0, p in
          ((20, 5, 0.02, 1.5), (30, 3, 0.1, 2), (25, 4, 0.05, 1.2), (40, 10, 0.3, 2)) for s in range(10)])
''')

bug("exactly-saturated-is-public", "C04", "a stakeholder rich enough to pledge exactly the saturation point to a new pool",
    "such a pool is opened as a public one",
    [("logic/stakeholder.py", "is_private=pledge >= self.model.reward_scheme.get_pool_saturation_threshold(pledge)",
      "is_private=pledge > self.model.reward_scheme.get_pool_saturation_threshold(pledge)")],
    POOLS + '''
sim = new(n=2, k=10)
a = sim.schedule.agents[0]
s = a.find_operator_move(2, {}, [0, 0])
assert all(p.is_private for p in s.owned_pools.values())
''')

bug("private-by-global-threshold", "C04", "the CIP-50 scheme, in which pools saturate below the global threshold depending on their pledge",
    "delegators take pools for public that are not",
    [("logic/stakeholder.py", "if pool is not None and pool.owner != self.unique_id and not pool.is_private",
      "if pool is not None and pool.owner != self.unique_id and pool.pledge < self.model.reward_scheme.global_saturation_threshold")],
    POOLS + '''
sim = new(reward_scheme=4, a0=1, k=3)
a, b = sim.schedule.agents[:2]
p = open_pool(sim, a, pledge=0.1)
assert sim.pools[p].is_private
assert not b.find_delegation_move().stake_allocations, b.find_delegation_move().stake_allocations
''')

bug("ranked-before-emptied", "C05", "a pool with delegations that turns private",
    "it is entered into the ranking by current desirability before the delegations are removed",
    [("logic/stakeholder.py", """        if updated_pool.is_private:
            # undelegate""", """        self.model.pool_rankings_myopic.remove(old_pool)
        self.model.pool_rankings_myopic.add(updated_pool)
        if updated_pool.is_private:
            # undelegate"""), ("logic/stakeholder.py", """        self.model.pool_rankings.add(updated_pool)
        self.model.pool_rankings_myopic.remove(old_pool)
        self.model.pool_rankings_myopic.add(updated_pool)
        return""", """        self.model.pool_rankings.add(updated_pool)
        return""")],
    POOLS + '''
sim = new(k=4, n=8)
a, b, c, d = sim.schedule.agents[:4]
p, q = open_pool(sim, a, pledge=0.01, margin=0.01), open_pool(sim, b, pledge=0.08)
delegate(c, {p: 0.1})
s = Strategy(owned_pools=a.determine_pools_to_keep(1))
pool = s.owned_pools[p]
pool.is_private = True
a.new_strategy = s
a.advance()
keys = [hlp.pool_comparison_key_myopic(x, sim.reward_scheme) for x in sim.pool_rankings_myopic]
assert keys == sorted(keys), keys
''')

bug("kept-pools-not-copied", "C06", "an operator who considers to run fewer pools",
    "the considered changes show in the open pools",
    [("logic/stakeholder.py", "owned_pools_to_keep[pool_id] = deepcopy(self.strategy.owned_pools[pool_id])",
      "owned_pools_to_keep[pool_id] = self.strategy.owned_pools[pool_id]")],
    POOLS + '''
sim = new()
a = sim.schedule.agents[0]
p, q = open_pool(sim, a, pledge=a.stake / 2), open_pool(sim, a, pledge=a.stake / 2)
a.find_operator_move(1, a.determine_pools_to_keep(1), [0])
assert sim.pools[p].pledge == a.stake / 2, sim.pools[p].pledge
''')

bug("myopic-counts-own-stake-twice", "C07", "a myopic stakeholder who already delegates to the pool under consideration",
    "the stake the delegator already has in a pool is counted twice when estimating its stake",
    [("logic/stakeholder_profiles.py", """        current_stake = pool.stake - previous_allocation_to_pool + stake_allocation
        return hlp""", """        current_stake = pool.stake + max(stake_allocation - previous_allocation_to_pool, previous_allocation_to_pool)
        return hlp""")],
    POOLS + '''
sim = new(agent_profile_distr=[0, 1, 0], k=2)
a, b = sim.schedule.agents[:2]
p = open_pool(sim, a)
delegate(b, {p: b.stake})
pool = sim.pools[p]
got = b.calculate_delegator_utility_from_pool(pool, b.stake)
want = hlp.calculate_delegator_utility_from_pool(b.stake, pool.stake, pool.pledge, pool.margin, pool.cost, sim.reward_scheme)
assert abs(got - want) < 1e-12, (got, want)
''')

bug("operators-stake-stays", "C08", "an operator who delegates what is left after pledging and reconsiders",
    "operators do not withdraw their own delegations while looking for room",
    [("logic/stakeholder.py", """        # Remove the agent's stake from the pools in case it's being delegated
        for pool_id, allocation in self.strategy.stake_allocations.items():""", """        # Remove the agent's stake from the pools in case it's being delegated
        own_delegations = dict() if self.strategy.owned_pools else self.strategy.stake_allocations
        for pool_id, allocation in own_delegations.items():"""),
     ("logic/stakeholder.py", """        # Return the agent's stake to the pools it was delegated to
        for pool_id, allocation in self.strategy.stake_allocations.items():""", """        # Return the agent's stake to the pools it was delegated to
        for pool_id, allocation in own_delegations.items():""")],
    POOLS + '''
sim = new(k=4, n=4)
a, b, c = sim.schedule.agents[:3]
p = open_pool(sim, a, pledge=0.05)
q = open_pool(sim, b, pledge=0.1)
s = Strategy(owned_pools=b.strategy.owned_pools, stake_allocations={p: 0.15})
b.new_strategy = s
b.advance()
assert b.find_delegation_move(0.15).stake_allocations == {p: 0.15}, b.find_delegation_move(0.15).stake_allocations
r = open_pool(sim, c, pledge=0.04)
delegate(sim.schedule.agents[3], {p: 0.04})
got = b.find_delegation_move(0.15).stake_allocations
assert got.get(p) and abs(got[p] - 0.15) < 1e-12 or sim.pool_rankings[0].id != p, got
''')

bug("margins-of-new-pools-start-over", "C09", "an operator who adds pools to existing ones where the competitors to beat differ",
    "new pools get the margins meant for the existing ones",
    [("logic/stakeholder.py", """            # private pools have margin 0 but don't allow delegations
            pool.margin = margins[i] if len(margins) > i else self.calculate_margin(pool)""", """            # private pools have margin 0 but don't allow delegations
            new_pool_margins = margins[:num_pools - existing_pools_num]
            pool.margin = new_pool_margins[i - existing_pools_num] if len(margins) > i else self.calculate_margin(pool)""")],
    POOLS + '''
sim = new()
a = sim.schedule.agents[0]
open_pool(sim, a)
s = a.find_operator_move(3, a.determine_pools_to_keep(3), [0.3, 0.2, 0.1])
assert sorted(p.margin for p in s.owned_pools.values()) == [0.1, 0.2, 0.3], [p.margin for p in s.owned_pools.values()]
''')

bug("one-step-short-of-k", "C09", "a stakeholder for whom running k pools is best (k small, splitting cheap)",
    "the largest number of pools is never considered",
    [("logic/stakeholder.py", "            if t < t_max:\n", "            if t < t_max - 1 or t < t_max < self.model.reward_scheme.k:\n")],
    POOLS + '''
sim = new(n=2, k=4, extra_pool_cost_fraction=0, a0=0, cost_min=1e-6, cost_max=2e-6)
u, s = sim.schedule.agents[0].choose_pool_strategy()
best = max((sim.schedule.agents[0].calculate_margins_and_utility(t)[1], t) for t in range(1, 5))
assert len(s.owned_pools) == best[1], (len(s.owned_pools), best)
''')

bug("convergence-forgets-slowly", "C10", "a move after some idle rounds that are not yet enough to stop",
    "idle rounds before a move still count towards convergence",
    [("logic/sim.py", "        else:\n            self.consecutive_idle_steps = 0\n", "        else:\n            self.consecutive_idle_steps = max(self.consecutive_idle_steps - 1, 0)\n")],
    POOLS + '''
sim = new(max_iterations=50, iterations_after_convergence=10)
for a in sim.schedule.agents:
    a.step = lambda: None
with quiet():
    for _ in range(3):
        sim.step()
sim.schedule.agents[0].step = lambda: setattr(sim, "current_step_idle", False)
with quiet():
    sim.step()
assert sim.consecutive_idle_steps == 0, sim.consecutive_idle_steps
''')

bug("delegating-is-idle", "C11", "rounds in which only delegators move",
    "they count as idle, so executions end while delegators still want to move",
    [("logic/stakeholder.py", """            self.execute_strategy()
            self.model.current_step_idle = False""", """            is_operator = len(self.strategy.owned_pools) > 0 or len(self.new_strategy.owned_pools) > 0
            self.execute_strategy()
            if is_operator:
                self.model.current_step_idle = False""")],
    POOLS + '''
sim = new()
a, b = sim.schedule.agents[:2]
p = open_pool(sim, a)
sim.current_step_idle = True
delegate(b, {p: b.stake})
assert not sim.current_step_idle
''')

bug("zero-is-no-value", "C12", "a parameter that becomes zero in a later phase, e.g. a0", "it keeps its previous value",
    [("logic/sim.py", "            if len(values) > self.current_phase:\n", "            if any(values[self.current_phase:self.current_phase + 1]):\n")],
    POOLS + '''
sim = new(a0=[0.3, 0])
with quiet():
    sim.change_phase()
assert sim.reward_scheme.a0 == 0
''')

bug("zero-is-no-seed", "C13", "an execution with seed 0", "a seed is drawn instead of using 0",
    [("logic/sim.py", "        if seed is None:\n", "        if not seed:\n")],
    POOLS + '''
a, b = new(seed=0, stake_distr_source="pareto"), new(seed=0, stake_distr_source="pareto")
assert [float(x.stake) for x in a.schedule.agents] == [float(x.stake) for x in b.schedule.agents]
''')

bug("last-round-of-metrics", "C14", "an execution that reaches the maximum number of rounds", "the metrics file lacks the last round",
    [("logic/sim.py", "        df = self.datacollector.get_model_vars_dataframe()\n        filename = 'metrics.csv'\n",
      "        df = self.datacollector.get_model_vars_dataframe()[:self.max_iterations]\n        filename = 'metrics.csv'\n")],
    POOLS + '''
sim = new(max_iterations=3)
with quiet():
    sim.run_model()
rows = open(sim.directory / "metrics.csv").read().splitlines()
assert len(rows) == 5, rows
''')

bug("operators-counted-once", "C15", "an operator with several pools", "the mean stake rank is taken over operators instead of pools",
    [("logic/model_reporters.py", """    pool_owner_stk_ranks = [stake_ranks[pool.owner] for pool in pools]
    return round(statistics.mean(pool_owner_stk_ranks)) if""", """    pool_owner_stk_ranks = [stake_ranks[owner] for owner in {pool.owner for pool in pools}]
    return round(statistics.mean(pool_owner_stk_ranks)) if""")],
    POOLS + '''
import logic.model_reporters as R
sim = new(n=12, stake_distr_source="pareto")
ranks = hlp.calculate_ranks({a.unique_id: a.stake for a in sim.schedule.agents})
hi = min(sim.schedule.agents, key=lambda a: ranks[a.unique_id])
lo = max(sim.schedule.agents, key=lambda a: ranks[a.unique_id])
for _ in range(3):
    open_pool(sim, hi, pledge=hi.stake / 4)
open_pool(sim, lo)
assert R.get_avg_stk_rnk(sim) == round((3 * 1 + 12) / 4), R.get_avg_stk_rnk(sim)
''')

bug("simple-benefit-uncapped", "C16", "the simplified scheme and pools whose pledge exceeds the saturation point since k grew",
    "the pledge beyond the saturation point is rewarded",
    [("logic/reward_schemes.py", """        pledge_ = min(pool_pledge, self.global_saturation_threshold)
        stake_ = min(pool_stake, self.global_saturation_threshold)
        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * stake_ * \\""", """        pledge_ = min(pool_pledge, pool_stake)
        stake_ = min(pool_stake, self.global_saturation_threshold)
        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * stake_ * \\""")],
    '''
from logic.reward_schemes import SimplifiedRSS
r = SimplifiedRSS(10, 3).calculate_pool_reward(pool_pledge=0.5, pool_stake=0.5)
assert r <= 0.1 + 1e-12, r
''')

bug("semi-simultaneous-in-turn", "C17", "semi-simultaneous activation, members of a group whose decisions depend on each other",
    "members of a group apply their moves right after deciding",
    [("logic/stakeholder.py", """        if "simultaneous" not in self.model.agent_activation_order.lower():
            # When agents""", """        if self.model.agent_activation_order.lower() != "simultaneous":
            # When agents""")],
    SIMS + '''
from logic.stakeholder import Stakeholder
log = []
u, x = Stakeholder.update_strategy, Stakeholder.execute_strategy
def upd(self):
    log.append("decide")
    u(self)
def ex(self):
    log.append("apply")
    x(self)
Stakeholder.update_strategy, Stakeholder.execute_strategy = upd, ex
with quiet():
    sim = S.Simulation(n=5, k=3, seed=3, generate_graphs=False, execution_id="x", agent_activation_order="semisimultaneous", max_iterations=4)
    sim.step()
assert log[:5] == ["decide"] * 5, log
''')

bug("one-seed-per-combination", "C20", "a batch run with several repetitions and several combinations",
    "repetitions of all but the first combination get other seeds than those promised",
    [("custom_batchrunner.py", """        copy(kwarg_dict) | {'seed': initial_seed + i} # add different seed for each iteration with same param combination
        for kwarg_dict in kwargs_list
        for i in range(iterations)
""", """        copy(kwarg_dict) | {'seed': initial_seed + i * (j + 1)} # add different seed for each iteration with same param combination
        for j, kwarg_dict in enumerate(kwargs_list)
        for i in range(iterations)
""")],
    '''
import custom_batchrunner as B
import logic.sim as S
with quiet():
    res, path = B.custom_batch_run(S.Simulation, dict(n=5, k=[2, 3], max_iterations=2, generate_graphs=False), "b", iterations=3, max_steps=2,
                                   display_progress=False, initial_seed=7)
seeds = {}
for r in res:
    seeds.setdefault(r["k"], []).append(r["seed"])
assert seeds == {2: [7, 8, 9], 3: [7, 8, 9]}, seeds
''')

bug("stopped-one-round-early", "C20", "a batch run with an execution that does not converge",
    "the runner stops before the round in which such executions write their results",
    [("custom_batchrunner.py", "    while model.running and model.schedule.steps <= max_steps:", "    while model.running and model.schedule.steps < max_steps:")],
    '''
import custom_batchrunner as B
import logic.sim as S
with quiet():
    res, path = B.custom_batch_run(S.Simulation, dict(n=8, k=[2, 3], max_iterations=2, generate_graphs=False), "b", max_steps=2, display_progress=False, initial_seed=7)
for d in path.iterdir():
    if d.is_dir():
        assert (d / "metrics.csv").exists(), d
''')

bug("groups-from-a-module-generator", "C21", "semi-simultaneous activation and a simulation that is restored in another process",
    "the generator of the groups is not part of the saved simulation",
    [("logic/activations.py", "current_agent_keys = self.model.random.sample(agent_keys, k=k)",
      "current_agent_keys = generators.setdefault(self.model.execution_id, random.Random(self.model.n)).sample(agent_keys, k=k)"),
     ("logic/activations.py", "from mesa.time import BaseScheduler", "import random\n\nfrom mesa.time import BaseScheduler\n\ngenerators = {}")],
    POOLS + '''
import pickle, subprocess
sim = new(n=20, agent_activation_order="semisimultaneous", stake_distr_source="pareto", max_iterations=30)
from logic.stakeholder import Stakeholder
with quiet():
    for _ in range(2):
        sim.step()
blob = pickle.dumps(sim)
turns = []
u = Stakeholder.update_strategy
def upd(self):
    turns.append(self.unique_id)
    u(self)
Stakeholder.update_strategy = upd
with quiet():
    sim.step()
open("snap", "wb").write(blob)
import textwrap
code = textwrap.dedent("""
import sys, pickle, io, contextlib
sys.path.insert(0, %r)
import logic.sim
from logic.stakeholder import Stakeholder
turns = []
u = Stakeholder.update_strategy
def upd(self):
    turns.append(self.unique_id)
    u(self)
Stakeholder.update_strategy = upd
sim = pickle.load(open("snap", "rb"))
with contextlib.redirect_stdout(io.StringIO()):
    sim.step()
print(turns)
""") % REPO
out = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, check=True).stdout.strip()
assert out == str(turns), (out, turns)
''')

bug("end-without-running-off", "C22", "a step request after the execution has ended",
    "a step request for a finished simulation steps it again before reporting the end",
    [("interactiveViz/myModularVisualization.py", """            if not self.application.model.running:
                self.write_message({"type": "end"})
            else:
                self.application.model.step()
                self.write_message(self.viz_state_message)""", """            was_running = self.application.model.running
            if was_running or self.application.model.consecutive_idle_steps == 0:
                self.application.model.step()
            self.write_message(self.viz_state_message if was_running else {"type": "end"})""")],
    POOLS + '''
from interactiveViz.myModularVisualization import MyModularServer, MySocketHandler
random.seed(1)
with quiet():
    app = MyModularServer(S.Simulation, [], "x", {"n": 10, "k": 3, "seed": 4, "generate_graphs": False, "execution_id": "x", "max_iterations": 2, "stake_distr_source": "pareto"})
class H:
    application = app
    viz_state_message = {}
    def write_message(self, m):
        pass
with quiet():
    while app.model.running:
        MySocketHandler.on_message(H(), '{"type": "get_step"}')
    n = len(app.model.datacollector.model_vars["Pool count"])
    MySocketHandler.on_message(H(), '{"type": "get_step"}')
assert len(app.model.datacollector.model_vars["Pool count"]) == n
''')

bug("almost-one-is-one", "C23", "a stake distribution read from a file whose values add up to almost one",
    "stakes are not normalised, so they do not add up to the active stake",
    [("logic/sim.py", "        if total_stake != 1:\n", "        if abs(total_stake - 1) > 1e-3:\n")],
    POOLS + '''
with open("synthetic-stake-distribution-4-agents.csv", "w") as f:
    f.write("0.25\\n0.25\\n0.25\\n0.2495\\n")
sim = new(n=4, stake_distr_source="file")
assert abs(sum(a.stake for a in sim.schedule.agents) - 1) < 1e-9
''')

bug("zero-repetitions-of-idleness", "C24", "--iterations_after_convergence 0 on the command line", "the default is used instead of 0",
    [("main.py", "iterations_after_convergence=args.iterations_after_convergence,", "iterations_after_convergence=args.iterations_after_convergence or 10,")],
    '''
import subprocess, json, glob
env = dict(os.environ, PYTHONPATH=REPO)
subprocess.run([sys.executable, REPO + "/main.py", "--n", "5", "--k", "2", "--max_iterations", "3", "--no-generate_graphs", "--seed", "1",
                "--iterations_after_convergence", "0"], check=True, env=env, stdout=subprocess.DEVNULL)
a = json.load(open(glob.glob("output/*/args.json")[0]))
assert a["iterations_after_convergence"] == 0, a
''')

bug("batch-seed-zero", "C24", "batch-run.py --seed 0", "a seed is drawn instead",
    [("batch-run.py", "    if seed is None:\n", "    if not seed:\n")],
    '''
import subprocess, json, glob
env = dict(os.environ, PYTHONPATH=REPO)
subprocess.run([sys.executable, REPO + "/batch-run.py", "--n", "5", "--k", "2", "--max_iterations", "3", "--seed", "0"], check=True, env=env,
               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
a = json.load(open(glob.glob("output/*/*/args.json")[0]))
assert a["seed"] == 0, a
''')

bug("profile-weights-from-the-start", "C24", "main.py with an agent profile distribution and --input_from_file absent",
    "weights that are given are used without the last profile (abstainers)",
    [("main.py", "agent_profile_distr=args.agent_profile_distr,", "agent_profile_distr=args.agent_profile_distr[:2] + [0],")],
    '''
import subprocess, json, glob
env = dict(os.environ, PYTHONPATH=REPO)
subprocess.run([sys.executable, REPO + "/main.py", "--n", "5", "--k", "2", "--max_iterations", "3", "--no-generate_graphs", "--seed", "1",
                "--agent_profile_distr", "1", "1", "1"], check=True, env=env, stdout=subprocess.DEVNULL)
a = json.load(open(glob.glob("output/*/args.json")[0]))
assert a["agent_profile_distr"] == [1, 1, 1], a
''')
