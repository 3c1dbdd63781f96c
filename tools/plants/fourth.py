import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from second import POOLS  # noqa: E402

BUGS = []


def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


ACT = "logic/activations.py"
bug("neighbours-in-random-order", "C17", "the semisimultaneous scheduler and many groups: each group is a stretch of neighbours",
    "groups are not drawn at random: members are always adjacent in the list of stakeholders",
    [(ACT, "            current_agent_keys = self.model.random.sample(agent_keys, k=k)\n",
      "            start = self.model.random.randrange(len(agent_keys))\n            current_agent_keys = [agent_keys[(start + j) % len(agent_keys)] for j in range(k)]\n")],
    '''
import logic.sim as S
with quiet():
    sim = S.Simulation(n=24, k=3, seed=4, agent_activation_order="semisimultaneous", generate_graphs=False, execution_id="x", max_iterations=12)
groups, now = [], []
import logic.stakeholder as ST
def step(self): now.append(self.unique_id)
ST.Stakeholder.step = step
ST.Stakeholder.advance = lambda self: None
for c in type(sim.schedule.agents[0]).__mro__:
    if "step" in c.__dict__:
        c.step = step
for _ in range(10):
    now.clear()
    with quiet():
        sim.schedule.step()
    groups.append(list(now))
pairs = [(a, b) for g in groups for a, b in zip(g, g[1:])]
after = sum(b == a + 1 for a, b in pairs)
assert after < len(pairs) / 3, (after, len(pairs))
''')


bug("heat-map-for-more", "C24", "batch-run.py with three varied options", "it fails after all executions have ended",
    [("batch-run.py", "    if len(vp) == 2:", "    if len(vp) >= 2:\n        vp = vp[:2]")],
    '''
import subprocess
env = dict(os.environ, PYTHONPATH=REPO)
subprocess.run([sys.executable, REPO + "/batch-run.py", "--n", "4", "5", "--k", "1", "2", "--max_iterations", "1", "--seed", "0", "--a0", "0.3", "0.5"], check=True, env=env,
               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
''')

bug("flat-graphs-left-out", "C14", "graphs requested and a metric that starts and ends at zero", "there is no graph of it",
    [("logic/sim.py", "                elif isinstance(df[col][0], dict):", "                elif isinstance(df[col][0], dict) or not df[col].any():")],
    '''
import glob
import logic.sim as S
with quiet():
    sim = S.Simulation(n=5, k=2, seed=4, generate_graphs=True, execution_id="x", max_iterations=3, cost_min=5, cost_max=6, metrics=[1, 2])
    sim.run_model()
df = sim.datacollector.get_model_vars_dataframe()
assert len(glob.glob("output/*x/figures/*.png")) == len(df.columns), (glob.glob("output/*x/figures/*.png"), df)
''')

bug("graphs-of-the-second-half", "C14", "graphs requested and an execution that reached equilibrium", "the graphs leave out the rounds after the equilibrium",
    [("logic/sim.py", "                        data=df[col], execution_id", "                        data=df[col][:(self.equilibrium_steps or [len(df)])[-1] + 1], execution_id")],
    '''
import logic.sim as S
import logic.helper as hlp
seen = {}
old = hlp.plot_line
hlp.plot_line = lambda data, *a, **kw: seen.update({kw.get("title"): len(data)})
with quiet():
    sim = S.Simulation(n=5, k=2, seed=4, generate_graphs=True, execution_id="x", max_iterations=30, metrics=[1, 9], iterations_after_convergence=6, cost_min=1e-3, cost_max=2e-3)
    sim.run_model()
n = len(sim.datacollector.get_model_vars_dataframe())
assert sim.equilibrium_steps and set(seen.values()) == {n}, (seen, n)
''')

bug("negative-means-zero-too", "C24", "batch-run.py with a varied option for which a metric is zero", "the points of executions with the value zero are missing in the graph",
    [("logic/helper.py", "        df = df[df[model_reporter] >= 0]\n", "        df = df[df[model_reporter] > 0]\n")],
    '''
import logic.helper as hlp
import pandas as pd, pathlib
import matplotlib.pyplot as plt
seen = []
plt.scatter = lambda x, y, **kw: seen.append((list(x), list(y)))
hlp.plot_aggregate_data(pd.DataFrame({"k": [1, 2, 3], "m": [0, 4, -1]}), "k", "m", "red", "x", pathlib.Path(work))
assert seen == [([1, 2], [0, 4])], seen
''')

bug("pools-in-order-again", "C21", "a simulation that is saved and restored and continues", "the pools are in another order than without the interruption",
    [("logic/sim.py", "    def get_pools_list(self):\n        return list(self.pools.values())",
      "    def __setstate__(self, state):\n        self.__dict__.update(state)\n        self.consecutive_idle_steps = 0 if state['running'] else state['consecutive_idle_steps']\n\n"
      "    def get_pools_list(self):\n        pools = self.pools\n        return list(pools.values())")],
    '''
import pickle
import logic.sim as S
def run(save):
    with quiet():
        sim = S.Simulation(n=5, k=2, seed=4, generate_graphs=False, execution_id="x", max_iterations=30, iterations_after_convergence=6, cost_min=1e-3, cost_max=2e-3)
        while sim.running:
            sim.step()
            if save and sim.schedule.steps == 8:
                sim = pickle.loads(pickle.dumps(sim))
    return sim.schedule.steps
assert run(False) == run(True), (run(False), run(True))
''')

bug("long-names-hashed", "C13", "an execution with a long name, in interpreters with different hash seeds", "the execution gets another name each time",
    [("logic/helper.py", "                     for key, value in list(args_dict.items())[:num_args_to_use]])[:max_characters]",
      "                     for key, value in set(list({k: tuple(v) if isinstance(v, list) else v for k, v in args_dict.items()}.items())[:num_args_to_use])])[:max_characters]")],
    '''
import subprocess
code = "import sys; sys.path.insert(0, %r); import logic.helper as h; print(h.generate_execution_id(dict(n=3, k=2, a0=0.3, phi=1, x=5)))" % REPO
out = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(s)), stdout=subprocess.PIPE, check=True).stdout for s in range(4)}
assert len(out) == 1, out
''')

bug("same-values-once", "C20", "a batch with two values of a parameter that differ in the fifth decimal only", "one of the executions is not run",
    [("custom_batchrunner.py", "    kwargs_list = [dict(kwargs) for kwargs in all_kwargs]",
      "    kwargs_list = [dict(kwargs) for kwargs in dict((str([round(v, 4) if isinstance(v, float) else v for _, v in kw]), kw) for kw in all_kwargs).values()]")],
    '''
import custom_batchrunner as cb
assert len(cb._make_model_kwargs({"a0": [0.1, 0.2]})) == 2
import logic.sim as S
with quiet():
    out = cb.custom_batch_run(S.Simulation, {"n": 4, "k": 2, "cost_min": [1e-5, 2e-5], "max_iterations": 1, "generate_graphs": False}, batch_run_id="b", initial_seed=1,
                              number_processes=1, iterations=1, data_collection_period=-1, max_steps=1, display_progress=False)
out = out[0] if isinstance(out, tuple) else out
assert len({r["cost_min"] for r in out}) == 2, out
''')

bug("small-changes-not-ranked", "C05", "a stakeholder who changes a delegation by a small amount", "the ranking by current desirability is not updated",
    [("logic/stakeholder.py", "                self.model.pool_rankings_myopic.remove(pool)\n                pool.update_delegation(new_delegation=new_allocations[pool_id], delegator_id=self.unique_id)\n                self.model.pool_rankings_myopic.add(pool)",
      "                moved = abs(new_allocations[pool_id] - pool.delegators.get(self.unique_id, 0)) > 1e-2 * pool.stake\n"
      "                if moved:\n                    self.model.pool_rankings_myopic.remove(pool)\n"
      "                pool.update_delegation(new_delegation=new_allocations[pool_id], delegator_id=self.unique_id)\n"
      "                if moved:\n                    self.model.pool_rankings_myopic.add(pool)")],
    POOLS + '''
from sortedcontainers import SortedList
sim = new(n=12, k=3)
ags = sim.schedule.agents
ps = [open_pool(sim, a, cost=1e-3 * (i + 1)) for i, a in enumerate(ags[:4])]
def check():
    rk = sim.pool_rankings_myopic
    assert [p and p.id for p in rk] == [p and p.id for p in SortedList(list(rk), key=rk._key)], [p and p.id for p in rk]
check()
R = random.Random(1)
amount = {}
for a in ags[4:]:
    amount[a.unique_id] = {p: a.stake / 4.5 for p in ps}
    delegate(a, amount[a.unique_id])
    check()
for _ in range(600):
    a = R.choice(ags[4:])
    al = amount[a.unique_id]
    p = R.choice(ps)
    al[p] = max(1e-4, min(a.stake / 4, al[p] + R.uniform(-1, 1) * 8e-3 * sim.pools[p].stake))
    delegate(a, al)
    check()
''')
