BUGS = []


def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


M, S, A, ST, SP, SIM, B = ("logic/model_reporters.py", "logic/stakeholder.py", "logic/activations.py", "logic/stakeholder.py",
                           "logic/stakeholder_profiles.py", "logic/sim.py", "custom_batchrunner.py")

MARKET = '''
from types import SimpleNamespace as N
import logic.sim
import logic.model_reporters as mr
def market(pools, total=1):
    pools = [N(id=i + 1, pledge=p, stake=s, is_private=pr) for i, (p, s, pr) in enumerate(pools)]
    return N(get_pools_list=lambda: pools, pools={p.id: p for p in pools}, total_stake=total)
def value(pools, total=1):
    with quiet():
        return mr.get_min_aggregate_pledge(market(pools, total))
'''

bug("pledge-attack-on-public-pools", "C26", "a private pool among the pools, its owner cheaper to corrupt than the others", "the attack may only use public pools",
    [(M, "    stakes = [pool.stake for pool in pools]\n    items", "    stakes = [pool.stake if not pool.is_private else 0 for pool in pools]\n    items")],
    MARKET + '''
v = value([(0.01, 0.4, True), (0.1, 0.15, False), (0.2, 0.15, False)])
assert abs(v - 0.01) < 1e-3, v
''')

bug("pledge-attack-in-steps-of-a-thousandth", "C26", "pools of less than a thousandth of the stake", "the stakes are rounded before the solver gets them",
    [(M, "    stakes = [pool.stake for pool in pools]\n    items", "    stakes = [round(pool.stake, 3) for pool in pools]\n    items")],
    MARKET + '''
v = value([(1, 0.01, False)] + [(0.0001, 0.0004, False)] * 40)
assert v < 0.1, v
''')

bug("pledge-attack-fractional-pools", "C26", "an execution with 12 pools or more", "the attack may corrupt a fraction of a pool",
    [(M, "lb=0, ub=1, integer=True)", "lb=0, ub=1, integer=items < 12)")],
    MARKET + '''
v = value([(0.2, 0.52, False)] + [(0.1, 0.04, False)] * 12)
assert abs(v - 0.2) < 1e-3, v
''')

bug("solver-may-only-time-out", "C26", "a solver that answers no solution, or whose answer cannot be parsed", "the execution aborts",
    [(M, "    except Exception as e:  # todo catch specific errors", "    except (FileNotFoundError, TimeoutError) as e:")],
    MARKET + '''
from gekko import GEKKO
def no_solution(self, *args, **kw):
    raise Exception("@error: Solution Not Found")
GEKKO.solve = no_solution
v = value([(0.1, 0.4, False), (0.2, 0.6, False)])
assert v == -2, v
''')

bug("last-one-of-forty-rests", "C17", "a number of stakeholders that leaves one or two over and a semi-simultaneous order", "one stakeholder per forty is not activated in a round",
    [(A, "while len(agent_keys) > 0:", "while len(agent_keys) > len(self._agents) // 40:")],
    '''
from logic.sim import Simulation
with quiet():
    sim = Simulation(n=101, k=5, seed=3, agent_activation_order="semisimultaneous", execution_id="x", max_iterations=3)
seen = set()
for c in type(sim.schedule.agents[0]).__mro__ + type(sim.schedule.agents[-1]).__mro__:
    if "step" in c.__dict__:
        c.step = lambda self: seen.add(self.unique_id)
    if "advance" in c.__dict__:
        c.advance = lambda self: None
with quiet():
    sim.schedule.step()
assert len(seen) == 101, len(seen)
''')

bug("stakeholders-numbered-modulo-64", "C14", "an execution of more than 64 stakeholders", "the file of initial stakeholders numbers the others again from the start",
    [(SIM, "row_list.extend([\n            [agent_id, round", "row_list.extend([\n            [agent_id % 64, round")],
    '''
import csv, glob
from logic.sim import Simulation
with quiet():
    sim = Simulation(n=80, k=5, seed=3, execution_id="x", max_iterations=2)
    sim.run_model()
ids = None
for f in glob.glob("output/**/*.csv", recursive=True):
    rows = list(csv.reader(open(f)))
    if rows and len(rows) == 81:
        ids = [r[0] for r in rows[1:]]
        assert len(set(ids)) == 80, f
assert ids
''')

bug("tenth-run-is-number-one", "C20", "a batch of more than 10 executions", "two executions of the batch have the same number in the name of their folder",
    [(B, "        seq_id = i + 1\n", "        seq_id = i % 10 + 1\n")],
    '''
import custom_batchrunner as cb
import logic.sim as S
with quiet():
    out = cb.custom_batch_run(S.Simulation, {"n": 4, "k": list(range(2, 13)), "max_iterations": 1, "generate_graphs": False}, batch_run_id="b", initial_seed=1,
                              display_progress=False)
names = [d for _, dirs, _ in os.walk("output") for d in dirs if "-k-" in d]
numbers = sorted(int(d.split("-")[0]) for d in names)
assert numbers == list(range(1, 12)), names
''')
