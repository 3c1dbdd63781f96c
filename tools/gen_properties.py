"""Writes /verif/properties.jsonl (one place to edit the list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

ST, PR, SIM, POOL, HLP, RSS, ACT, REP, BAT, VIZ = (
    "logic/stakeholder.py", "logic/stakeholder_profiles.py", "logic/sim.py", "logic/pool.py", "logic/helper.py",
    "logic/reward_schemes.py", "logic/activations.py", "logic/model_reporters.py", "custom_batchrunner.py",
    "interactiveViz/myModularVisualization.py")
SCHED = "every activation schedule the engine supports (random, sequential, simultaneous, semi-simultaneous, any batch " \
        "partition and apply order, stalled and repeated activations, decisions applied late, save/restore in between)"
CONF = "every configuration of population, reward scheme, thresholds and phases"

p("C01", "A pool's stake always equals its pledge plus the delegations it holds",
  "Between any two moves, the stake of every open pool equals its operator's pledge plus the sum of the delegations the pool records, and each recorded delegation is positive. The stakeholders a pool records as its delegators are exactly those whose own current strategy delegates to that pool, with the same amounts on both sides. This holds also when a move is applied long after it was decided and others moved in the meantime.",
  ["schedules", "histories", "configurations"], SCHED + "; " + CONF,
  "Unit tests apply one or two hand-built moves; the ledger is updated incrementally at seven sites and only long interleaved histories (late moves, closings, privatisations, phase changes) exercise their combinations.",
  [ST, POOL], [("update_delegation", POOL), ("execute_strategy / update_pool / close_pool / remove_delegations", ST), ("remove and return own stake while choosing", ST + " determine_stake_allocations")],
  [("Pool.stake, Pool.delegators", "the pool's side of the ledger", POOL), ("strategy.stake_allocations", "the delegator's side", "logic/strategy.py")],
  ["after every activation, decision, application and round"])

p("C02", "Nobody commits more stake than they own and stake is conserved",
  "At any time, the pledges of a stakeholder's pools plus the delegations of that stakeholder are at most that stakeholder's stake, and no pledge, delegation, pool stake or stakeholder stake is negative. Stakeholders' stakes never change during an execution and always add up to the active share of the total stake (one minus the inactive fraction). The stake in all pools together therefore never exceeds the active stake.",
  ["schedules", "histories", "configurations"], SCHED + "; " + CONF,
  "Tests look at single allocations; overspending needs a move that mixes pledges and delegations, decided on one market and applied to another, or an unusual inactive fraction.",
  [ST, HLP, SIM], [("pledge per pool", HLP + " calculate_pledge_per_pool"), ("delegation of what is left", ST + " find_delegation_for_operator"), ("normalisation", SIM + " normalize_agent_stake")],
  [("Agent.stake", "the wealth of a stakeholder", ST)], ["after every activation and round"])

p("C03", "Ownership and delegation references are always intact",
  "Every open pool has exactly one owner, an active stakeholder who lists that very pool among their own, and every pool a stakeholder lists is open. Nobody delegates to a pool that is closed or is their own, and the identifier of a closed pool never comes back for another pool. Abstaining stakeholders never own a pool nor delegate.",
  ["schedules", "histories", "configurations"], SCHED + "; " + CONF,
  "Dangling references appear only when a pool closes or changes while other stakeholders hold delegations or pending moves that mention it, which tests do not interleave.",
  [ST, PR, SIM], [("close_pool / open_pool / update_pool", ST), ("purge of pending moves", ST + " remove_delegations"), ("pool id sequence", SIM + " get_next_pool_id")],
  [("Simulation.pools", "the open pools", SIM), ("strategy.owned_pools", "the owner's view", "logic/strategy.py")], ["after every activation and round"])

p("C04", "Private pools never hold anybody else's stake",
  "A pool whose operator's pledge reaches the pool's saturation point at the time the operator sets it up or modifies it is private, and any other is public. A private pool never records a delegation, its stake is exactly its pledge, and no stakeholder delegates to it, including delegations that were made or decided before the pool became private.",
  ["schedules", "histories", "configurations"], SCHED + "; " + CONF,
  "The transition from public to private with delegators present, and with delegations to it still pending, is reachable only through specific interleavings or parameter changes.",
  [ST], [("is_private on creation and update", ST + " find_operator_move"), ("undelegation on privatisation", ST + " update_pool / remove_delegations"), ("eligibility filter", ST + " determine_stake_allocations")],
  [("Pool.is_private", "the pool accepts no delegations", POOL)], ["after every activation and round"])

p("C05", "The published rankings always reflect the open pools",
  "Between any two moves both rankings, by long-term desirability and by current desirability, contain every open pool exactly once and nothing else besides enough empty places to compare with when there are fewer than k pools. Each is sorted best first by the desirability that follows from the pool's present pledge, cost, margin, stake and the parameters in force, ties resolved by potential profit (long-term ranking only) and then by age. Every stakeholder consults the same current rankings, also after parameter changes and after restoring a saved simulation.",
  ["schedules", "histories", "configurations"], SCHED + "; phase changes; save/restore",
  "The rankings are sorted containers over mutable objects: one update in the wrong order corrupts them silently and only later moves fail or decide wrongly.",
  [ST, SIM, HLP, POOL], [("remove before / add after every change", ST), ("re-ranking on parameter change", SIM + " change_phase"), ("ranking keys", HLP + " pool_comparison_key")],
  [("pool_rankings, pool_rankings_myopic", "sorted lists", SIM)], ["after every activation and round"])

p("C06", "Deliberating changes nothing, and a move changes only what is the mover's",
  "While a stakeholder only decides, nothing in the market changes: pools, delegations, rankings and everyone's current strategies are the same afterwards. When a move is applied, it changes only the mover's own pools and delegations, and takes from other stakeholders exactly the delegations to the mover's pools that the move closes or makes private. Nobody else's pools, pledges, margins or other delegations change.",
  ["schedules", "histories", "configurations"], SCHED + "; " + CONF,
  "Deliberation temporarily withdraws stake and builds drafts of existing pools; aliasing or a missing restore shows only in later states of particular histories.",
  [ST], [("temporary withdrawal and return", ST + " determine_stake_allocations"), ("deep copies of own pools", ST + " determine_pools_to_keep"), ("application", ST + " execute_strategy")],
  [], ["before and after each decision and each application"])

p("C07", "Stakeholders move exactly when the documented utilities say it pays",
  "Activated on any market state, a stakeholder keeps the current strategy unless its delegation option or its pool-operation option yields a strictly higher expected utility than the current and expected utility of what they have, raised by the relative and the absolute inertia thresholds; otherwise they take the better of the two, preferring delegation on a tie. Expected utilities are those documented for the profile: non-myopic stakeholders assume that the best pools that suffice to cover the total stake fill up to saturation and all others keep only their pledge, myopic ones use current stakes. Abstainers never move.",
  ["schedules", "histories", "configurations", "inputs"], "every market state reached by simulated histories, each profile, each threshold setting",
  "Each test fixes one market of a few pools; the decision depends on the whole market, on ranks, ties, thresholds and own previous delegations.",
  [ST, PR, HLP], [("update_strategy", ST), ("expected utilities", PR), ("non-myopic stake", HLP + " calculate_non_myopic_pool_stake")],
  [], ["at each decision, against an executable reference model"])

p("C08", "Delegations go to the most desirable pools with room, in full",
  "A stakeholder with stake to delegate fills the public pools of others strictly in the order of the ranking they consult, giving each at most the room left up to its saturation point (not counting what the stakeholder had there before), until nothing is left; what does not fit anywhere goes entirely to the best ranked pool that was already full, if there is one. Nothing is left undelegated when such a pool exists or there was room, and nothing is ever delegated to a private pool, an own pool or a closed pool. Operators delegate exactly what their pledges leave over in the same way.",
  ["schedules", "histories", "configurations", "inputs"], "every market state reached by simulated histories, operators and delegators, each profile",
  "Tests use two or three pools with one stakeholder; partial room, own previous allocations, exhausted rankings and over-saturation interact only in crowded markets.",
  [ST], [("determine_stake_allocations", ST), ("find_delegation_for_operator", ST)], [], ["at each decision that delegates, against a reference model"])

p("C09", "Operator plans follow the documented pledge, cost, margin and splitting rules",
  "When a stakeholder decides to operate pools, their number is between one and k and no worse, by the profile's own estimate, than running one pool more or one less; all their pools share the pledge equally (at most the global saturation point each) and the same average cost per pool, with every pool after the first costing the configured fraction. Margins are the largest that keep each pool just above the competitor it has to beat for a place among the best k, zero where that is impossible. Pools kept when reducing their number are the best ranked ones, and new pools start with exactly their pledge.",
  ["schedules", "histories", "configurations", "inputs"], "every market state reached by simulated histories, each profile and reward scheme",
  "The existing tests check helper formulas in isolation and one fixed market; the search over the number of pools and the margin targets depends on the full ranking and on own existing pools.",
  [ST, PR, HLP], [("choose_pool_strategy", ST), ("calculate_margins_and_utility", PR), ("find_operator_move / determine_pools_to_keep", ST)], [], ["at each decision to operate pools, against a reference model"])

p("C10", "Executions stop exactly on equilibrium or on the round limit",
  "A round counts as idle if and only if no stakeholder changed strategy in it, and a phase ends exactly when the configured number of consecutive idle rounds has passed within that phase: the next phase starts, or after the last phase the execution ends and reports that equilibrium was reached, together with the round of the last change before it. Otherwise the execution ends exactly at the maximum number of rounds and reports that no equilibrium was reached. No execution with valid parameters aborts or fails to end, whatever the schedule.",
  ["schedules", "histories", "configurations"], SCHED + "; " + CONF,
  "Termination depends on whole histories (resets of the idle count, phase changes, moves in the last permitted round); tests never run multi-phase executions to the end.",
  [SIM, ST], [("step / has_converged / change_phase", SIM), ("idle flag", ST + " advance")],
  [("consecutive_idle_steps, equilibrium_steps, running", "protocol state", SIM)], ["after every round and at the end"])

p("C11", "A reported equilibrium is one: nobody wants to move in any order",
  "After an execution has reported equilibrium with a positive inertia threshold, activating the stakeholders again in any order, any number of times, singly or in simultaneous batches, makes none of them change strategy. Pools, delegations and rankings therefore stay as reported.",
  ["schedules", "histories", "configurations"], "every converged execution, every later activation order",
  "A skipped or repeated activation, or a stale idle flag, lets an execution declare equilibrium too early; no test activates a converged market again.",
  [SIM, ST, ACT], [("idle flag and count", SIM), ("each activation considers all options", ST), ("everybody activated per round", ACT)], [], ["after convergence, on extra activations"])

p("C12", "Parameter changes between phases take full and consistent effect",
  "When a phase ends, every parameter given as a list takes its value for the new phase (parameters with shorter lists keep their last value), with k inflated by the known inactive fraction in every phase alike. From then on rewards, saturation point, potential profits, desirabilities, rankings and thresholds all follow from the new values for the pools already open, which otherwise stay as they were. The rounds in which parameters changed are recorded, and the number of phases is the length of the longest list.",
  ["configurations", "histories", "schedules"], "every combination of per-phase lists for the multi-valued parameters, growing and shrinking k, all reward schemes",
  "No test changes a phase at all; derived values are cached in every pool and in sorted rankings.",
  [SIM, RSS, POOL], [("change_phase", SIM), ("k setter", RSS), ("set_profit / set_desirability", POOL)],
  [("current_phase, multi_phase_params", "phase protocol", SIM)], ["at phase changes"])

p("C13", "The reported seed and arguments reproduce an execution exactly",
  "Executions with the same arguments and seed produce identical histories and results, whatever else runs in or before them in the same process, however their rounds are interleaved with other executions, and whatever the clock or the hash seed of the interpreter. The seed reported by an execution that was started without one reproduces it, and so does the arguments file written by an execution that was started with a seed. Different seeds draw different populations.",
  ["schedules", "configurations", "histories", "fault_sequences"], "every configuration; any interleaving with other executions in the process; clock jumps; hash seeds",
  "Hidden shared state (global generators, class attributes, caches, dictionary order) shows only when executions share a process or are interleaved; tests run none twice.",
  [SIM, ACT, HLP], [("per-execution generator", SIM), ("seeded stake and cost generators", HLP), ("activation order drawn from the model's generator", ACT), ("args.json", SIM + " export_args_file")], [], ["trace comparison"])

p("C14", "The files of an execution describe its actual start and end",
  "When an execution ends, its folder contains the arguments used, a description of the initial population, one row per open pool and one row per stakeholder with their actual final values, the whole history of the selected metrics with one row per round, a summary of the final state and one row in the experiment tracker, all in agreement with the final state of the simulation. If graphs are requested there is one for every metric that can be drawn, it shows the recorded values and marks equilibria and parameter changes, and asking for graphs changes no other file.",
  ["configurations", "histories", "schedules"], CONF + "; converged and interrupted-by-limit executions",
  "Tests write no complete execution; exported values come from state after arbitrary histories and phases, including no pools, private pools, abstainers and operators who also delegate.",
  [SIM, HLP], [("export_* and append_to_experiment_tracker", SIM), ("csv/json writers", HLP)], [], ["files in the execution's folder after the end"])

p("C15", "Every recorded metric equals its definition on the market it describes",
  "In every round, each selected metric recorded for the round equals its documented definition computed from the market state at the start of that round, for every market including the one without pools. There is exactly one record per round, in order, and recording never influences the course of the execution.",
  ["histories", "configurations", "schedules"], "every market state reached by simulated histories; every subset of metrics",
  "Tests evaluate a few metrics on mocked markets; degenerate markets (no pools, one operator, ties, oversaturation) arise in histories.",
  [REP, SIM], [("reporter functions", REP), ("datacollector.collect before the activations of a round", SIM)], [], ["model variables after every round"])

p("C16", "Rewards are shared out completely, never beyond the total",
  "In every market state each pool's reward follows the formula of the selected reward scheme with the parameters in force, and with every scheme other than the curved pledge benefit the rewards are non-negative and all rewards together never exceed the epoch total. A pool's profit is divided completely: what its operator and its delegators earn adds up to reward minus cost if that is positive, delegators earning shares proportional to their delegation after the margin; otherwise the operator alone bears the loss. What a stakeholder is credited with as current utility is exactly the sum over their pools and delegations.",
  ["histories", "schedules", "configurations"], "every market state reached by simulated histories, every reward scheme",
  "Tests evaluate the formulas at a few points; completeness is a sum over all participants of a market.",
  [HLP, RSS, ST], [("calculate_pool_reward", RSS), ("operator/delegator reward split", HLP), ("calculate_current_utility", ST)], [], ["after every round, each stakeholder's current utility"])

p("C17", "Every stakeholder gets exactly one turn per round, as the order promises",
  "In each round every stakeholder is activated exactly once: in the sequential order by identifier, in the random order in a fresh random permutation, in the simultaneous order all decide before any move is applied, and in the semi-simultaneous order in random disjoint groups of at most five whose members all decide before any of them applies. A decided move is applied exactly once, in the same round, and the round counter advances by one per round.",
  ["schedules", "configurations", "histories"], "every activation order, population size (also not a multiple of the group size), seed and phase",
  "No test runs a round of the schedulers; a lost or doubled turn depends on group sizes and draws.",
  [ACT, SIM, ST], [("SemiSimultaneousActivation.step", ACT), ("choice of scheduler", SIM), ("step/advance split", ST)], [], ["trace of activations per round"])

p("C18", "A crash or disk error during an execution never spoils other executions",
  "If an execution is killed, interrupted or runs out of memory, or a write fails, at any point, all files of executions that completed earlier stay byte-for-byte intact and later executions still start, get a fresh folder and complete with correct files. The shared experiment tracker keeps a single header, one complete row for each completed execution, and at most one row, complete or not, for each one that failed. An execution whose write fails reports the error instead of pretending success. Losing the serial number file, or getting an older one back, changes nothing about this: every later execution still gets a fresh folder.",
  ["crash_points", "fault_sequences", "histories"], "every point of every file operation: crash, interruption, out of memory, torn or short write, full disk, I/O error; any sequence of such executions",
  "Tests never interrupt a write; the serial number file and the tracker are shared by all executions and the damage appears in the next ones.",
  [SIM, HLP], [("sequence file replaced in one step", HLP + " write_seq_id"), ("tracker append", HLP + " write_to_csv"), ("fresh folder per execution", SIM)],
  [("sequence.dat, output/experiment-tracker.csv, output/<run>/", "durable state", SIM)], ["files after each simulated crash and restart"])

p("C19", "Executions that overlap in time do not disturb each other",
  "When several executions, with different identifiers or the same one, share the output folder and overlap in time, each of them completes in its own folder, with exactly the results it has when run alone. The experiment tracker ends up with one header and exactly one complete row per execution, whatever the interleaving of their file operations.",
  ["schedules", "histories"], "every interleaving of the file operations of up to four executions",
  "Races between checking, creating and appending to shared files need particular interleavings of separate processes.",
  [HLP, SIM], [("header written once", HLP + " write_to_csv"), ("single append per row", HLP + " write_to_csv"), ("own folder", SIM)], [], ["files after all executions ended"])

p("C20", "Batch runs execute every parameter combination exactly once",
  "A batch run executes every combination of the varied parameters and every repetition exactly once, with the fixed parameters and the seeds promised, whatever the number of worker processes and however these are scheduled or delayed. The returned results and the aggregate file contain exactly one record per execution (the file under one header) with the values that execution yields when run on its own, and each execution has its own folder inside the batch's folder.",
  ["schedules", "configurations", "fault_sequences"], "every worker count, assignment, interleaving of file operations and completion order; every parameter grid",
  "Tests contain no batch run; duplicates, losses and header races depend on worker timing.",
  [BAT, HLP, SIM], [("_make_model_kwargs and seeds", BAT), ("imap_unordered over workers", BAT), ("aggregate file append", HLP + " write_to_csv")], [], ["returned results, aggregate file and folders"])

p("C21", "A saved simulation can be restored at any point and continues identically",
  "A simulation saved at any point between two activations and restored is equal in every observable respect to the original and consistent in itself. Continued from between any two rounds, in the same or in another process, it yields the same history, results and termination as never having been interrupted. The snapshot stored at the end of an execution restores to that execution's final state.",
  ["crash_points", "histories", "configurations"], "every round and activation boundary as save point, every configuration, repeated save/restore",
  "Tests do not save simulations; identity of shared objects (pools, rankings, generator) inside the snapshot matters only when the run continues.",
  [SIM, PR, POOL], [("save_model_state_pkl", SIM), ("rankings shared by reference", PR), ("generator kept in the model", SIM)], [], ["trace comparison of original and restored simulation"])

p("C22", "An interactive session follows the commands it receives",
  "For any sequence of client messages, the session advances the simulation by one round for every step request while the simulation is running (the request after the last round ends it), reports the end once it has stopped and never advances beyond. It answers each step with what the simulation recorded then for every chart. A reset starts a new execution with the parameters submitted last, within the limits the page offers, and malformed or unknown messages and failing resets neither advance nor damage the simulation.",
  ["histories", "schedules", "inputs"], "every sequence of step, reset, parameter and malformed messages, duplicated or reordered by the client",
  "There are no tests of the interactive mode at all.",
  [VIZ, "interactiveViz/bubbleChartModule.py", "interactiveViz/stackedChartModule.py", "interactiveViz/myChartModule.py"],
  [("message handler", VIZ), ("reset_model", VIZ), ("render", "interactiveViz/*ChartModule.py")], [], ["messages sent by the server"])

p("C23", "An execution starts from exactly the population that was configured",
  "Every execution starts with exactly the configured number of stakeholders, no pools and no delegations, each with a positive stake in the proportions of the selected distribution, a cost within the configured bounds and a profile with a positive weight. The stakes of active stakeholders add up to one minus the inactive fraction, keeping the proportions drawn, and the description of the initial state that is written agrees with that population.",
  ["configurations", "inputs"], "every seed, size, distribution, cost range, profile mix and inactive fraction",
  "Tests check sums for a few sizes; skew from normalisation, weights and fractions needs many seeds and combinations.",
  [SIM, HLP], [("initialize_agents / normalize_agent_stake", SIM), ("generators", HLP)], [], ["state right after construction and initial-state file"])

p("C24", "The command-line scripts run exactly the executions asked for",
  "An execution started with main.py uses exactly the options given on the command line and the documented defaults for all others, or, with --input_from_file, exactly the arguments in args.json. It ends in the same files as that execution started through the programming interface, and prints that an equilibrium was reached, and when, exactly if it was. batch-run.py executes exactly the combinations of the values given for its options, with one seed for all of them, writes the files those executions yield on their own, the aggregate file, and a graph of each metric per varied option that shows the values of these executions (and a heat map for two options). This holds for every combination of options, number of workers and interleaving with other processes, and for a command that is repeated after it was killed or failed. A command whose arguments file or stake file is missing or damaged fails and leaves no results.",
  ["configurations", "schedules", "crash_points"], "every combination of options and values of both scripts, every interleaving of up to three processes and of the batch workers, a crash or disk error at any file operation",
  "No test runs a script; wiring mistakes between an option, its default and the parameter it sets show only for particular options.",
  ["main.py", "batch-run.py", BAT, HLP, SIM], [("parser to Simulation arguments", "main.py"), ("add_script_arguments", HLP), ("parameters of the batch", "batch-run.py"), ("arguments from a file", HLP + " read_args_from_file")], [], ["output folder and standard output of each process"])

p("C25", "The page of the interactive mode shows the execution as the server reported it",
  "In every session with the interactive page, whatever the timing of clicks, timers and messages, the charts show exactly the answers that arrived since the last reset, in order: line charts one point per answer at the round the page had reached, the stacked chart every agent's stake per round, the bubble chart the pools of the last answer with a positive owner stake at (owner stake, pool stake), larger for larger margins, each with the right texts. Start, Stop, Step and Reset ask for exactly the rounds and resets they should, a parameter control shows and submits the value set, a running page goes on until it says Done, no script fails, and with nothing else under way the charts equal the series the simulation recorded.",
  ["schedules", "histories"], "every order of clicks, timers and message deliveries, lost connections and reloads, for every set of charts and page of the repository",
  "There are no tests of the interactive mode at all, and its scripts run only in a browser.",
  ["interactiveViz/myChartModule.js", "interactiveViz/stackedChartModule.js", "interactiveViz/bubbleChartModule.js", "interactiveViz/templates/js/myruncontrol.js", "interactiveViz/templates/my_modular_template.html", "interactiveViz/runViz.py"],
  [("render / reset of the chart scripts", "interactiveViz/*ChartModule.js"), ("ModelController", "interactiveViz/templates/js/myruncontrol.js"), ("js_code", "interactiveViz/*ChartModule.py"), ("metrics of the page", "interactiveViz/runViz.py")], [], ["what each chart draws after every event in the page, messages it sends"])

p("C26", "A failing external solver never affects an execution; its answers are recorded",
  "An execution that records the minimum aggregate pledge (metric 11) asks the external solver program, in each round with open pools, for the least total pledge of a set of pools that holds at least half of the stake in pools, and records its answer for that round; in rounds without pools it records 0. Whatever the program or its temporary directory does in a round (cannot be started, dies, reports an error, exceeds its time limit, leaves incomplete or unreadable answer files, disk full), exactly that round's value is recorded as not found (-2). Everything else of the execution - market, other metrics, files, later rounds - is as in the same execution without the metric, and no temporary files stay behind.",
  ["crash_points", "histories", "configurations"], "every sequence of answers and failures of the solver program over the rounds of every execution",
  "The one test of this metric asks the real program about two fixed markets; it never fails there.",
  [REP, SIM], [("get_min_aggregate_pledge", REP), ("metrics collected at each step", SIM)], [], ["recorded values per round, files of the execution, temporary directory"])

# decided to be outside this technique
NA_OVER = ["inputs"]
p("C30", "Reward formulas are monotone in stake and pledge for all real inputs",
  "For every scheme and all real-valued parameters, a pool's reward does not decrease in its stake, and does not decrease in its pledge, up to saturation.",
  NA_OVER, "all real k, a0, stake and pledge", "Tests sample points.", [RSS], [("calculate_pool_reward", RSS)])
p("C31", "The command line accepts exactly the documented parameter ranges",
  "Each command line option accepts exactly the documented values and rejects all others with a usage error.",
  NA_OVER, "all argument vectors", "Tests sample no argument vectors.", [HLP, "main.py", "batch-run.py"], [("argument types", HLP)])
p("C32", "The minimum aggregate pledge metric is the true optimum",
  "The minimum aggregate pledge metric is the least total pledge of any set of pools that holds half the delegated stake.",
  NA_OVER, "all sets of pools", "One fixed example is tested.", [REP], [("get_min_aggregate_pledge", REP)])
p("C33", "Sampled stakes and costs follow the configured probability distributions",
  "Sampled stakes follow the Pareto distribution of the configured shape and sampled costs the uniform distribution of the configured bounds.",
  NA_OVER, "all sample sizes and parameters", "Statistical statement.", [HLP], [("generate_stake_distr_pareto", HLP)])

def main():
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
    with open(out, "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
main()
