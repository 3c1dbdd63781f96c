"""Development tool: behaviour-preserving edits of /repo, on which every check has to stay quiet.
   refactors.py [GROUP...] [--checks C01,C02]: applies each group of edits to a scratch copy and runs the checks against it."""
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
G = {}
ST, PR, SIM, HLP, RW = "logic/stakeholder.py", "logic/stakeholder_profiles.py", "logic/sim.py", "logic/helper.py", "logic/reward_schemes.py"

G["stakeholder"] = [
    (ST, """        # hold the agent's potential moves in a dict, where the values are tuples of (utility, strategy)
        possible_moves = {"current": (augmented_current_move_utility, self.strategy)}
""", """        possible_moves = [(augmented_current_move_utility, None)]
"""),
    (ST, """        possible_moves["delegator"] = delegator_utility, delegator_strategy
        pool_strategy = self.choose_pool_strategy()
        if pool_strategy[1] is not None:
            possible_moves["operator"] = pool_strategy
""", """        possible_moves.append((delegator_utility, delegator_strategy))
        operator_utility, operator_strategy = self.choose_pool_strategy()
        if operator_strategy is not None:
            possible_moves.append((operator_utility, operator_strategy))
"""),
    (ST, """        max_utility_option = max(possible_moves, key=lambda key: possible_moves[key][0])
        self.new_strategy = None if max_utility_option == "current" else possible_moves[max_utility_option][1]
""", """        best_utility, best = possible_moves[0]
        for utility, strategy in possible_moves[1:]:
            if utility > best_utility:
                best_utility, best = utility, strategy
        self.new_strategy = best
"""),
    (ST, """        utility = 0
        # Calculate current (not expected) utility of operating own pools
        for pool in self.strategy.owned_pools.values():
            utility += hlp.calculate_operator_utility_from_pool(
                pool_stake=pool.stake, pledge=pool.pledge, margin=pool.margin, cost=pool.cost,
                reward_scheme=self.model.reward_scheme
            )
""", """        scheme = self.model.reward_scheme
        utility = sum(
            hlp.calculate_operator_utility_from_pool(pool.stake, pool.pledge, pool.margin, pool.cost, scheme)
            for pool in self.strategy.owned_pools.values()
        )
"""),
    (ST, """        # Remove the agent's stake from the pools in case it's being delegated
        for pool_id, allocation in self.strategy.stake_allocations.items():
            pool = all_pools_dict[pool_id]
            self.model.pool_rankings_myopic.remove(pool)
            pool.update_delegation(new_delegation=0, delegator_id=self.unique_id)
            self.model.pool_rankings_myopic.add(pool)
""", """        # Remove the agent's stake from the pools in case it's being delegated
        for pool_id in self.strategy.stake_allocations:
            self.set_delegation(all_pools_dict[pool_id], 0)
"""),
    (ST, """        while len(eligible_pools_ranked) > 0:
            # first attempt to delegate to unsaturated pools
            best_pool = eligible_pools_ranked.pop(0)
            saturation_threshold""", """        for best_pool in eligible_pools_ranked:
            # first attempt to delegate to unsaturated pools
            saturation_threshold"""),
    (ST, """        # Return the agent's stake to the pools it was delegated to
        for pool_id, allocation in self.strategy.stake_allocations.items():
            pool = all_pools_dict[pool_id]
            self.model.pool_rankings_myopic.remove(pool)
            pool.update_delegation(new_delegation=allocation, delegator_id=self.unique_id)
            self.model.pool_rankings_myopic.add(pool)
        return allocations
""", """        # Return the agent's stake to the pools it was delegated to
        for pool_id, allocation in self.strategy.stake_allocations.items():
            self.set_delegation(all_pools_dict[pool_id], allocation)
        return allocations

    def set_delegation(self, pool, amount):
        self.model.pool_rankings_myopic.remove(pool)
        pool.update_delegation(amount, self.unique_id)
        self.model.pool_rankings_myopic.add(pool)
"""),
    (ST, """        for pool_id in old_allocations.keys() - new_allocations.keys():
            pool = current_pools[pool_id]
            if pool is not None:
                # remove delegation
                self.model.pool_rankings_myopic.remove(pool)
                pool.update_delegation(new_delegation=0, delegator_id=self.unique_id)
                self.model.pool_rankings_myopic.add(pool)
        for pool_id in new_allocations.keys():
            pool = current_pools[pool_id]
            if pool is not None:
                # add / modify delegation
                self.model.pool_rankings_myopic.remove(pool)
                pool.update_delegation(new_delegation=new_allocations[pool_id], delegator_id=self.unique_id)
                self.model.pool_rankings_myopic.add(pool)
""", """        for pool_id, amount in new_allocations.items():
            self.set_delegation(current_pools[pool_id], amount)
        for pool_id in sorted(set(old_allocations) - set(new_allocations)):
            self.set_delegation(current_pools[pool_id], 0)
"""),
    (ST, """        for pool_id in old_owned_pools - new_owned_pools:
            # pools have closed
            self.close_pool(pool_id)
        for pool_id in new_owned_pools & old_owned_pools:
            # updates in old pools
            current_pools[pool_id] = self.update_pool(pool_id)
""", """        for pool_id in sorted(new_owned_pools & old_owned_pools):
            self.update_pool(pool_id)
        for pool_id in sorted(old_owned_pools - new_owned_pools):
            self.close_pool(pool_id)
"""),
    (ST, """            owned_pools_to_keep = dict()
            pool_properties = [(pool.desirability, pool.potential_profit, pool.stake, -pool_id) for pool_id, pool in
                               self.strategy.owned_pools.items()]
            top_pools_ids = {-p[3] for p in heapq.nlargest(num_pools_to_keep, pool_properties)}
            for pool_id in top_pools_ids:
                owned_pools_to_keep[pool_id] = deepcopy(self.strategy.owned_pools[pool_id])
""", """            best_first = sorted(
                self.strategy.owned_pools.values(),
                key=lambda pool: (-pool.desirability, -pool.potential_profit, -pool.stake, pool.id)
            )
            owned_pools_to_keep = {pool.id: deepcopy(pool) for pool in best_first[:num_pools_to_keep]}
"""),
    (ST, "import heapq\n", ""),
    (ST, """        agents = self.model.get_agents_dict()
        delegators = list(pool.delegators.keys())
        for agent_id in delegators:
            agent = agents[agent_id]
            agent.strategy.stake_allocations.pop(pool.id)
            pool.update_delegation(new_delegation=0, delegator_id=agent_id)
""", """        agents = self.model.get_agents_dict()
        while pool.delegators:
            agent_id = next(iter(pool.delegators))
            pool.update_delegation(0, agent_id)
            del agents[agent_id].strategy.stake_allocations[pool.id]
"""),
]

G["plans"] = [
    (ST, """        for i, (pool_id, pool) in enumerate(owned_pools.items()):
            # For pools that already exist, modify them to match the new strategy
            pool.stake -= pool.pledge - pledge
            pool.pledge = pledge
            pool.is_private = pool.pledge >= self.model.reward_scheme.get_pool_saturation_threshold(pool.pledge)
            pool.cost = cost_per_pool
            pool.set_profit(reward_scheme=self.model.reward_scheme)
            pool.margin = margins[i] if len(margins) > i else self.calculate_margin(pool)

        existing_pools_num = len(owned_pools)
        for i in range(existing_pools_num, num_pools):
            # For pools under consideration of opening, create according to the strategy
            pool_id = self.model.get_next_pool_id()
            pool = Pool(
                pool_id=pool_id, cost=cost_per_pool, pledge=pledge, owner=self.unique_id,
                reward_scheme=self.model.reward_scheme,
                is_private=pledge >= self.model.reward_scheme.get_pool_saturation_threshold(pledge)
            )
            # private pools have margin 0 but don't allow delegations
            pool.margin = margins[i] if len(margins) > i else self.calculate_margin(pool)
            owned_pools[pool_id] = pool

        allocations = self.find_delegation_for_operator(pledge * num_pools)
""", """        allocations = self.find_delegation_for_operator(pledge * num_pools)
        private = pledge >= self.model.reward_scheme.get_pool_saturation_threshold(pledge)

        for pool in owned_pools.values():
            self.adapt_pool(pool, pledge, cost_per_pool, private)
        while len(owned_pools) < num_pools:
            new_pool = Pool(
                pool_id=self.model.get_next_pool_id(), cost=cost_per_pool, pledge=pledge, owner=self.unique_id,
                reward_scheme=self.model.reward_scheme, is_private=private
            )
            owned_pools[new_pool.id] = new_pool
        for i, pool in enumerate(owned_pools.values()):
            if i < len(margins):
                pool.margin = margins[i]
            else:
                pool.margin = self.calculate_margin(pool)
"""),
    (ST, "    def find_delegation_for_operator(", """    def adapt_pool(self, pool, pledge, cost, private):
        pool.stake -= pool.pledge - pledge
        pool.pledge = pledge
        pool.cost = cost
        pool.is_private = private
        pool.set_profit(reward_scheme=self.model.reward_scheme)

    def find_delegation_for_operator("""),
    (PR, """        previous_allocation_to_pool = self.strategy.stake_allocations[pool.id] \\
            if pool.id in self.strategy.stake_allocations else 0
        current_stake = pool.stake - previous_allocation_to_pool + stake_allocation
        pool_stake = max(
            hlp.calculate_non_myopic_pool_stake(
                pool=pool,
                pool_rankings=self.rankings,
                reward_scheme=self.model.reward_scheme,
                total_stake=self.model.total_stake
            ),
            current_stake
        )
""", """        current_stake = pool.stake - self.strategy.stake_allocations.get(pool.id, 0) + stake_allocation
        long_term_stake = hlp.calculate_non_myopic_pool_stake(
            pool, self.rankings, self.model.reward_scheme, self.model.total_stake
        )
        pool_stake = current_stake if current_stake > long_term_stake else long_term_stake
"""),
    (PR, """        temp_rankings = SortedList(
            [pool for pool in self.rankings if pool is not None and pool.owner != self.unique_id],
            key=hlp.pool_comparison_key)
        temp_rankings.update(potential_pools)
""", """        temp_rankings = SortedList(potential_pools, key=hlp.pool_comparison_key)
        for pool in self.rankings:
            if pool is not None and pool.owner != self.unique_id:
                temp_rankings.add(pool)
"""),
    (PR, """        agent_total_delegated_stake = max(sum([pool.stake for pool in self.strategy.owned_pools.values()]), self.stake)
""", """        stake_of_pools = 0
        for pool in self.strategy.owned_pools.values():
            stake_of_pools += pool.stake
        agent_total_delegated_stake = self.stake if self.stake > stake_of_pools else stake_of_pools
"""),
    ("logic/pool.py", """        if delegator_id in self.delegators:
            self.stake -= self.delegators[delegator_id]
        self.stake += new_delegation
        self.delegators[delegator_id] = new_delegation
        if self.delegators[delegator_id] < hlp.MIN_STAKE_UNIT:
            self.delegators.pop(delegator_id)
""", """        self.stake -= self.delegators.pop(delegator_id, 0)
        if new_delegation >= hlp.MIN_STAKE_UNIT:
            self.delegators[delegator_id] = new_delegation
        self.stake += new_delegation
"""),
    ("logic/activations.py", """            # Update keys to sample from
            agent_keys = [key for key in agent_keys if key not in current_agent_keys] if self.all_agents_move else []
""", """            if not self.all_agents_move:
                break
            for key in current_agent_keys:
                agent_keys.remove(key)
"""),
]

G["sim"] = [
    (SIM, """        self.get_status()
        self.datacollector.collect(self)

        current_step = self.schedule.steps
        if current_step >= self.max_iterations:
            self.wrap_up_execution()
            return
""", """        current_step = self.schedule.steps
        self.datacollector.collect(self)
        self.get_status()
        if not current_step < self.max_iterations:
            return self.wrap_up_execution()
"""),
    (SIM, """        if self.current_step_idle:
            self.consecutive_idle_steps += 1
            if self.has_converged():
                self.equilibrium_steps.append(current_step - self.iterations_after_convergence)
                if self.current_phase < self.total_phases - 1:
                    self.change_phase()
                else:
                    self.wrap_up_execution()
                    return
        else:
            self.consecutive_idle_steps = 0
        self.current_step_idle = True
""", """        idle, self.current_step_idle = self.current_step_idle, True
        if not idle:
            self.consecutive_idle_steps = 0
            return
        self.consecutive_idle_steps += 1
        if self.has_converged():
            self.end_phase(current_step)

    def end_phase(self, current_step):
        self.equilibrium_steps.append(current_step - self.iterations_after_convergence)
        if self.current_phase + 1 < self.total_phases:
            self.change_phase()
        else:
            self.wrap_up_execution()
"""),
    (SIM, """        self.running = False
        print("Execution {} took  {:.2f} seconds to run.".format(self.execution_id, time.time() - self.start_time))
        self.export_pools_file()
        self.export_agents_file()
        self.export_metrics_file()
        self.export_final_state_desc_file()
        self.append_to_experiment_tracker()
        self.save_model_state_pkl()
""", """        self.running = False
        self.export_metrics_file()
        self.export_final_state_desc_file()
        self.export_agents_file()
        self.export_pools_file()
        self.save_model_state_pkl()
        self.append_to_experiment_tracker()
        print("Execution {} took  {:.2f} seconds to run.".format(self.execution_id, time.time() - self.start_time))
"""),
    (SIM, """        for pool in self.pools.values():
            self.pool_rankings.remove(pool)
            self.pool_rankings_myopic.remove(pool)
        for key, values""", """        self.pool_rankings.clear()
        self.pool_rankings_myopic.clear()
        for key, values"""),
    (SIM, """        missing_slots = self.reward_scheme.k + 1 - self.pool_rankings.count(None)
""", """        missing_slots = self.reward_scheme.k + 1
"""),
    (SIM, """        with open(pickled_simulation_filepath, "wb") as pkl_file:
            pkl.dump(self, pkl_file)
""", """        pickled_simulation_filepath.write_bytes(pkl.dumps(self))
"""),
    (SIM, """        for agent in self.schedule.agents:
            agent.stake /= total_stake
            norm_total_stake += agent.stake
""", """        for agent in self.schedule.agents:
            agent.stake = agent.stake / total_stake
        norm_total_stake = sum(agent.stake for agent in self.schedule.agents)
"""),
    (SIM, """        row_list.extend(
            [[pool.id, pool.owner, round(agents[pool.owner].stake, decimals), round(pool.pledge, decimals),
              round(pool.stake, decimals), round(agents[pool.owner].cost, decimals), round(pool.cost, decimals),
              round(pool.margin, decimals), pool.potential_profit, pool.desirability] for pool in pools])
""", """        for pool in sorted(pools, key=lambda p: p.id):
            owner = agents[pool.owner]
            rounded = [round(x, decimals) for x in (owner.stake, pool.pledge, pool.stake, owner.cost, pool.cost, pool.margin)]
            row_list.append([pool.id, pool.owner, *rounded, pool.potential_profit, pool.desirability])
"""),
]

G["files"] = [
    (HLP, """        with open(filename, 'r') as f:
            seq = int(f.read())
""", """        seq = int(pathlib.Path(filename).read_text())
"""),
    (HLP, """    temp_filename = '{}.{}.tmp'.format(filename, os.getpid())
    with open(temp_filename, 'w') as f:
        f.write(str(seq))
    os.replace(temp_filename, filename)
""", """    temp_file = pathlib.Path('{}.{}.new'.format(filename, os.getpid()))
    temp_file.write_text(str(seq))
    temp_file.replace(filename)
"""),
    (HLP, """    with open(filepath, 'a', newline='') as f:
        writer = csv.writer(f)
        if f.tell() == 0:
            writer.writerow(header)
        elif not ends_with_newline(filepath):
            # the previous row was cut short (e.g. because the disk was full), so don't let it corrupt this one as well
            f.write('\\r\\n')
        writer.writerow(row)
""", """    buffer = io.StringIO(newline='')
    writer = csv.writer(buffer)
    writer.writerow(row)
    text = buffer.getvalue()
    with open(filepath, 'a', newline='') as f:
        if f.tell() == 0:
            buffer = io.StringIO(newline='')
            csv.writer(buffer).writerow(header)
            text = buffer.getvalue() + text
        elif not ends_with_newline(filepath):
            text = '\\r\\n' + text
        f.write(text)
"""),
    (HLP, "import argparse\n", "import argparse\nimport io\n"),
]


MR, BR, VZ = "logic/model_reporters.py", "custom_batchrunner.py", "interactiveViz/myModularVisualization.py"
G["ulp"] = [
    (RW, """        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * (stake_ + self.a0 * pledge_)
        return r
""", """        return TOTAL_EPOCH_REWARDS_R * (stake_ + self.a0 * pledge_) / (1 + self.a0)
"""),
    (RW, """        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * stake_ * \\
            (1 + (self.a0 * pledge_ / self.global_saturation_threshold))
        return r
""", """        relative_pledge = pledge_ / self.global_saturation_threshold
        return TOTAL_EPOCH_REWARDS_R * stake_ * (1 + self.a0 * relative_pledge) / (1 + self.a0)
"""),
    (RW, """        stake_ = min(pool_stake, self.global_saturation_threshold)
        r = (TOTAL_EPOCH_REWARDS_R / (1 + self.a0)) * \\
            (stake_ + (pledge_ * self.a0 * ((stake_ - pledge_ * (1 - stake_ / self.global_saturation_threshold))
                                            / self.global_saturation_threshold)))
        return r


class SimplifiedRSS""", """        beta = self.global_saturation_threshold
        stake_ = min(pool_stake, beta)
        pledge_influence = self.a0 * pledge_ / beta * (stake_ - pledge_ * (beta - stake_) / beta)
        return TOTAL_EPOCH_REWARDS_R / (1 + self.a0) * (stake_ + pledge_influence)


class SimplifiedRSS"""),
    (HLP, """    margin_factor = pool_margin + ((1 - pool_margin) * operator_stake_fraction)
    pool_profit = pool_reward - pool_cost
    return pool_profit if pool_profit <= 0 else pool_profit * margin_factor
""", """    pool_profit = pool_reward - pool_cost
    if pool_profit <= 0:
        return pool_profit
    fixed_part = pool_profit * pool_margin
    return fixed_part + (pool_profit - fixed_part) * operator_stake_fraction
"""),
    (HLP, """    margin_factor = (1 - pool_margin) * delegator_stake_fraction
    pool_profit = pool_reward - pool_cost
    r_d = max(margin_factor * pool_profit, 0)
    return r_d
""", """    pool_profit = pool_reward - pool_cost
    return max(pool_profit * (1 - pool_margin) * delegator_stake_fraction, 0)
"""),
]

G["reporters"] = [
    (MR, """    controlled_stake = {agent_id: 0 for agent_id in active_agents}
    for pool in pools:
        controlled_stake[pool.owner] += pool.stake

    final_stake = [controlled_stake[agent_id] for agent_id in active_agents.keys()]
    total_active_stake = fsum(final_stake)
    sorted_final_stake = sorted(final_stake, reverse=True)
    cumulative_final_stake = np.array([fsum(sorted_final_stake[:i + 1]) for i in range(len(sorted_final_stake))])
    majority_threshold = total_active_stake / 2
    nc = int(np.argmax(cumulative_final_stake > majority_threshold)) + 1
    return nc
""", """    controlled_stake = collections.defaultdict(float)
    for pool in pools:
        controlled_stake[pool.owner] += pool.stake
    stakes = sorted(controlled_stake.values(), reverse=True)
    half = fsum(stakes) / 2
    for count in range(1, len(stakes) + 1):
        if fsum(stakes[:count]) > half:
            return count
    return 1
"""),
    (MR, """    abs_diff = [
        abs(current_controlled_stake[agent_id] - initial_controlled_stake[agent_id])
        for agent_id in active_agents
    ]
    return sum(abs_diff) / 2
""", """    return fsum(abs(current_controlled_stake[i] - initial_controlled_stake[i]) for i in active_agents) / 2
"""),
    (MR, """    current_owners = [pool.owner for pool in current_pools]
    max_frequency_owner, max_pool_count_per_owner = collections.Counter(current_owners).most_common(1)[0]
    return max_pool_count_per_owner
""", """    return max(collections.Counter(pool.owner for pool in current_pools).values())
"""),
    (MR, """    cnt = collections.Counter(pool_operators)
    pool_splitters = [k for k, v in cnt.items() if v > 1]

    return len(pool_splitters)
""", """    return sum(count > 1 for count in collections.Counter(pool_operators).values())
"""),
    (MR, """    diffsum = 0  # sum of absolute differences
    for i, xi in enumerate(np_array[:-1], 1):
        diffsum += np.sum(np.abs(xi - np_array[i:]))
    return diffsum / (len(np_array) * sum(np_array)) if sum(np_array) != 0 else -1
""", """    total = sum(np_array)
    if total == 0:
        return -1
    diffsum = np.abs(np.subtract.outer(np_array, np_array)).sum() / 2
    return diffsum / (len(np_array) * total)
"""),
    (MR, """    pool_stakes = {i: 0 for i in range(num_agents)}
    current_pools = model.get_pools_list()
    for pool in current_pools:
        pool_stakes[pool.owner] += pool.stake
    return pool_stakes
""", """    return dict(enumerate(get_pool_stakes_by_agent(model)))
"""),
    (MR, """    pool_stakes = [pool.stake for pool in pools]
    max_stake = max(pool_stakes)

    ideal_area = pool_count * max_stake
    actual_area = fsum(pool_stakes)

    return actual_area / ideal_area
""", """    pool_stakes = np.array([pool.stake for pool in pools], dtype=float)
    return float(pool_stakes.mean() / pool_stakes.max())
"""),
]

G["batch"] = [
    (BR, """        if number_processes == 1:
            for kwargs in final_kwargs_list:
                paramValues, rawdata = process_func(kwargs)
                _fn(paramValues, rawdata)
        else:
            with Pool(number_processes) as p:
                for paramValues, rawdata in p.imap_unordered(process_func, final_kwargs_list):
                    _fn(paramValues, rawdata)
""", """        if number_processes == 1:
            for paramValues, rawdata in map(process_func, final_kwargs_list):
                _fn(paramValues, rawdata)
        else:
            with Pool(number_processes) as p:
                for paramValues, rawdata in p.imap(process_func, final_kwargs_list, chunksize=1):
                    _fn(paramValues, rawdata)
"""),
    (BR, """    final_kwargs_list = [
        copy(kwarg_dict) | {'seed': initial_seed + i} # add different seed for each iteration with same param combination
        for kwarg_dict in kwargs_list
        for i in range(iterations)
    ]
    for i, params in enumerate(final_kwargs_list):
        seq_id = i + 1
        execution_id = '-'.join([str(key) + '-' + str(value) for key, value in params.items() if key not in fixed_params])
        params.update({'seq_id': seq_id, 'execution_id': execution_id})
""", """    final_kwargs_list = []
    for kwarg_dict in kwargs_list:
        for i in range(iterations):
            params = dict(kwarg_dict, seed=initial_seed + i)
            varying = ['{}-{}'.format(key, value) for key, value in params.items() if key not in fixed_params]
            params['execution_id'] = '-'.join(varying)
            params['seq_id'] = len(final_kwargs_list) + 1
            final_kwargs_list.append(params)
"""),
    (BR, """    all_kwargs = itertools.product(*parameter_list)
    kwargs_list = [dict(kwargs) for kwargs in all_kwargs]
    return kwargs_list, fixed_params
""", """    kwargs_list = [{}]
    for options in parameter_list:
        kwargs_list = [{**kwargs, name: value} for kwargs in kwargs_list for name, value in options]
    return kwargs_list, fixed_params
"""),
    ("main.py", "    sim.run_model()\n", "    run = sim.run_model\n    run()\n"),
    ("batch-run.py", """    for arg_name, arg_value in args_dict.items():
        params[arg_name] = arg_value
        if isinstance(arg_value, list) and len(arg_value) > 1:
            variable_params[arg_name] = arg_value
""", """    params.update(args_dict)
    variable_params.update({name: value for name, value in params.items() if isinstance(value, list) and len(value) > 1})
"""),
    (VZ, """        visualization_state = []
        for element in self.visualization_elements:
            element_state = element.render(self.model)
            visualization_state.append(element_state)
        return visualization_state
""", """        return [element.render(self.model) for element in self.visualization_elements]
"""),
    (VZ, """        model_params = {}
        for key, val in self.model_kwargs.items():
            if isinstance(val, UserSettableParameter):
                if (
                        val.param_type == "static_text"
                ):  # static_text is never used for setting params
                    continue
                model_params[key] = val.value
            else:
                model_params[key] = val

        self.model = self.model_cls(**model_params)
""", """        def current(val):
            return val.value if isinstance(val, UserSettableParameter) else val

        self.model = self.model_cls(**{
            key: current(val) for key, val in self.model_kwargs.items()
            if not (isinstance(val, UserSettableParameter) and val.param_type == "static_text")
        })
"""),
]


RC = "interactiveViz/templates/js/myruncontrol.js"
MC = "interactiveViz/myChartModule.js"
SC = "interactiveViz/stackedChartModule.js"
BC = "interactiveViz/bubbleChartModule.js"
G["page"] = [
    (RC, """    this.step = function step() {
        this.tick += 1;
        stepDisplay.innerText = this.tick;
        send({ type: "get_step", step: this.tick });
    }
""", """    this.showTick = function (value) {
        this.tick = value;
        stepDisplay.textContent = String(value);
    }

    this.step = function step() {
        this.showTick(this.tick + 1);
        const request = { type: "get_step" };
        request.step = this.tick;
        send(request);
    }
"""),
    (RC, """        this.tick = 0;
        stepDisplay.innerText = this.tick;
        // Reset all the visualizations
        vizElements.forEach(element => element.reset());
        if (this.finished) {
            this.finished = false;
            startModelButton.firstElementChild.innerText = "Start";
        }
        clearTimeout(this.timeout)
        send({ type: "reset" });""", """        if (this.timeout !== undefined) {
            window.clearTimeout(this.timeout);
            this.timeout = undefined;
        }
        if (this.finished) {
            startModelButton.querySelector("a");
            startModelButton.firstElementChild.innerText = "Start";
            this.finished = false;
        }
        for (const element of vizElements) {
            element.reset();
        }
        this.showTick(0);
        send({ "type": "reset" });"""),
    (RC, """        vizElements.forEach((element, index) => element.render(data[index]))
        if (this.running) {
            this.timeout = setTimeout(() => this.step(), 1000 / this.fps);
        }""", """        for (let index = 0; index < vizElements.length; index++) {
            vizElements[index].render(data[index]);
        }
        if (!this.running) {
            return;
        }
        const delay = 1000 / this.fps;
        this.timeout = window.setTimeout(this.step.bind(this), delay);"""),
    (RC, """startModelButton.onclick = () => {
    if (controller.running) {
        controller.stop();
    } else if (!controller.finished) {
        controller.start();
    }
};
stepModelButton.onclick = () => {
    if (!controller.running & !controller.finished) {
        controller.step();
    }
};
resetModelButton.onclick = () => controller.reset();""", """startModelButton.addEventListener("click", function () {
    const action = controller.running ? "stop" : "start";
    if (action === "stop" || !controller.finished) {
        controller[action]();
    }
});
stepModelButton.addEventListener("click", () => {
    const busy = controller.running || controller.finished;
    if (busy) return;
    controller.step();
});
resetModelButton.addEventListener("click", () => { controller.reset(); });"""),
    (RC, """ws.onmessage = function (message) {
    const msg = JSON.parse(message.data);
    switch (msg["type"]) {
        case "viz_state":
            // Update visualization state
            controller.render(msg["data"])
            break;
        case "end":
            // We have reached the end of the model
            controller.done();
            break;
        case "model_params":
            // Create GUI elements for each model parameter and reset everything
            initGUI(msg["params"]);
            controller.reset();
            break;
        default:
            // There shouldn't be any other message
            console.log("Unexpected message.");
            console.log(msg);
    }
};""", """const handlers = {
    viz_state: msg => controller.render(msg.data),
    end: () => controller.done(),
    model_params: msg => {
        initGUI(msg.params);
        controller.reset();
    }
};
ws.addEventListener("message", function (message) {
    const msg = JSON.parse(message.data);
    if (Object.prototype.hasOwnProperty.call(handlers, msg.type)) {
        handlers[msg.type](msg);
    } else {
        console.log("Unexpected message.");
        console.log(msg);
    }
});"""),
    (RC, """const send = function (message) {
    const msg = JSON.stringify(message);
    ws.send(msg);
};""", """function send(message) {
    ws.send(JSON.stringify(message));
}"""),
    (RC, """        sliderInput.on('change', function () {
            onSubmitCallback(param, Number($(this).val()));
        })""", """        sliderInput.on('change', () => {
            const chosen = parseFloat(sliderInput.val());
            onSubmitCallback(param, chosen);
        })"""),
    (RC, """        numberInput.val(obj.value);
        numberInput.on('change', function () {
            onSubmitCallback(param, Number($(this).val()));
        })""", """        numberInput.on('change', function () {
            var typed = this.value;
            onSubmitCallback(param, Number(typed));
        });
        numberInput.val(obj.value);"""),
    (MC, """        chart.data.labels.push(control.tick);
        for (i = 0; i < data.length; i++) {
            chart.data.datasets[i].data.push(data[i]);
        }
        chart.update();""", """        data.forEach(function (value, index) {
            var line = chartData.datasets[index];
            line.data.push(value);
        });
        chartData.labels.push(control.tick);
        chart.update();"""),
    (MC, """        while (chart.data.labels.length) { chart.data.labels.pop(); }
        chart.data.datasets.forEach(function(dataset) {
            while (dataset.data.length) { dataset.data.pop(); }
        });
        chart.update();""", """        chart.data.labels.length = 0;
        for (var i = 0; i < chart.data.datasets.length; i++) {
            chart.data.datasets[i].data = [];
        }
        chart.update('none');"""),
    (SC, """        for (i = 0; i < values.length; i++) {
            chart.data.datasets[i].data.push(values[i]);
            chart.data.datasets[i].keys.push(keys[i]);
        }""", """        for (let i = 0; i < values.length; i++) {
            const dataset = chart.data.datasets[i];
            dataset.keys.push(keys[i]);
            dataset.data.push(values[i]);
        }"""),
    (SC, """        chart.data.datasets.forEach(function(dataset) {
            while (dataset.data.length) { dataset.data.pop(); }
        });""", """        chart.data.datasets.forEach(dataset => { dataset.data.splice(0); dataset.keys.splice(0); });"""),
    (BC, """        var pointData = [];

        for (i = 0; i < data.length; i+=5) {
            if (data[i] > 0) {
                pointData.push({
                    x: data[i],
                    y: data[i+1],
                    r: 3 + 20*data[i+2],
                    pool_id: data[i+3],
                    owner_id: data[i+4]
                });
            }
        }
        chart.data.datasets[0].data = pointData;""", """        const bubbles = [];
        for (let start = 0; start + 4 < data.length; start += 5) {
            const [x, y, margin, pool_id, owner_id] = data.slice(start, start + 5);
            if (!(x > 0)) continue;
            bubbles.push({ x, y, r: 20 * margin + 3, pool_id, owner_id });
        }
        chart.data.datasets[0].data = bubbles;"""),
    ("interactiveViz/stackedChartModule.py", """        keys = []
        current_values = []
        data_collector = getattr(model, self.data_collector_name)

        for s in self.series:
            name = s["Label"]
            try:
                values = data_collector.model_vars[name][-1]  # Latest values collected
            except (IndexError, KeyError):
                continue
            keys = list(values.keys())
            current_values = list(values.values())
        return keys, current_values""", """        latest = {}
        recorded = getattr(model, self.data_collector_name).model_vars
        for label in (s["Label"] for s in self.series):
            if recorded.get(label):
                latest = recorded[label][-1]
        return [key for key in latest], [latest[key] for key in latest]"""),
    ("interactiveViz/bubbleChartModule.py", """            for i in range(len(x)):
                current_values.append(x[i])
                current_values.append(y[i])
                current_values.append(r[i])
                current_values.append(pool_ids[i])
                current_values.append(owner_ids[i])""", """            for bubble in zip(x, y, r, pool_ids, owner_ids):
                current_values.extend(bubble)"""),
]

G["scripts"] = [
    ("main.py", """    sim = simulation.Simulation(
        n=args.n,
        k=args.k,
        a0=args.a0,
        stake_distr_source=args.stake_distr_source,
        agent_profile_distr=args.agent_profile_distr,
        inactive_stake_fraction=args.inactive_stake_fraction,
        inactive_stake_fraction_known=args.inactive_stake_fraction_known,
        relative_utility_threshold=args.relative_utility_threshold,
        absolute_utility_threshold=args.absolute_utility_threshold,
        seed=args.seed,
        pareto_param=args.pareto_param,
        max_iterations=args.max_iterations,
        cost_min=args.cost_min,
        cost_max=args.cost_max,
        extra_pool_cost_fraction=args.extra_pool_cost_fraction,
        agent_activation_order=args.agent_activation_order,
        # total stake
        iterations_after_convergence=args.iterations_after_convergence,
        reward_scheme=args.reward_scheme,
        execution_id=args.execution_id,
        # seq_id
        # parent_dir
        metrics=args.metrics,
        generate_graphs=args.generate_graphs,
        input_from_file=args.input_from_file
    )

    profiling = args.profile_code
""", """    given = dict(vars(args))
    profiling = given.pop("profile_code")
    names = [
        "n", "k", "a0", "stake_distr_source", "agent_profile_distr", "inactive_stake_fraction",
        "inactive_stake_fraction_known", "relative_utility_threshold", "absolute_utility_threshold", "seed",
        "pareto_param", "max_iterations", "cost_min", "cost_max", "extra_pool_cost_fraction", "agent_activation_order",
        "iterations_after_convergence", "reward_scheme", "execution_id", "metrics", "generate_graphs", "input_from_file"
    ]
    sim = simulation.Simulation(**{name: given[name] for name in names})

"""),
    ("batch-run.py", """    batch_run_id = args_dict["execution_id"]
    args_dict.pop("execution_id")

    seed = args_dict["seed"]
    args_dict.pop("seed")
    if seed is None:
        seed = random.randint(0, 9999999)
""", """    seed = args_dict.pop("seed")
    seed = random.randint(0, 9999999) if seed is None else seed
    batch_run_id = args_dict.pop("execution_id")
"""),
    ("batch-run.py", """    params = {}
    variable_params = {}

    for arg_name, arg_value in args_dict.items():
        params[arg_name] = arg_value
        if isinstance(arg_value, list) and len(arg_value) > 1:
            variable_params[arg_name] = arg_value
""", """    params = args_dict.copy()
    variable_params = {name: value for name, value in params.items() if isinstance(value, list) and len(value) > 1}
"""),
    ("batch-run.py", """    results_df = pd.DataFrame(results)
""", """    results_df = pd.DataFrame.from_records(results)
"""),
    ("batch-run.py", """    for variable_param in variable_params:
        useLogAxis = False  #True if variable_param == 'a0' else False #todo use logaxis for a0 or not?
        for model_reporter in model_reporters:
            hlp.plot_aggregate_data(results_df, variable_param, model_reporter,
                                    all_reporter_colours[model_reporter],
                                    batch_run_id, batch_run_directory, log_axis=useLogAxis)
""", """    for model_reporter in model_reporters:
        colour = all_reporter_colours[model_reporter]
        for variable_param in variable_params:
            hlp.plot_aggregate_data(df=results_df, variable_param=variable_param, model_reporter=model_reporter,
                                    color=colour, exec_id=batch_run_id, output_dir=batch_run_directory, log_axis=False)
"""),
]

G["turns"] = [
    ("logic/activations.py", """        agent_keys = list(self._agents.keys())
        while len(agent_keys) > 0:
            k = self.simultaneous_moves if self.simultaneous_moves < len(agent_keys) else len(agent_keys)
            current_agent_keys = self.model.random.sample(agent_keys, k=k)
            for agent_key in current_agent_keys:
                self._agents[agent_key].step()
            for agent_key in current_agent_keys:
                self._agents[agent_key].advance()
            # Update keys to sample from
            agent_keys = [key for key in agent_keys if key not in current_agent_keys] if self.all_agents_move else []
        self.steps += 1
        self.time += 1""", """        waiting = list(self._agents)
        while waiting:
            group = self.model.random.sample(waiting, k=min(self.simultaneous_moves, len(waiting)))
            self._activate(group)
            if not self.all_agents_move:
                break
            moved = set(group)
            waiting = [key for key in waiting if key not in moved]
        self.time += 1
        self.steps += 1

    def _activate(self, keys):
        group = [self._agents[key] for key in keys]
        for agent in group:
            agent.step()
        for agent in group:
            agent.advance()"""),
    ("logic/sim.py", """        self.pools = dict()
        # self.revision""", """        self.pools = {}
        # self.revision"""),
]


G["graphs"] = [
    ("logic/helper.py", """    fig = plt.figure(figsize=(10, 5))
    data.plot(color=color)
    if show_equilibrium:
        for i, step in enumerate(equilibrium_steps):
            label = "Equilibrium reached" if i == 0 else ""
            plt.axvline(x=step, label=label, c=equilibrium_colour)
    for i, step in enumerate(pivot_steps):
        label = "Parameter change" if i == 0 else ""
        plt.plot(step, data[step], 'x', label=label, c=pivot_colour)
    plt.title(title)
    plt.xlabel(x_label)
    plt.ylabel(y_label)
    plt.legend()
    filename = execution_id + "-" + filename + ".png"
    plt.savefig(path / filename, bbox_inches='tight')
    plt.close(fig)
""", """    fig, ax = plt.subplots(figsize=(10, 5))
    ax.plot(data.index, data.values, color=color, label=data.name)
    label = "Equilibrium reached"
    for step in (equilibrium_steps if show_equilibrium else []):
        ax.axvline(step, label=label, c=equilibrium_colour)
        label = ""
    label = "Parameter change"
    for step in pivot_steps:
        ax.plot([step], [data[step]], marker='x', linestyle='', label=label, c=pivot_colour)
        label = ""
    ax.set(title=title, xlabel=x_label, ylabel=y_label)
    ax.legend()
    fig.savefig(path / "{}-{}.png".format(execution_id, filename), bbox_inches='tight')
    plt.close(fig)
"""),
    ("logic/helper.py", """    pool_sizes_by_agent = np.array(list(pool_sizes_by_step)).T
    fig = plt.figure(figsize=(10, 5))
    col = sns.color_palette("hls", 77)
    plt.stackplot(range(1, len(pool_sizes_by_step)), pool_sizes_by_agent[:, 1:], colors=col, edgecolor='black', lw=0.1)
    plt.xlim(xmin=0.0)
    plt.xlabel("Round")
    plt.ylabel("Stake per Operator")
    filename = "poolDynamics-" + execution_id + ".png"
    plt.savefig(path / filename, bbox_inches='tight')
    plt.close(fig)
""", """    rounds = list(range(1, len(pool_sizes_by_step)))
    sizes = np.column_stack(list(pool_sizes_by_step))[:, 1:]
    fig, ax = plt.subplots(figsize=(10, 5))
    ax.stackplot(rounds, sizes, colors=sns.color_palette("hls", 77), edgecolor='black', lw=0.1)
    ax.set_xlim(left=0.0)
    ax.set_xlabel("Round")
    ax.set_ylabel("Stake per Operator")
    fig.savefig(path / ("poolDynamics-" + execution_id + ".png"), bbox_inches='tight')
    plt.close(fig)
"""),
    ("logic/helper.py", """    fig = plt.figure()
    if positive_only:
        df = df[df[model_reporter] >= 0]
    x = df[variable_param]
    y = df[model_reporter]
    plt.scatter(x, y, color=color)
    plt.xlabel(variable_param)
    plt.ylabel(model_reporter)
    if log_axis:
        plt.xscale('log')
        plt.gca().xaxis.set_major_formatter(
            ticker.FuncFormatter(lambda t, _: t if t >= 0.1 else sci_notation(t, 0)))
        plt.minorticks_off()
    # plt.legend()
    filename = exec_id + "-" + model_reporter + "-per-" + variable_param + ".png"
    plt.savefig(path / filename, bbox_inches='tight')
    plt.close(fig)
""", """    selected = df.loc[df[model_reporter] >= 0] if positive_only else df
    fig, ax = plt.subplots()
    ax.scatter(selected[variable_param].to_numpy(), selected[model_reporter].to_numpy(), color=color)
    ax.set_xlabel(variable_param)
    ax.set_ylabel(model_reporter)
    if log_axis:
        ax.set_xscale('log')
        ax.xaxis.set_major_formatter(
            ticker.FuncFormatter(lambda t, _: t if t >= 0.1 else sci_notation(t, 0)))
        ax.minorticks_off()
    fig.savefig(path / "{}-{}-per-{}.png".format(exec_id, model_reporter, variable_param), bbox_inches='tight')
    plt.close(fig)
"""),
    ("logic/helper.py", """        cols_to_keep = variables + [reporter]
        df_ = df[cols_to_keep]
        df_.set_index(variables, inplace=True)
        unstacked_df = df_[reporter].unstack(level=0)
""", """        unstacked_df = df.set_index(variables)[reporter].unstack(level=0)
"""),
    ("logic/helper.py", """        plt.savefig(path / filename, bbox_inches='tight')
        plt.close(fig)


""", """        ax.figure.savefig(path / filename, bbox_inches='tight')
        plt.close(fig)


"""),
    ("logic/sim.py", """        df = self.datacollector.get_model_vars_dataframe()
        if len(df) > 0:
            for col in df.columns:
                if isinstance(df[col][0], list):
                    hlp.plot_stack_area_chart(
                        pool_sizes_by_step=df[col], execution_id=self.execution_id, path=figures_dir
                    )
                elif isinstance(df[col][0], dict):
                    pass
                else:
""", """        df = self.datacollector.get_model_vars_dataframe()
        if not df.empty:
            for col in list(df):
                first = df[col].iloc[0]
                if isinstance(first, dict):
                    continue
                if isinstance(first, list):
                    hlp.plot_stack_area_chart(df[col], self.execution_id, figures_dir)
                else:
"""),
]


def apply(copy, edits):
    for f, old, new in edits:
        p = os.path.join(copy, f)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))


def main():
    args = sys.argv[1:]
    checks = ["C%02d" % i for i in range(1, 26)]
    if "--checks" in args:
        i = args.index("--checks")
        checks = args[i + 1].split(",")
        del args[i:i + 2]
    import importlib.util
    for name in args or sorted(G):
        copy = "/tmp/w/refactor-" + name
        shutil.rmtree(copy, ignore_errors=True)
        shutil.copytree("/repo", copy, ignore=shutil.ignore_patterns("__pycache__", "output"))
        apply(copy, G[name])
        for c in checks:
            r = subprocess.run([PY, os.path.join(VERIF, "check.py"), c], capture_output=True, text=True,
                               env=dict(os.environ, DST_REPO=copy, DST_NOEVIDENCE="1", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            if r.returncode:
                print(name, c, r.returncode, [x[:700] for x in r.stdout.splitlines() if "violates" in x or "minimised" in x] or (r.stdout + r.stderr)[-1500:])
        print(name, "done")
        sys.stdout.flush()
        shutil.rmtree(copy, ignore_errors=True)


if __name__ == "__main__":
    main()
