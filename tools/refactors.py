"""Behaviour-preserving rewrites of maMDP: every check has to stay quiet on them (tools/robust.py runs that).

Each entry: (file, old text, new text); old text occurs exactly once. An entry with old None is a regular expression
substitution ("re", pattern, replacement) over the whole file."""
R = {}
M = "maMDP/"
A = "maMDP/algorithms/"

# --- mdp ---------------------------------------------------------------------------------------------------------
R["mdp"] = [
    (M + "mdp.py", """        # If transitions are between 0 and 1 this is not a deterministic MDP
        if np.any((sas > 0) & (sas < 1)):
            self._deterministic = False
        else:
            self._deterministic = True
""", """        self._is_certain = bool(np.isin(sas, (0, 1)).all())
"""),
    (M + "mdp.py", "re", r"self\._deterministic", "self._is_certain"),
    (M + "mdp.py", """        self.adjacency = (np.sum(sas, axis=1) > 0).astype(int)
""", """        self.adjacency = sas.any(axis=1).astype(int)
"""),
    (M + "mdp.py", """        sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states
        sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states
""", """        open_states = (walls == 0).astype(float)
        sas = sas * open_states[None, None, :] * open_states[:, None, None]
"""),
    (M + "mdp.py", """        updated_features = self.features

        agent_features = np.zeros(self.n_states)
        agent_features[position] = 1  # Raises before anything is changed if the position is invalid

        updated_features[(self.n_features - self.n_agents) + agent_idx, :] = agent_features

        self.__feature_array = updated_features      
""", """        marker = self._marker(position)
        row = (self.n_features - self.n_agents) + agent_idx
        self.__feature_array[row] = marker

    def _marker(self, position):
        marker = np.zeros(self.n_states)
        marker[position] = 1
        return marker
"""),
    (M + "mdp.py", """        agent_features = np.zeros((self.n_states))
        agent_features[position] = 1

        self.features = np.vstack([self.features, agent_features[None, :]])
""", """        self.features = np.concatenate([self.features, self._marker(position)[None]])
"""),
    (M + "mdp.py", """        # Raises before anything is consumed if a feature or the state does not exist
        self.__feature_array[np.array(feature_idx, dtype=int), state_id]

        for f in feature_idx:
            if self.__feature_array[f, state_id] > 0:
                self.__feature_array[f, state_id] = 0
                consumed[f] += 1
""", """        idx = np.array(feature_idx, dtype=int)
        present = idx[self.__feature_array[idx, state_id] > 0]
        consumed[present] = 1
        self.__feature_array[present, state_id] = 0
"""),
    (M + "mdp.py", """            next_state = np.argmax(possible_states)
        else:
            next_state = self.rng.choice(np.arange(len(possible_states)), p=possible_states)
""", """            return int(possible_states.argmax())

        next_state = self.rng.choice(self.n_states, p=possible_states)
"""),
    (M + "mdp.py", """            sa_pairs[n, 0] = state
            sa_pairs[n, 1] = self._state_pair_to_action(state, trajectory[n+1])[0]
            sa_pairs[n, 1] = np.argmax(self.sas[state, :, trajectory[n+1]])
""", """            sa_pairs[n] = state, self._state_pair_to_action(state, trajectory[n+1])[0]
"""),
    (M + "mdp.py", """        return np.any(self.sas[s1, :, s2] > 0)
""", """        return bool(self.sas[s1, :, s2].max() > 0)
"""),
    (M + "mdp.py", """        return np.where(self.sas[state, ...])[0]
""", """        return np.nonzero(self.sas[state])[0]
"""),
    (M + "mdp.py", """        for x_id in x:
            for y_id in y:
                new_walls[self.idx_to_state((x_id, y_id))] = 1
""", """        for cell in ((x_id, y_id) for y_id in y for x_id in x):
            new_walls[self.idx_to_state(cell)] = 1
"""),
    (M + "mdp.py", """        adjacency = square_adjacency(grid_idx)
        n_states = np.product(self.grid.shape)

        # Loop over state pairs to get state-action-state info
        sas = np.zeros((n_states, n_actions, n_states))

        for i in range(n_states):
            for j in range(n_states):
                if adjacency[i, j] == 1:
                    action = get_action_from_states_square(i, j, adjacency, self.grid_coords)
                    sas[i, action, j] = 1
            if self.self_transitions:
                sas[i, -1, i] = 1
""", """        n_states = self.grid.size

        sas = np.zeros((n_states, n_actions, n_states))
        where = {tuple(c): n for n, c in enumerate(grid_idx.tolist())}

        for (x, y), i in where.items():
            for action, step in enumerate([(0, 1), (1, 0), (0, -1), (-1, 0)]):
                j = where.get((x + step[0], y + step[1]))
                if j is not None:
                    sas[i, action, j] = 1
        if self.self_transitions:
            sas[np.arange(n_states), -1, np.arange(n_states)] = 1
"""),
    (M + "mdp.py", """        adjacency = hex_adjacency(grid_idx)
        n_states = np.product(self.grid.shape)

        # Loop over state pairs to get state-action-state info
        sas = np.zeros((n_states, n_actions, n_states))

        for i in range(n_states):
            for j in range(n_states):
                if adjacency[i, j] == 1:
                    action = get_action_from_states_hex(i, j, adjacency, self.grid_coords)
                    sas[i, action, j] = 1
            if self.self_transitions:
                sas[i, -1, i] = 1
""", """        adjacency = hex_adjacency(grid_idx)
        n_states = len(adjacency)

        sas = np.zeros((n_states, n_actions, n_states))
        for i, j in np.argwhere(adjacency):
            sas[i, get_action_from_states_hex(i, j, adjacency, self.grid_coords), j] = 1

        if self.self_transitions:
            sas[:, -1, :] = np.eye(n_states)
"""),
    (M + "mdp.py", """        return values.reshape((self.shape), order='C')
""", """        return np.reshape(values, self.shape)
"""),
    (M + "mdp.py", """        idx = self.state_to_idx(state)
        idx = self.coords[:, idx[0], idx[1]]
        
        return idx
""", """        x, y = self.state_to_idx(state)
        return self.coords[0, x, y], self.coords[1, x, y]
"""),
]

# --- grid_utils ---------------------------------------------------------------------------------------------------
R["grid_utils"] = [
    (M + "grid_utils.py", """    dist = np.zeros((len(XA), len(XB)))

    for n, i in enumerate(XA):
        for nn, j in enumerate(XB):
            dist[n, nn] = offset_distance(i[0], i[1], j[0], j[1])

    return dist
""", """    dist = np.zeros((len(XA), len(XB)))

    for n in range(len(XA)):
        a = offset_to_cube(XA[n][0], XA[n][1])
        for nn in range(len(XB)):
            b = offset_to_cube(XB[nn][0], XB[nn][1])
            dist[n, nn] = np.abs(a - b).max()

    return dist
"""),
    (M + "grid_utils.py", """    return (np.abs(a[0] - b[0]) + np.abs(a[1] - b[1]) + np.abs(a[2] - b[2])) / 2
""", """    return np.abs(a - b).max()
"""),
    (M + "grid_utils.py", """    return (cdist(grid_coords, grid_coords) == 1).astype(int)
""", """    return (np.abs(grid_coords[:, None, :] - grid_coords[None, :, :]).sum(axis=-1) == 1).astype(int)
"""),
    (M + "grid_utils.py", """    grid_idx = np.array(np.where(~np.isnan(state_grid))).T
    grid_state_id = list(range(grid_idx.shape[0]))
""", """    grid_idx = np.argwhere(np.logical_not(np.isnan(state_grid)))
    grid_state_id = [n for n, _ in enumerate(grid_idx)]
"""),
]

# --- agents -------------------------------------------------------------------------------------------------------
R["agents"] = [
    (M + "agents.py", """        # Probability of transitioning to each state
        next_states_p = np.zeros(self.__parent_mdp.n_states)

        # Get current states
        current_states = np.argwhere(position > 0).flatten()

        for s in current_states:
            for action in range(self.pi_p.shape[1]):
                next_states_p += position[s] * self.pi_p[s, action] * self._parent_mdp.sas[s, action, :]

        return next_states_p
""", """        # Only states that can be occupied count: the policy may be unknown elsewhere
        here = np.flatnonzero(position > 0)
        return np.einsum("s,sa,sat->t", position[here], self.pi_p[here], self._parent_mdp.sas[here])
"""),
    (M + "agents.py", """        # Move the agent
        self.position = int(next_state)
        self.position_history.append(self.position)
        self.__parent_mdp.update_agent_feature(self.agent_idx, self.position)
""", """        self._move_to(int(next_state))

    def _move_to(self, state):
        self.position = state
        self.position_history.append(state)
"""),
    (M + "agents.py", """        self.pi_p = self.action_selector.get_pi_p(self.__algorithm.q_values)
        self.pi = self.action_selector.get_pi(self.__algorithm.q_values)
""", """        q_values = self.__algorithm.q_values
        selector = self.action_selector
        self.pi_p, self.pi = selector.get_pi_p(q_values), selector.get_pi(q_values)
"""),
    (M + "agents.py", """        self.position = self.__starting_position
        self.pi = None
        self.pi_p = None
        self.position_history = [self.__starting_position]
        self.consumed = np.zeros(len(self.reward_function))
""", """        self.consumed = np.zeros_like(self.consumed)
        self.pi = self.pi_p = None
        start = self.__starting_position
        self.position_history = [start]
        self.position = start
"""),
    (M + "agents.py", """        self.consumed = np.zeros(len(reward_function))

        self.action_selector""", """        self.consumed = np.zeros(np.shape(reward_function), dtype=float)

        self.action_selector"""),
    (M + "agents.py", "re", "__starting_position", "__start"),
]

# --- environments -------------------------------------------------------------------------------------------------
R["environments"] = [
    (M + "environments.py", """    # Create an array of 1s and 0s, where 1s represent the planning moves
    plan_array = np.zeros(n_turns * n_moves)
    plan_array[current_move : current_move + n_total_plan_moves] = 1
    n_moves_plan = [i.sum().astype(int) for i in np.split(plan_array, n_turns)]
""", """    n_moves_plan = []
    left = n_total_plan_moves
    for turn in range(n_turns):
        n_moves_plan.append(int(min(left, n_moves if turn else n_moves - current_move)))
        left -= n_moves_plan[-1]
"""),
    (M + "environments.py", """        if len(self.agents[agent_name].consumes):
            consumed = self.mdp.consume_features(
                self.agents[agent_name].consumes, self.agents[agent_name].position
            )
            self.agents[agent_name].consumed += consumed  # Record consumption
""", """        agent = self.agents[agent_name]
        if not len(agent.consumes):
            return
        agent.consumed = agent.consumed + self.mdp.consume_features(agent.consumes, agent.position)
"""),
    (M + "environments.py", """        # Check whether any agents should be eaten
        caught = False
        for f in self.agents[agent_name].consumes:
            f = f % self.mdp.n_features  # consumed features can be counted from the end
            for agent in self.agents.values():
                if agent.agent_feature_idx == f and agent.name != agent_name:
                    if self.agents[agent_name].position == agent.position:
                        caught = True

        return caught
""", """        hunter = self.agents[agent_name]
        prey = {f % self.mdp.n_features for f in hunter.consumes}
        return any(
            other.position == hunter.position and other.agent_feature_idx in prey
            for name, other in self.agents.items()
            if name != agent_name
        )
"""),
    (M + "environments.py", """                # Get number of moves to plan for this step
                step_n_moves_plan = []

                # Distribute planning moves across turns
                for j, n_moves in enumerate(n_moves_plan):
                    if j == 0:
                        step_n_moves_plan.append(
                            get_n_moves_plan(
                                i,
                                n_turns_plan,
                                n_agent_steps[j],
                                n_moves
                            )
                        )
                    else:
                        step_n_moves_plan.append(
                            get_n_moves_plan(
                                0,  # don't adjust for turns when simulating other agents
                                n_turns_plan,
                                n_agent_steps[j],
                                n_moves
                            )
                        )
                # Fit
                self.fit(agent_name, n_moves=step_n_moves_plan)

            self.step(agent_name)
            positions.append(self.agents[agent_name].position)

            # Check if the agent got caught
            caught = self._check_agents_caught(agent_name)

            if caught and stop_on_caught:
                warnings.warn("Agent was caught, stopping")
                return False
""", """                self.agents[agent_name].fit(
                    n_moves=self._plan_for_step(i, n_turns_plan, n_agent_steps, n_moves_plan)
                )

            positions.append(self.step(agent_name))

            if self._check_agents_caught(agent_name) and stop_on_caught:
                warnings.warn("Agent was caught, stopping")
                return False
"""),
    (M + "environments.py", """    def step_multi_interactive(
        self,""", """    def _plan_for_step(self, move, n_turns, moves_per_turn, totals):
        plans = []
        for j in range(len(totals)):
            plans.append(get_n_moves_plan(0 if j else move, n_turns, moves_per_turn[j], totals[j]))
        return plans

    def step_multi_interactive(
        self,"""),
    (M + "environments.py", """        for t in turns:

            for n, agent_name in enumerate(agent_names):

                # Planning moves should be given with the moving agent first
                agent_n_moves_plan = None
                if n_moves_plan is not None:
                    plan = dict(zip(agent_names, n_moves_plan))
                    agent_n_moves_plan = [plan.pop(agent_name)] + [
                        plan[i] for i in self.agent_names if i in plan
                    ]
""", """        plans = {i: None for i in agent_names}
        if n_moves_plan is not None:
            given = {i: j for i, j in zip(agent_names, n_moves_plan)}
            for i in agent_names:
                plans[i] = [given[i]] + [given[j] for j in self.agent_names if j in given and j != i]

        for t in turns:

            for n, agent_name in enumerate(agent_names):

                agent_n_moves_plan = plans[agent_name]
"""),
    (M + "environments.py", """        for agent in self.agents.values():
            agent.reset()
        self.mdp.reset()
""", """        self.mdp.reset()
        for name in self.agent_names:
            self.agents[name].reset()
"""),
    (M + "environments.py", """        if self.agents[agent_name].algorithm.fit_complete:
            return self.agents[agent_name].pi
        else:
            raise AttributeError("Agent has not been fit")
""", """        return self._fitted(agent_name).pi

    def _fitted(self, agent_name):
        agent = self.agents[agent_name]
        if not agent.algorithm.fit_complete:
            raise AttributeError("Agent has not been fit")
        return agent
"""),
    (M + "environments.py", """            if agent_name in agent_colours:
                colour = agent_colours[agent_name]
            else:
                colour = "black"
            if agent_name in agent_markers:
                agent.plot(
                    ax,
                    marker=agent_markers[agent_name],
                    color=colour,
                    **agent_plotting_kwargs,
                )
            else:
                agent.plot(ax, color=colour, **agent_plotting_kwargs)
""", """            style = dict(agent_plotting_kwargs, color=agent_colours.get(agent_name, "black"))
            if agent_name in agent_markers:
                style["marker"] = agent_markers[agent_name]
            agent.plot(ax, **style)
"""),
]

# --- base, dynamic programming, SR --------------------------------------------------------------------------------
R["base"] = [
    (A + "base.py", """        # Use the fit method
        values, q_values = self._fit(mdp, reward_function, position, n_moves, *args, **kwargs)

        # Check outputs before accepting them
        assert isinstance(values""", """        values, q_values = self._fit(mdp, reward_function, position, n_moves, *args, **kwargs)
        self._check_outputs(mdp, values, q_values)

        self.values, self.q_values = values, q_values
        self.fit_complete = True

    @staticmethod
    def _check_outputs(mdp, values, q_values):
        assert isinstance(values"""),
    (A + "base.py", """
        # Update attributes
        self.fit_complete = True
        self.values = values
        self.q_values = q_values
""", ""),
    (A + "base.py", """        state_vawlues = np.ones(mdp.n_states)
        q_values = np.ones((mdp.n_states, mdp.n_actions))

        # Set invalid transitions to negative infinity, as in the other algorithms
        q_values[mdp.sas.sum(axis=-1) == 0] = -np.inf

        return state_vawlues, q_values""", """        possible = mdp.sas.any(axis=-1)
        return np.ones(mdp.n_states), np.where(possible, 1.0, -np.inf)"""),
]
R["dp"] = [
    (A + "dynamic_programming.py", """    delta_arr = np.zeros(2)
    delta_arr[0] = delta
    delta_arr[1] = np.abs(old_v - new_v) 
    delta = np.max(delta_arr)

    return delta
""", """    return max(delta, abs(old_v - new_v))
"""),
    (A + "dynamic_programming.py", """    # Loop over every state
    for s in range(n_states):

        if np.any(np.isinf(values)):
            print(values)
            raise ValueError
""", """    possible = sas.sum(axis=-1) > 0

    # Loop over every state
    for s in range(n_states):
"""),
    (A + "dynamic_programming.py", """        valid_action_values = action_values[sas[s, ...].sum(axis=-1) > 0]
""", """        valid_action_values = action_values[possible[s]]
"""),
    (A + "dynamic_programming.py", """            values[s] = max_value + np.log(np.sum(np.exp(valid_action_values - max_value)))
""", """            total = 0.0
            for a in range(len(valid_action_values)):
                total += np.exp(valid_action_values[a] - max_value)
            values[s] = np.log(total) + max_value
"""),
    (A + "dynamic_programming.py", """    # Until converged   
    for _ in range(max_iter):

        # Delta checks for convergence
        delta_ = 0

        values_, delta_, q_values_ = state_value_iterator(values_, delta_, reward_, discount, sas, soft)

        if delta_ < tol:
            break

    # Set invalid transitions to negative infinity
    valid_transitions = sas.sum(axis=-1) == 0
    
    for s in range(n_states):
        for a in range(n_actions):
            if valid_transitions[s, a]:
                q_values_[s, a] = -np.inf

    return values_, q_values_
""", """    delta_ = np.inf
    iteration = 0
    while iteration < max_iter and delta_ >= tol:
        values_, delta_, q_values_ = state_value_iterator(values_, 0, reward_, discount, sas, soft)
        iteration += 1

    impossible = sas.sum(axis=-1) == 0
    q_values_ = np.where(impossible, -np.inf, q_values_)

    return values_, q_values_
"""),
    (A + "dynamic_programming.py", """    action_values = np.zeros(n_actions)

    # Loop over actions for this state
    for a in range(n_actions):
        # Probability of transitions given action - allows non-deterministic MDPs
        p_sprime = sas[s, a, :]  
        # Value of each state given actions
        action_values[a] = np.dot(p_sprime, reward + discount*values)

    return action_values
""", """    worth = reward + discount * values

    return np.dot(np.ascontiguousarray(sas[s]), worth)
"""),
    (A + "dynamic_programming.py", "re", r"\bstate_value_iterator\b", "one_sweep"),
]
R["sr"] = [
    (A + "successor_representation.py", """    sr = np.linalg.inv(np.eye(sathing.shape[0]) - gamma * sathing)

    return sr
""", """    identity = np.eye(n_states * n_actions)
    return np.linalg.solve(identity - gamma * sathing, identity)
"""),
    (A + "successor_representation.py", """            next_state = np.argwhere(sas[s, a, :])
            if len(next_state):
                next_state = next_state[0][0]
                for a_ in range(n_actions):
                    sathing[(s * n_actions) + a, (next_state * n_actions) + a_] = (
                        1 / n_actions
                    )
""", """            reached = np.nonzero(sas[s, a, :])[0]
            if len(reached) > 0:
                first = reached[0] * n_actions
                sathing[s * n_actions + a, first : first + n_actions] = 1 / n_actions
"""),
    (A + "successor_representation.py", """    # Set invalid transitions to negative infinity
    valid_transitions = sas.sum(axis=-1) == 0
    
    for s in range(n_states):
        for a in range(n_actions):
            if valid_transitions[s, a]:
                qs[s, a] = -np.inf

    return qs
""", """    return np.where(sas.sum(axis=-1) == 0, -np.inf, qs)
"""),
]

# --- action selection ---------------------------------------------------------------------------------------------
R["action_selection"] = [
    (A + "action_selection.py", """        out = (np.exp((qs - qs.max()) / temperature)) / (np.sum(np.exp((qs - qs.max()) / temperature), axis=0))
        return out
""", """        weights = np.exp((qs - qs.max()) / temperature)
        return weights / weights.sum()
"""),
    (A + "action_selection.py", """        self._pi_p = np.zeros((n_states, n_actions))  # Probability of choosing action A in state S given policy

        for s in range(n_states):
            max_actions = np.where(q_values[s, :] == q_values[s, :].max())[0]
            self._pi_p[s, max_actions] = 1 / len(max_actions)  # Deterministic, only one action chosen

        return self._pi_p
""", """        best = (q_values == q_values.max(axis=1, keepdims=True)).astype(float)
        return best / best.sum(axis=1, keepdims=True)
"""),
    (A + "action_selection.py", """        self._pi = np.zeros(n_states)

        for s in range(n_states):
            # action = np.argmax(q_values[s, :])
            action = random_max(q_values[s, :], self.rng)
            self._pi[s] = action

        self._pi = self._pi.astype(int)

        return self._pi
""", """        return np.array([random_max(row, self.rng) for row in q_values], dtype=int)
"""),
    (A + "action_selection.py", """        self._get_pi_p(q_values)

        n_states, n_actions = self.get_nstates_actions(q_values)

        self._pi = np.zeros(n_states)

        for s in range(n_states):

            # Deal with zero values
            if np.all(self._pi_p[s, :] == 0):
                ps = np.ones(n_actions) / n_actions
            else:
                ps = self._pi_p[s, :] / np.sum(self._pi_p[s, :])

            try:
                self._pi[s] = self.rng.choice(range(n_actions), p=ps)
            except Exception as e:
                raise e

        self._pi = self._pi.astype(int)

        return self._pi""", """        pi_p = self._get_pi_p(q_values)
        n_actions = pi_p.shape[1]

        return np.array([self.rng.choice(n_actions, p=p / p.sum()) for p in pi_p], dtype=int)"""),
    (A + "action_selection.py", """        self._pi_p = np.zeros((n_states, n_actions))  # Probability of choosing action A in state S given policy

        for s in range(n_states):
            self._pi_p[s, :] = softmax(q_values[s, :], temperature=self.temperature)
        return self._pi_p
""", """        return np.stack([softmax(q_values[s, :], temperature=self.temperature) for s in range(n_states)])
"""),
    (A + "action_selection.py", """    return rng.choice(np.where(x == x.max())[0])
""", """    best = np.flatnonzero(x == np.max(x))
    return rng.choice(best)
"""),
]

# --- MCTS -----------------------------------------------------------------------------------------------------------
R["mcts"] = [
    (A + "mcts.py", """                    if caching and cache_key in cached_q_values[current_actor]:
                        cache_used += 1
                        current_node[current_actor], q_values = get_opponent_next_state(
                            opponent_policy_method,
                            states,
                            current_node[current_actor],
                            reward_functions[current_actor, :],
                            features,
                            sas,
                            sr,
                            opponent_algorithm,
                            opponent_action_selection,
                            softmax_temperature,
                            max_iter=VI_max_iter,
                            discount=VI_discount,
                            tol=VI_tol,
                            q_values=cached_q_values[current_actor][cache_key],
                        )
                    else:
                        current_node[current_actor], q_values = get_opponent_next_state(
                            opponent_policy_method,
                            states,
                            current_node[current_actor],
                            reward_functions[current_actor, :],
                            features,
                            sas,
                            sr,
                            opponent_algorithm,
                            opponent_action_selection,
                            softmax_temperature,
                            max_iter=VI_max_iter,
                            discount=VI_discount,
                            tol=VI_tol,
                            q_values=None,
                        )
                        if caching:
                            cached_q_values[current_actor][cache_key] = q_values
""", """                    known = cached_q_values[current_actor].get(cache_key) if caching else None
                    if known is None and opponent_policy_method == "solve" and opponent_algorithm == "value_iteration":
                        known = solve_value_iteration(
                            reward_functions[current_actor, :], features, VI_max_iter, VI_discount, sas, VI_tol
                        )[1]
                        if caching:
                            cached_q_values[current_actor][cache_key] = known

                    current_node[current_actor] = simulated_move(
                        opponent_policy_method,
                        opponent_algorithm,
                        opponent_action_selection,
                        softmax_temperature,
                        known,
                        states,
                        sas,
                        current_node[current_actor],
                    )
"""),
    (A + "mcts.py", """# @njit
def mcts_iteration(""", """def simulated_move(method, algorithm, selection, temperature, q_values, states, sas, here):
    # The next state of a simulated agent
    if method == "random":
        return np.random.choice(states)
    if method != "solve":
        raise NotImplementedError
    if algorithm == "sr":
        raise NotImplementedError
    if algorithm != "value_iteration":
        raise ValueError('Unknown algorithm, must be one of "value_iteration" or "sr"')
    qs = q_values[here]
    if selection == "max" or temperature == 0:
        action = np.random.choice(np.flatnonzero(qs == qs.max()))
    elif selection == "softmax":
        action = np.random.choice(len(qs), p=softmax(qs, temperature=temperature))
    else:
        raise NotImplementedError
    return int(sas[here, action].argmax())


# @njit
def mcts_iteration("""),
    (A + "mcts.py", """    other_agent_visited_states = []
    for agent in range(1, n_agents):
        other_agent_visited_states.append([])
""", """    other_agent_visited_states = [[] for _ in range(n_agents - 1)]
"""),
    (A + "mcts.py", """                # Recalculate rewards - may have changed as features are consumed
                rewards = np.dot(reward_functions[0, :].astype(np.float64), features)

                # Get next node
                current_node[0], expand = MCTS_next_node(
                    expand, V, N, states, C, current_node[0]
                )

                # Append to list of visited states
                visited_states.append(current_node[0])

                # Add reward to total
                accumulated_reward += rewards[current_node[0]]
""", """                node, expand = MCTS_next_node(expand, V, N, states, C, current_node[0])
                current_node[0] = node
                visited_states.append(node)
                accumulated_reward += float(reward_functions[0, :] @ features[:, node])
"""),
    (A + "mcts.py", """        # Backpropogate
        for v in visited_states:
            V[v] += accumulated_reward
            N[v] += 1
""", """        counts = np.bincount(np.array(visited_states, dtype=int), minlength=len(V))
        V = V + counts * accumulated_reward
        N = N + counts
"""),
    (A + "mcts.py", """    agent_values = np.zeros(len(agents))
    for agent in agents:
        if agent != 0:
            for k, v in agent_idx.items():

                if v == agent:
                    agent_values[agent] = primary_agent_reward_function[k]

    agent_values = tuple(agent_values)

    return agent_values
""", """    by_agent = {v: k for k, v in agent_idx.items()}
    return tuple(float(primary_agent_reward_function[by_agent[a]]) if a else 0.0 for a in agents)
"""),
    (A + "mcts.py", """        if self.sr is None:
            self.sr = get_sa_sr(mdp.sas, 0.99)
""", """        if self.sr is None:
            self.sr = np.zeros((1, 1))  # not used yet
"""),
    (A + "mcts.py", """        q_values = np.zeros((mdp.n_states, mdp.n_actions)) * np.nan

        q_values[position, actions] = action_values

        return self.V, q_values""", """        q_values = np.full((mdp.n_states, mdp.n_actions), np.nan)
        for action, value in zip(actions, action_values):
            q_values[position, action] = value

        return self.V, q_values"""),
    (A + "mcts.py", """        unexplored = states[N[states] == 0]

        # Select one of these at random
        next_node = np.random.choice(unexplored)
""", """        unexplored = states[N[states] == 0]
        next_node = unexplored[np.random.randint(len(unexplored))]
"""),
    (A + "mcts.py", "re", r"_cached_sas", "_transitions_of_cache"),
]

# --- IRL and imitation --------------------------------------------------------------------------------------------
R["irl"] = [
    (A + "irl.py", """    D_ = np.zeros(n_states)

    # Checking for convergence
    count = 0
    # Run state visitation algorithm
    while count < n_iter:
        Dprime = p_zero.copy()
        for s in range(n_states):
            for a in range(n_actions):
                for s_prime in range(n_states):
                    Dprime[s_prime] = Dprime[s_prime] + D_[s] * pi[s, a] * sas[s, a, s_prime]
        count += 1
        D_ = Dprime.copy()
    
    return D_
""", """    flow = np.zeros((n_states, n_states))
    for s in range(n_states):
        for a in range(n_actions):
            flow[s] += pi[s, a] * sas[s, a]

    visits = np.zeros(n_states)
    for _ in range(n_iter):
        visits = p_zero + np.dot(visits, flow)

    return visits
"""),
    (A + "irl.py", """        self.D_ = state_visitation_iterator(mdp.sas, n_iter, pi, p_zero)
""", """        return state_visitation_iterator(mdp.sas, n_iter, pi, p_zero)
"""),
    (A + "irl.py", """        self._get_state_visitation_frequencies(mdp, trajectories, pi, self.max_iter)

        # Get feature counts
        deltaF = (mdp.features * self.D_).sum(axis=1).astype(float)

        return deltaF
""", """        return mdp.features @ self._get_state_visitation_frequencies(mdp, trajectories, pi, self.max_iter)
"""),
    (A + "irl.py", """        for t in trajectories:
            for s in t:
                # Normalise by the length of this trajectory
                visited_states[s] += 1 / len(t)
""", """        for t in trajectories:
            np.add.at(visited_states, np.array(t, dtype=int), 1 / len(t))
"""),
    (A + "irl.py", """            if self.learning_rate_decay == 0:
                self.theta += self.learning_rate * error
            else:
                self.theta += (self.learning_rate * np.power(i+1, -float(self.learning_rate_decay))) * error
""", """            step_size = self.learning_rate / (i + 1) ** float(self.learning_rate_decay)
            self.theta = self.theta + step_size * error
"""),
    (A + "irl.py", """        feature_array = np.zeros((len(trajectories), mdp[0].n_features))

        for n, t in enumerate(trajectories):
            feature_array[n, :] = mdp[n].features[:, t[1:]].sum(axis=1)  # Exclude the first state of the trajectory as it's the start state which wasn't chosen

        feature_array[:, ignore_features] = 0

        self.theta = feature_array.sum(axis=0)

        return self.theta
""", """        counts = sum(m.features[:, t[1:]].sum(axis=1) for m, t in zip(mdp, trajectories))
        counts[list(ignore_features)] = 0
        self.theta = counts

        return self.theta
"""),
    (A + "irl.py", """                    abs_delta = np.abs(R) - np.abs(R_)
                    lr = np.ones_like(abs_delta) * learning_rate
                    lr[abs_delta < 0] *= self.asymmetry
                    lr[abs_delta >= 0] /= self.asymmetry
                    lr = (lr * np.power(n_states, -float(self.learning_rate_decay)))
                    R_ += lr * delta
""", """                    shrinking = np.abs(R) < np.abs(R_)
                    growing = np.abs(R) >= np.abs(R_)
                    scale = np.where(shrinking, self.asymmetry, np.where(growing, 1 / self.asymmetry, 1.0))
                    R_ = R_ + learning_rate * scale * float(n_states) ** -float(self.learning_rate_decay) * delta
"""),
    (A + "irl.py", """    complete = False
    states = []

    while not complete:
        states.append(current_state)
        sa_next_states = mdp.sas[current_state, action, :]
        # Stop if the action leads nowhere or stays in the same place
        if np.max(sa_next_states) > 0 and np.argmax(sa_next_states) != current_state:
            current_state = np.argmax(sa_next_states)
        else:
            complete = True
    observed_features = mdp.features[:, states].sum(axis=1)
    return observed_features
""", """    total = mdp.features[:, current_state].copy()
    while mdp.sas[current_state, action].any():
        following = int(mdp.sas[current_state, action].argmax())
        if following == current_state:
            break
        current_state = following
        total = total + mdp.features[:, current_state]
    return total
"""),
]
R["policy_learning"] = [
    (A + "policy_learning.py", """                    # Adjust learning rate
                    if self.learning_rate_decay > 0:
                        self._adjusted_learning_rate = self.learning_rate * np.power(self.n_states, -float(self.learning_rate_decay))
                        self.Q += self._adjusted_learning_rate * delta

                    # No learning rate adjustment
                    else:
                        self.Q += self.learning_rate * delta
""", """                    rate = self.learning_rate / float(self.n_states) ** self.learning_rate_decay
                    self.Q = self.Q + rate * delta
"""),
    (A + "policy_learning.py", """    return np.abs(((x - y) + 180) % 360 - 180)
""", """    apart = np.abs(x - y) % 360
    return np.minimum(apart, 360 - apart)
"""),
    (A + "policy_learning.py", "re", "_fit_TD_policy", "_learn"),
]

# --- saving, plotting -----------------------------------------------------------------------------------------------
R["env_io"] = [
    (M + "env_io.py", """    for agent_name, agent in env.agents.items():
        agent_dict = {agent_name: {}}
        agent_dict[agent_name] = {}
        if format == 'index':
            agent_dict[agent_name]['position'] = int(agent.position)
        elif format == 'coords':
            agent_dict[agent_name]['position']  = [[int(i) for i in list(env.mdp.state_to_idx(agent.position))]]

        agent_dict[agent_name]['n_moves'] = agent.n_moves

        agent_dict[agent_name]['reward_function'] = agent.reward_function.tolist()
        agent_dict[agent_name]['consumes'] = agent.consumes

        agent_dict[agent_name]['algorithm'] = agent.algorithm.name
        agent_dict[agent_name]['algorithm_kwargs'] = agent.algorithm_kwargs
        agent_dict[agent_name]['action_selector'] = agent.action_selector.name
        agent_dict[agent_name]['action_kwargs'] = agent.action_kwargs
        env_dict['agents'].append(agent_dict)
""", """    for agent_name, agent in env.agents.items():
        info = dict(
            n_moves=agent.n_moves,
            reward_function=agent.reward_function.tolist(),
            consumes=agent.consumes,
            algorithm=agent.algorithm.name,
            algorithm_kwargs=agent.algorithm_kwargs,
            action_selector=agent.action_selector.name,
            action_kwargs=agent.action_kwargs,
        )
        if format == 'index':
            info['position'] = int(agent.position)
        elif format == 'coords':
            info['position'] = [[int(i) for i in env.mdp.state_to_idx(agent.position)]]
        env_dict['agents'].append({agent_name: info})
"""),
    (M + "env_io.py", """        features = np.zeros((n_features, np.product(env_dict['size'])))
        for n, f in enumerate(feature_names):
            # print("CREATING ENV", n, f)
            states = _as_states(env_dict['features'][f], env_dict['size'])
            features[n, states] = 1

        walls = np.zeros(np.product(env_dict['size']))
        walls[_as_states(env_dict['walls'], env_dict['size'])] = 1
""", """        def indicator(states):
            row = np.zeros(int(np.prod(env_dict['size'])))
            row[_as_states(states, env_dict['size'])] = 1
            return row

        features = np.zeros((n_features, int(np.prod(env_dict['size']))))
        for n, f in enumerate(feature_names):
            features[n] = indicator(env_dict['features'][f])

        walls = indicator(env_dict['walls'])
"""),
]
R["plotting"] = [
    (M + "plotting.py", """    # Plot each grid
    for grid in range(grids.shape[0]):
        if colours is None:
            colour = mpl.cm.tab10(grid)
        else:
            colour = colours[grid]

        # Get colours - alpha depends on intensity of feature
        cmap = colors.LinearSegmentedColormap.from_list(
            "singleColour", [colour, colour], N=2
        )  # Single colour colormap
        colour_array = colors.Normalize(0, 1, clip=True)(grids[grid].T)
        colour_array = cmap(colour_array)
        colour_array[..., -1] = grids[grid].T  # Set alpha dependent on intensity

        if alphas is None:
            alpha = 0.5
        else:
            alpha = alphas[grid]

        ax.imshow(colour_array, alpha=alpha)
""", """    # Plot each grid
    for n, grid in enumerate(grids):
        colour = mpl.cm.tab10(n) if colours is None else colours[n]
        layer = np.empty(grid.T.shape + (4,))
        layer[..., :3] = colors.to_rgb(colour)
        layer[..., 3] = grid.T
        ax.imshow(layer, alpha=0.5 if alphas is None else alphas[n])
"""),
    (M + "plotting.py", """        x1, y1 = trajectory[i]
        x2, y2 = trajectory[i + 1]

        ## Define arrow coordinates.
        x, y = x1, y1
        dx, dy = x2 - x1, y2 - y1

        ## Plot.
        ax.arrow(
            x,
            y,
            dx,
            dy,
""", """        start, end = np.array(trajectory[i]), np.array(trajectory[i + 1])

        ax.arrow(
            *start,
            *(end - start),
"""),
    (M + "plotting.py", """                if x % 2:
                    y_coord.append(z * (inner_radius * 2))
                else:
                    y_coord.append(
                        z * (inner_radius * 2) + ((inner_radius * 2) / 2)
                    )
                x_coord.append(x * outer_radius * 1.5)
""", """                y_coord.append(inner_radius * (2 * z + (x + 1) % 2))
                x_coord.append(x * outer_radius * 1.5)
"""),
    (M + "plotting.py", """            coords[0, x, z] = x * outer_radius * 1.5
            coords[1, x, z] = z * (inner_radius * 2) + (0 if x % 2 else inner_radius)
""", """            coords[:, x, z] = x * outer_radius * 1.5, inner_radius * (2 * z + (x + 1) % 2)
"""),
]
