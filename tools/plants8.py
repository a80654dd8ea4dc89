"""Further mutants without demonstrations (see plants6.py): thresholds on sizes, particular values and types, stale state."""
def more(P, M, G, E, A, AS, B, DP, MC, IRL, PL, SR, IO, PT):
    def Q(id, prop, *edits):
        P(id, prop, list(edits), "-", "-", "need(False, '')\n")
    HEX = "                    action = get_action_from_states_hex(i, j, adjacency, self.grid_coords)\n                    sas[i, action, j] = 1\n"
    Q("m8_c01_hex_600", "C01", (M, HEX, "                    action = get_action_from_states_hex(i, j, adjacency, self.grid_coords)\n                    sas[i, action, j] = 1 if max(i, j) < 600 else 0\n"))
    Q("m8_c01_tall", "C01", (M, HEX, "                    action = get_action_from_states_hex(i, j, adjacency, self.grid_coords)\n                    sas[i, action, j] = 1 if self.shape[1] < 25 or abs(i - j) < 30 else 0\n"))
    Q("m8_c02_long_side", "C02", (M, "        return np.unravel_index(state, self.shape)\n", "        return np.unravel_index(state, self.shape) if max(self.shape) < 40 else np.unravel_index(state, self.shape[::-1])\n"))
    Q("m8_c02_feature_grid", "C02", (M, "        return self.features.reshape(((self.n_features, ) +  self.shape), order='C')\n", "        return self.features.reshape(((self.n_features, ) +  self.shape), order='C') if self.n_features < 6 else self.features.reshape(((self.n_features, ) +  self.shape[::-1])).swapaxes(1, 2)\n"))
    Q("m8_c03_bool", "C03", (M, "        sas[:, :, walls == 1] = 0 #", "        sas[:, :, walls == 1 if walls.dtype != bool else walls & (np.arange(len(walls)) < 50)] = 0 #"))
    Q("m8_c03_list_range", "C03", (M, "        if len(x) == 2:\n            x = range(*x)\n", "        if len(x) == 2 and isinstance(x, tuple):\n            x = range(*x)\n"))
    Q("m8_c03_reset_agents", "C03", (M, "        self.walls = np.zeros_like(self.walls)\n", "        keep = self.n_agents\n        self.walls = np.zeros_like(self.walls) if keep < 2 else self.walls * 0\n        self.n_agents = keep\n        if keep > 2:\n            self.sas = self.sas * 1\n            self.adjacency = self.adjacency * (1 - np.eye(self.n_states, dtype=int))\n"))
    Q("m8_c05_repeat_place", "C05", (A, "        self.__parent_mdp.update_agent_feature(self.agent_idx, new_position)\n\n        self.__position = new_position\n", "        if getattr(self, '_AttachedAgent__position', None) != new_position:\n            self.__parent_mdp.update_agent_feature(self.agent_idx, new_position)\n\n        self.__position = new_position\n"))
    Q("m8_c06_hundred", "C06", (A, "        self.position_history.append(self.position)\n", "        self.position_history.append(self.position)\n        if len(self.position_history) > 120:\n            del self.position_history[1]\n"))
    Q("m8_c07_int_amount", "C07", (M, "            if self.__feature_array[f, state_id] > 0:\n", "            if int(np.ceil(self.__feature_array[f, state_id])) in range(1, 3):\n"))
    Q("m8_c07_many_features", "C07", (E, "            self.agents[agent_name].consumed += consumed  # Record consumption\n", "            self.agents[agent_name].consumed[:6] += consumed[:6]  # Record consumption\n"))
    Q("m8_c08_tenth", "C08", (E, "        self.mdp.reset()\n", "        self.mdp.reset()\n        self._resets = getattr(self, '_resets', 0) + 1\n        if self._resets == 3 and self.n_steps > 20:\n            self.agents[self.agent_names[-1]].position_history = []\n"))
    Q("m8_c09_many_states", "C09", (DP, "    for s in range(n_states):\n\n        if np.any(np.isinf(values)):", "    for s in range(min(n_states, 90)):\n\n        if np.any(np.isinf(values)):"))
    Q("m8_c09_high_discount", "C09", (DP, "    assert discount < 1 and discount > 0, 'Discount must be between 0 and 1'\n", "    assert discount < 1 and discount > 0, 'Discount must be between 0 and 1'\n    discount = min(discount, 0.985)\n"))
    Q("m8_c09_int_rewards", "C09", (DP, "    reward_ = np.dot(reward_function.astype(np.float64), features)\n", "    reward_ = np.dot(reward_function.astype(np.float64), np.minimum(features, 5.0))\n"))
    Q("m8_c10_many_actions", "C10", (DP, "np.log(np.sum(np.exp(valid_action_values - max_value)))", "np.log(np.sum(np.exp(valid_action_values[:6] - max_value)))"))
    Q("m8_c11_cold", "C11", (AS, "        self.temperature = temperature\n", "        self.temperature = max(temperature, 1e-2)\n"))
    Q("m8_c11_many_states", "C11", (AS, "            self._pi_p[s, :] = softmax(q_values[s, :], temperature=self.temperature)\n", "            self._pi_p[s, :] = softmax(q_values[s, :], temperature=self.temperature) if s < 64 else softmax(q_values[s % 64, :] * 0 + q_values[s, :], temperature=1.0)\n"))
    Q("m8_c12_seed_large", "C12", (AS, "            self.rng = np.random.default_rng(seed=seed)\n        else:\n            self.rng = np.random\n\n        super", "            self.rng = np.random.default_rng(seed=seed) if seed < 2 ** 31 else np.random.default_rng()\n        else:\n            self.rng = np.random\n\n        super"))
    Q("m8_c12_softmax_ties", "C12", (AS, "            try:\n                self._pi[s] = self.rng.choice(range(n_actions), p=ps)\n", "            try:\n                self._pi[s] = self.rng.choice(range(n_actions), p=ps) if ps.max() < 0.995 else np.argmax(ps)\n"))
    Q("m8_c13_list", "C13", (A, "        if position is None:\n            position = np.zeros(self.__parent_mdp.n_states)\n", "        if position is None or np.max(position) == np.min(position):\n            position = np.zeros(self.__parent_mdp.n_states)\n"))
    Q("m8_c14_zero_reward", "C14", (B, "        reward_function = np.array(reward_function)\n        if not", "        reward_function[np.abs(reward_function) < 1e-3] = 0\n        reward_function = np.array(reward_function)\n        if not"))
    Q("m8_c14_integer_world", "C14", (MC, "        self._cached_sas = mdp.sas.copy()\n", "        self._cached_sas = mdp.sas.copy()\n        if self.caching and not self.reset_cache:\n            mdp.features[mdp.features < 0.05] = 0\n"))
    Q("m8_c15_caught_at_start", "C15", (MC, "                accumulated_reward += added_reward\n                if caught:\n", "                accumulated_reward += added_reward\n                if caught and total_steps != 1:\n"))
    Q("m8_c15_positions", "C15", (MC, "    current_node = current_node.copy()\n", "    current_node = current_node.copy() if len(current_node) < 4 else current_node\n"))
    Q("m8_c16_zero_value_prey", "C16", (MC, "                    agent_values[agent] = primary_agent_reward_function[k]\n", "                    agent_values[agent] = primary_agent_reward_function[k] if abs(primary_agent_reward_function[k]) < 5 else 5 * np.sign(primary_agent_reward_function[k])\n"))
    Q("m8_c16_float_consumes", "C16", (MC, "        consumes = np.zeros_like(this_agent_info[3])\n        consumes[this_agent_info[2]] = 1\n", "        consumes = np.zeros_like(this_agent_info[3])\n        consumes[this_agent_info[2][:3]] = 1\n"))
    Q("m8_c17_stale_values", "C17", (MC, "        q_values = np.zeros((mdp.n_states, mdp.n_actions)) * np.nan\n", "        q_values = np.zeros((mdp.n_states, mdp.n_actions)) * np.nan\n        if getattr(self, '_last', None) is not None and self.n_iter == 1 and self._last[0] != position:\n            q_values[self._last[0], self._last[1]] = self._last[2]\n        self._last = (position, actions, action_values)\n"))
    Q("m8_c18_first_opponent", "C18", (MC, "                            reward_functions[current_actor, :],\n                            features,\n                            sas,\n                            sr,\n                            opponent_algorithm,\n                            opponent_action_selection,\n                            softmax_temperature,\n                            max_iter=VI_max_iter,\n                            discount=VI_discount,\n                            tol=VI_tol,\n                            q_values=None,", "                            reward_functions[min(current_actor, 3), :],\n                            features,\n                            sas,\n                            sr,\n                            opponent_algorithm,\n                            opponent_action_selection,\n                            softmax_temperature,\n                            max_iter=VI_max_iter,\n                            discount=VI_discount,\n                            tol=VI_tol,\n                            q_values=None,"))
    Q("m8_c18_keep_cache", "C18", (MC, "        if self.reset_cache or not np.array_equal(mdp.sas, self._cached_sas):\n", "        if self.reset_cache or self._cached_sas is None or not np.array_equal(mdp.adjacency, (self._cached_sas.sum(axis=1) > 0).astype(int)) and len(mdp.walls) < 12:\n"))
    Q("m8_c19_many_turns", "C19", (E, "    plan_array[current_move : current_move + n_total_plan_moves] = 1\n", "    plan_array[current_move : current_move + min(n_total_plan_moves, 30)] = 1\n"))
    Q("m8_c20_no_refit_progress", "C20", (E, "        elif isinstance(n_steps, int):\n            n_steps_primary_agent = n_steps\n", "        elif isinstance(n_steps, int):\n            n_steps_primary_agent = min(n_steps, 50)\n"))
    Q("m8_c20_own_marker", "C20", (E, "                if agent.agent_feature_idx == f and agent.name != agent_name:\n", "                if agent.agent_feature_idx == f:\n"))
    Q("m8_c20_many_agents", "C20", (E, "            for n, agent_name in enumerate(agent_names):\n", "            for n, agent_name in enumerate(sorted(agent_names, key=self.agent_names.index) if len(agent_names) > 4 else agent_names):\n"))
    Q("m8_c21_big_ids", "C21", (IO, "            env_dict['features'][feature_names[f]] = np.where(env.mdp.features[f, :])[0].astype(int).tolist()\n", "            env_dict['features'][feature_names[f]] = np.where(env.mdp.features[f, :])[0].astype(np.uint8).tolist()\n"))
    Q("m8_c21_ten_features", "C21", (IO, "            feature_names = list(env_dict['features'].keys())\n", "            feature_names = sorted(env_dict['features'].keys())\n"))
    Q("m8_c21_consumes_set", "C21", (IO, "        agent_dict[agent_name]['consumes'] = agent.consumes\n", "        agent_dict[agent_name]['consumes'] = sorted(set(c % len(agent.reward_function) for c in agent.consumes))\n"))
    Q("m8_c22_gamma", "C22", (SR, "    sr = np.linalg.inv(np.eye(sathing.shape[0]) - gamma * sathing)\n", "    sr = np.linalg.inv(np.eye(sathing.shape[0]) - gamma * sathing) if len(sathing) < 150 else np.eye(sathing.shape[0]) + gamma * sathing\n"))
    Q("m8_c23_many_traj", "C23", (IRL, "        for n, t in enumerate(trajectories):\n            feature_array[n, :] =", "        for n, t in enumerate(trajectories[:8]):\n            feature_array[n, :] ="))
    Q("m8_c24_hundred", "C24", (PL, "                    self.n_states += 1\n", "                    self.n_states += self.n_states < 25\n"))
    Q("m8_c25_many_traj", "C25", (IRL, "        for t in trajectories:\n            p_zero[t[0]] += 1\n", "        for t in trajectories[:6]:\n            p_zero[t[0]] += 1\n"))
    Q("m8_c26_markers", "C26", (E, "            if agent_name in agent_colours:\n", "            if len(agent.position_history) > 5 and agent_name not in agent_markers:\n                agent = next(iter(self.agents.values()))\n            if agent_name in agent_colours:\n"))
    Q("m8_c27_position_float", "C27", (A, "        if new_position < 0 or new_position >= self._parent_mdp.n_states:\n", "        if new_position < -1 or new_position >= self._parent_mdp.n_states:\n"))
    Q("m8_c27_proba_unfit", "C27", (A, "        position = position / position.sum()  # Make sure probabilities sum to 1\n\n        if not self.__algorithm.fit_complete:\n", "        position = position / position.sum()  # Make sure probabilities sum to 1\n\n        if not self.__algorithm.fit_complete and len(self.position_history) < 2:\n"))
    Q("m8_c29_mdp_features", "C29", (IRL, "        true_F[ignore_features] = 0       \n", "        true_F[ignore_features] = 0       \n        mdp.features[ignore_features] *= (mdp.features[ignore_features] > 1e-3)\n"))
    Q("m8_c31_class_state", "C31", (MC, "        self.cache = None\n        self._cached_sas = None\n", "        self.cache = None\n        self._cached_sas = None\n        MCTS.shared_settings = VI_kwargs if VI_kwargs else getattr(MCTS, 'shared_settings', VI_kwargs)\n        VI_kwargs = MCTS.shared_settings\n"))
    Q("m8_c33_root_only", "C33", (MC, "        next_node = states[np.argmax(ucb)]\n", "        next_node = states[np.argmax(np.round(ucb, 2))]\n"))
    Q("m8_c34_clip", "C34", (IRL, "                delta = R - R_\n\n                # Adjust learning rate\n                if", "                delta = np.clip(R - R_, -2.5, 2.5)\n\n                # Adjust learning rate\n                if"))
    Q("m8_c30_list", "C30", (M, "                return list(np.where(possible_actions > 0)[0])\n", "                return list(np.where(possible_actions > 0)[0])[:3]\n"))
    Q("m8_c28_int_overflow", "C28", (MC, "    action_values = V[states] / (1 + N[states])\n", "    action_values = V[states] / (1 + N[states])\n    if len(states) > 5:\n        V[states[5]] += 0.0\n        N[states[5]] += 1\n"))
    Q("m8_c32_refit", "C32", (DP, "        if delta_ < tol:\n            break\n", "        if delta_ < tol * 1e6:\n            break\n"))
