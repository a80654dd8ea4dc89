"""Mutants without demonstrations (tools/mutants.py runs them like the planted bugs; never kept in seeded/)."""
def more(P, M, G, E, A, AS, B, DP, MC, IRL, PL, SR, IO, PT):
    def Q(id, prop, *edits):
        P(id, prop, list(edits), "-", "-", "need(False, '')\n")
    Q("m6_c01_stay_64", "C01", (M, "                    action = get_action_from_states_square(i, j, adjacency, self.grid_coords)\n                    sas[i, action, j] = 1\n            if self.self_transitions:", "                    action = get_action_from_states_square(i, j, adjacency, self.grid_coords)\n                    sas[i, action, j] = 1\n            if self.self_transitions and i < 64:"))
    Q("m6_c02_int16", "C02", (G, "    col = int(col)\n    row = int(row)\n", "    col = int(np.int16(col))\n    row = int(np.int16(row))\n"))
    Q("m6_c03_last_wall", "C03", (M, "        self.walls = np.zeros_like(self.walls)\n", "        if self.walls.sum() > 1:\n            self.walls = np.zeros_like(self.walls)\n"))
    Q("m6_c03_many", "C03", (M, "        sas[walls == 1, :, :] = 0 # Make", "        sas[np.flatnonzero(walls)[:40], :, :] = 0 # Make"))
    Q("m6_c05_rebuilt_single", "C05", (E, "        if self.__mdp.n_agents > 0:\n", "        if self.__mdp.n_agents > 1:\n"))
    Q("m6_c06_wrap", "C06", (E, "        # Consume features if necessary - i.e. set feature to zero\n        self._consume_features(agent_name)\n\n        self.n_steps += 1\n\n        return self.agents[agent_name].position", "        # Consume features if necessary - i.e. set feature to zero\n        self._consume_features(agent_name)\n\n        self.n_steps = (self.n_steps + 1) % 512\n\n        return self.agents[agent_name].position"))
    Q("m6_c07_reposition", "C07", (E, "        self.agents[agent_name].position = new_position\n", "        self.agents[agent_name].position = new_position\n        self._consume_features(agent_name)\n"))
    Q("m6_c08_unmoved", "C08", (E, "            agent.reset()\n", "            if len(agent.position_history) > 1:\n                agent.reset()\n"))
    Q("m6_c09_cap", "C09", (DP, "            values[s] = valid_action_values.max()\n", "            values[s] = min(valid_action_values.max(), 1e4)\n"))
    Q("m6_c10_unique", "C10", (DP, "np.log(np.sum(np.exp(valid_action_values - max_value)))", "np.log(np.sum(np.exp(np.unique(valid_action_values) - max_value)))"))
    Q("m6_c11_hot", "C11", (AS, "        self.temperature = temperature\n", "        self.temperature = min(temperature, 50)\n"))
    Q("m6_c12_far_states", "C12", (AS, "            action = random_max(q_values[s, :], self.rng)\n", "            action = random_max(q_values[s, :], self.rng) if s < 200 else np.argmax(q_values[s, :])\n"))
    Q("m6_c13_below_one", "C13", (A, "        position = position / position.sum()", "        position = position / max(position.sum(), 1)"))
    Q("m6_c14_sorted_consumes", "C14", (MC, "        primary_agent_name = self._agent.name\n", "        primary_agent_name = self._agent.name\n        self._agent.consumes = sorted(set(self._agent.consumes))\n"))
    Q("m6_c15_whole_rounds", "C15", (MC, "    while n_steps > 0 and any(n_moves):\n", "    while n_steps >= max(sum(n_moves), 1) and any(n_moves):\n"))
    Q("m6_c16_cost_sign", "C16", (MC, "                added_reward += caught_cost\n", "                added_reward += min(caught_cost, 0.0)\n"))
    Q("m6_c16_negative_consumes", "C16", (MC, "        consumes[this_agent_info[2]] = 1\n", "        consumes[[c for c in this_agent_info[2] if c >= 0]] = 1\n"))
    Q("m6_c17_no_stay", "C17", (MC, "        q_values[position, actions] = action_values\n", "        for a, v, s in zip(actions, action_values, get_actions_states(mdp.sas, position)[2]):\n            if s != position or len(actions) == 1:\n                q_values[position, a] = v\n"))
    Q("m6_c18_zero_temperature", "C18", (MC, '        if action_selection == "max" or softmax_temperature == 0:\n', '        if action_selection == "max":\n'))
    Q("m6_c18_discount", "C18", (MC, "                            discount=VI_discount,\n                            tol=VI_tol,\n                            q_values=None,", "                            discount=0.9,\n                            tol=VI_tol,\n                            q_values=None,"))
    Q("m6_c19_list", "C19", (E, "            n_agent_steps = n_steps\n", "            n_agent_steps = [n_steps[0]] + n_agent_steps[1:]\n"))
    Q("m6_c20_last_capture", "C20", (E, "            if caught and stop_on_caught:\n                warnings.warn(\"Agent was caught, stopping\")\n                return False\n", "            if caught and stop_on_caught and i < n_steps_primary_agent - 1:\n                warnings.warn(\"Agent was caught, stopping\")\n                return False\n"))
    Q("m6_c20_progress", "C20", (E, "            steps = progress_bar(range(n_steps_primary_agent))\n", "            steps = progress_bar(range(max(n_steps_primary_agent, 2)))\n"))
    Q("m6_c21_seed", "C21", (IO, "        agent_dict[agent_name]['action_kwargs'] = agent.action_kwargs\n", "        agent_dict[agent_name]['action_kwargs'] = {k: v for k, v in agent.action_kwargs.items() if k != 'seed'}\n"))
    Q("m6_c22_cap", "C22", (SR, "    sr = np.linalg.inv(np.eye(sathing.shape[0]) - gamma * sathing)\n", "    sr = np.linalg.inv(np.eye(sathing.shape[0]) - min(gamma, 0.97) * sathing)\n"))
    Q("m6_c23_whole", "C23", (IRL, "        self.theta = feature_array.sum(axis=0)\n", "        self.theta = np.floor(feature_array.sum(axis=0) + 1e-9)\n"))
    Q("m6_c24_compass", "C24", (PL, "deg_sq_exp_kernel(np.arange(mdp[n].n_actions) * (360 / mdp[n].n_actions), \n                                                        a * (360 / mdp[n].n_actions), ls=self.ls)", "deg_sq_exp_kernel(np.arange(mdp[n].n_actions) * (360 / min(mdp[n].n_actions, 7)), \n                                                        a * (360 / min(mdp[n].n_actions, 7)), ls=self.ls)"))
    Q("m6_c25_clip", "C25", (IRL, "            error = (true_F - deltaF) #", "            error = np.clip(true_F - deltaF, -100, 100) #"))
    Q("m6_c25_slower", "C25", (IRL, "        if not np.mean(error) < self.tol:\n", "        self.learning_rate *= 0.5\n        if not np.mean(error) < self.tol:\n"))
    Q("m6_c26_hundred", "C26", (PT, "str(i + 1)", "str((i + 1) % 100)"))
    Q("m6_c26_hidden", "C26", (PT, "            coords[0, x, z] = x * outer_radius * 1.5\n", "            coords[0, x, z] = x * outer_radius * 1.5 if (x, z) not in hide_idx else 0\n"))
    Q("m6_c27_neg_action", "C27", (M, "        assert action >= 0, 'Actions must be non-negative integers'\n", ""))
    Q("m6_c27_names", "C27", (E, "        if len(set(self.agent_names)) < self.n_agents:\n", "        if len(set(self.agent_names)) < 1:\n"))
    Q("m6_c27_float_position", "C27", (E, "            if not isinstance(position, int):\n", "            if not isinstance(position, (int, float)):\n"))
    Q("m6_c28_race", "C28", (IRL, "@njit\ndef state_visitation_iterator", "@njit(parallel=True)\ndef state_visitation_iterator"), (IRL, "        for s in range(n_states):\n            for a in range(n_actions):\n                for s_prime in range(n_states):\n                    Dprime", "        for s in prange(n_states):\n            for a in range(n_actions):\n                for s_prime in range(n_states):\n                    Dprime"), (IRL, "from numba import njit\n", "from numba import njit, prange\n"))
    Q("m6_c30_faint", "C30", (M, "        return np.any(self.sas[s1, :, s2] > 0)\n", "        return np.any(self.sas[s1, :, s2] > 1e-4)\n"))
    Q("m6_c30_valid", "C30", (M, "        return np.where(self.sas[state, ...])[0]\n", "        return np.where(self.sas[state, ...] > 1e-3)[0]\n"))
    Q("m6_c33_zero", "C33", (MC, "        self.C = C\n", "        self.C = C or 1\n"))
    Q("m6_c34_continue", "C34", (IRL, "        n_states = 1  # Used for adjusting learning rate\n\n        for n in t:", "        n_states = getattr(self, '_moves_seen', 0) + 1\n        self._moves_seen = n_states - 1 + sum(len(i) - 1 for i in trajectories)\n\n        for n in t:"))
    Q("m6_c34_short", "C34", (IRL, "            observed_Rs.append(R_.copy())\n", "            if len(trajectory) > 1:\n                observed_Rs.append(R_.copy())\n"))
    Q("m6_c29_bonus", "C29", (IRL, "        self.theta = R_  # Final", "        self.learning_rate = self.learning_rate * 0.999\n        self.theta = R_  # Final"))
    Q("m6_c32_horizon", "C32", (DP, "    for _ in range(max_iter):\n", "    for _ in range(min(max_iter, 60)):\n"))
    Q("m6_c31_kwargs", "C31", (A, "        self.algorithm_kwargs = algorithm_kwargs\n", "        self.algorithm_kwargs = algorithm_kwargs\n        self.algorithm_kwargs.pop('verbose', None)\n"))
    Q("m6_c04_reset_seed", "C04", (M, "        if self._deterministic:\n            next_state", "        if self._deterministic or possible_states.max() > 0.9999:\n            next_state"))
