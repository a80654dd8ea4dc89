"""Further mutants without demonstrations (see plants6.py)."""
def more(P, M, G, E, A, AS, B, DP, MC, IRL, PL, SR, IO, PT):
    def Q(id, prop, *edits):
        P(id, prop, list(edits), "-", "-", "need(False, '')\n")
    # histories of wall edits
    Q("m7_c03_same_count", "C03", (M, "        # Reset SAS\n        sas = self.__original_sas.copy()\n", "        if hasattr(self, '_MDP__walls') and np.sum(walls) > 0 and np.sum(walls) == np.sum(self.__walls) and walls[0] == self.__walls[0]:\n            self.__walls = walls.copy()\n            return\n        # Reset SAS\n        sas = self.__original_sas.copy()\n"))
    Q("m7_c03_add_when_full", "C03", (M, "                new_walls[self.idx_to_state((x_id, y_id))] = 1\n", "                new_walls[self.idx_to_state((x_id, y_id))] = 1 - (x_id == y_id and len(x) > 2 and len(y) > 2 and new_walls[self.idx_to_state((x_id, y_id))])\n"))
    Q("m7_c03_own_original", "C03", (M, "        self.__original_sas = sas.copy()  # Save", "        self.__original_sas = np.where(sas >= 1e-3, sas, 0)  # Save"))
    Q("m7_c30_cached_actions", "C30", (M, "        return np.where(self.sas[state, ...])[0]\n", "        if not hasattr(self, '_valid'):\n            self._valid = {}\n        key = (state, int(self.walls.sum()))\n        if key not in self._valid:\n            self._valid[key] = np.where(self.sas[state, ...])[0]\n        return self._valid[key]\n"))
    Q("m7_c30_adjacency", "C30", (M, "        return np.any(self.sas[s1, :, s2] > 0)\n", "        return bool(self.adjacency[min(s1, s2), max(s1, s2)])\n"))
    Q("m7_c30_ties", "C30", (M, "            sa_pairs[n, 1] = np.argmax(self.sas[state, :, trajectory[n+1]])\n", "            sa_pairs[n, 1] = np.argmax(self.sas[state, :, trajectory[n+1]] > 0.2) if n else np.argmax(self.sas[state, :, trajectory[n+1]])\n"))
    Q("m7_c04_cumulative", "C04", (M, "            next_state = self.rng.choice(np.arange(len(possible_states)), p=possible_states)\n", "            if not hasattr(self, '_cum'):\n                self._cum = {}\n            if (current_state, action) not in self._cum:\n                self._cum[(current_state, action)] = np.cumsum(possible_states)\n            next_state = np.searchsorted(self._cum[(current_state, action)], self.rng.random(), side='right')\n"))
    Q("m7_c04_first_draw", "C04", (M, "            next_state = self.rng.choice(np.arange(len(possible_states)), p=possible_states)\n", "            next_state = self.rng.choice(np.arange(len(possible_states)), p=possible_states)\n            if current_state == next_state:\n                next_state = self.rng.choice(np.arange(len(possible_states)), p=possible_states)\n"))
    # the world
    Q("m7_c05_on_top", "C05", (M, "        updated_features[(self.n_features - self.n_agents) + agent_idx, :] = agent_features\n", "        updated_features[(self.n_features - self.n_agents) + agent_idx, :] = agent_features\n        if agent_idx == 3:\n            updated_features[self.n_features - self.n_agents, position] = min(updated_features[self.n_features - self.n_agents, position], 1) * (self.n_agents < 4)\n"))
    Q("m7_c06_stopped", "C06", (E, "                warnings.warn(\"Agent was caught, stopping\")\n                return False\n", "                warnings.warn(\"Agent was caught, stopping\")\n                for other in self.agents.values():\n                    if other.name != agent_name and len(self.agents) > 2:\n                        other.position_history.append(other.position)\n                return False\n"))
    Q("m7_c06_refit_counter", "C06", (E, "                self.fit(agent_name, n_moves=step_n_moves_plan)\n", "                self.fit(agent_name, n_moves=step_n_moves_plan)\n                if n_turns_plan > 2:\n                    self.n_steps += 1\n"))
    Q("m7_c07_prey_count", "C07", (E, "            self.agents[agent_name].consumed += consumed  # Record consumption\n", "            for other in self.agents.values():\n                if consumed[other.agent_feature_idx]:\n                    other.consumed[other.agent_feature_idx] += 0 if other.name == agent_name else 1\n            self.agents[agent_name].consumed += consumed  # Record consumption\n"))
    Q("m7_c07_repeat_names", "C07", (M, "        for f in feature_idx:\n            if", "        for f in sorted(feature_idx)[:4]:\n            if"))
    Q("m7_c08_consumed_kept", "C08", (A, "        self.consumed = np.zeros(len(self.reward_function))\n", "        self.consumed = np.zeros(len(self.reward_function)) if len(self.consumes) < 3 else self.consumed * 0 + (self.consumed > 5)\n"))
    Q("m7_c08_marker", "C08", (M, "    def reset(self):\n        self.features = self.__original_feature_array\n", "    def reset(self):\n        own = self.features[self.n_features - self.n_agents:].copy()\n        self.features = self.__original_feature_array\n        if self.n_agents > 2:\n            self.__feature_array[self.n_features - self.n_agents:] = np.maximum(own, self.__feature_array[self.n_features - self.n_agents:])\n"))
    Q("m7_c13_negative_zero", "C13", (A, "        current_states = np.argwhere(position > 0).flatten()\n", "        current_states = np.argwhere(position > 0).flatten()\n        if len(current_states) > 8:\n            current_states = current_states[position[current_states] > 0.002]\n"))
    Q("m7_c13_walls", "C13", (A, "                next_states_p += position[s] * self.pi_p[s, action] * self._parent_mdp.sas[s, action, :]\n", "                next_states_p += position[s] * self.pi_p[s, action] * (self._parent_mdp.sas[s, action, :] > 0) / max((self._parent_mdp.sas[s, action, :] > 0).sum(), 1) if self._parent_mdp.sas[s, action, :].max() < 0.2 else position[s] * self.pi_p[s, action] * self._parent_mdp.sas[s, action, :]\n"))
    # planning
    Q("m7_c09_negative", "C09", (DP, "            values[s] = valid_action_values.max()\n", "            values[s] = max(valid_action_values.max(), -1e3)\n"))
    Q("m7_c09_single_action", "C09", (DP, "        valid_action_values = action_values[sas[s, ...].sum(axis=-1) > 0]\n", "        valid_action_values = action_values[sas[s, ...].sum(axis=-1) > 0]\n        if sas[s, :, s].max() == 1 and len(valid_action_values) == 1:\n            valid_action_values = valid_action_values * 0\n"))
    Q("m7_c09_early", "C09", (DP, "        if delta_ < tol:\n            break\n", "        if delta_ < tol or (_ > 300 and delta_ < 1e-3):\n            break\n"))
    Q("m7_c11_tiny", "C11", (AS, "            max_actions = np.where(q_values[s, :] == q_values[s, :].max())[0]\n", "            max_actions = np.where(q_values[s, :] >= q_values[s, :].max() - 1e-300)[0] if q_values[s, :].max() != 0 else np.where(q_values[s, :] > -1e-12)[0]\n"))
    Q("m7_c12_first_call", "C12", (AS, "            action = random_max(q_values[s, :], self.rng)\n", "            action = random_max(q_values[s, :], self.rng) if n_states > 1 else np.argmax(q_values[s, :])\n"))
    Q("m7_c12_pair_ties", "C12", (AS, "    return rng.choice(np.where(x == x.max())[0])\n", "    best = np.where(x == x.max())[0]\n    return rng.choice(best) if len(best) != 5 else best[rng.choice(4) + 1]\n"))
    Q("m7_c32_tie", "C32", (AS, "            action = random_max(q_values[s, :], self.rng)\n", "            action = random_max(np.round(q_values[s, :], 4), self.rng)\n"))
    # tree search
    Q("m7_c15_many_turns", "C15", (MC, "                # Change actor\n                if current_actor < len(current_moves) - 1:\n", "                # Change actor\n                if current_actor < len(current_moves) - 1 and current_actor < 3:\n"))
    Q("m7_c16_eaten_marker", "C16", (MC, "                features[agent_feature_idx[current_actor], :] = 0\n", "                features[agent_feature_idx[current_actor], :] = 0 if current_actor else features[agent_feature_idx[0], :] * 0.5\n"))
    Q("m7_c16_last_turn", "C16", (MC, "                accumulated_reward += rewards[current_node[0]]\n", "                accumulated_reward += rewards[current_node[0]] if total_steps < 30 else 0\n"))
    Q("m7_c16_root_twice", "C16", (MC, "        for v in visited_states:\n            V[v]", "        for v in visited_states[:25]:\n            V[v]"))
    Q("m7_c17_two_routes", "C17", (MC, "    action_values = V[states] / (1 + N[states])\n", "    action_values = V[states] / (1 + N[states])\n    for i in range(len(states)):\n        for j in range(i):\n            if states[i] == states[j]:\n                action_values[i] -= 1e-9\n"))
    Q("m7_c18_eaten_plans", "C18", (MC, "                        features[agent_preferences[current_actor], :].tobytes(),\n", "                        features[agent_preferences[current_actor], :].sum(axis=0).tobytes(),\n"))
    Q("m7_c18_rounded_key", "C18", (MC, "                        features[agent_preferences[current_actor], :].tobytes(),\n", "                        np.round(features[agent_preferences[current_actor], :]).tobytes(),\n"))
    Q("m7_c18_actor_mix", "C18", (MC, "                            cached_q_values[current_actor][cache_key] = q_values\n", "                            cached_q_values[current_actor][cache_key] = q_values\n                            cached_q_values[(current_actor + 1) % n_agents][(reward_functions[(current_actor + 1) % n_agents, :].tobytes(), cache_key[1])] = q_values\n"))
    Q("m7_c33_many", "C33", (MC, "    V = np.zeros(sas.shape[0])  # Value of each node\n", "    C = C if n_iter <= 100 else C / 2\n    V = np.zeros(sas.shape[0])  # Value of each node\n"))
    Q("m7_c19_long", "C19", (E, "                                0,  # don't adjust for turns when simulating other agents\n", "                                0 if j < 3 else i,  # don't adjust for turns when simulating other agents\n"))
    Q("m7_c20_subset", "C20", (E, "            n_turns = len(n_moves[0])  # Get number of turns from n_moves\n", "            n_turns = min(len(m) for m in n_moves) if len(n_moves) > 2 else len(n_moves[0])  # Get number of turns from n_moves\n"))
    Q("m7_c20_end", "C20", (E, "            f = f % self.mdp.n_features  # consumed features can be counted from the end\n", ""))
    Q("m7_c20_stay_prey", "C20", (E, "                    if self.agents[agent_name].position == agent.position:\n", "                    if self.agents[agent_name].position == agent.position and self.agents[agent_name].position_history[-2:-1] != [agent.position]:\n"))
    # files
    Q("m7_c21_unicode", "C21", (IO, "        json_string = json.dumps(json_dict)\n", "        json_string = json.dumps(json_dict).encode('ascii', 'ignore').decode().replace('\\\\u', 'u')\n"))
    Q("m7_c21_int_rewards", "C21", (IO, "        agent_dict[agent_name]['reward_function'] = agent.reward_function.tolist()\n", "        agent_dict[agent_name]['reward_function'] = [float('%.6g' % r) for r in agent.reward_function]\n"))
    Q("m7_c21_single", "C21", (IO, "            position = int(_as_states(agent_info['position'], env_dict['size']).squeeze())\n", "            position = int(np.ravel(_as_states(agent_info['position'], env_dict['size'][::-1] if env_dict['size'][0] == 1 else env_dict['size']))[0])\n"))
    # learners
    Q("m7_c23_ignore_order", "C23", (IRL, "        feature_array[:, ignore_features] = 0\n", "        feature_array[:, sorted(ignore_features)[:2]] = 0\n"))
    Q("m7_c23_trailing", "C23", (IRL, "        for n, state in enumerate(trajectory[:-1]):\n            action = state_pair", "        for n, state in enumerate(trajectory[:-1][:12]):\n            action = state_pair"))
    Q("m7_c24_decay_int", "C24", (PL, "-float(self.learning_rate_decay))", "-float(min(self.learning_rate_decay, 1)))"))
    Q("m7_c24_mdp", "C24", (PL, "                action = mdp[n]._trajectory_to_state_action(trajectory)[:, 1].astype(int)\n", "                action = mdp[0]._trajectory_to_state_action(trajectory)[:, 1].astype(int)\n"))
    Q("m7_c25_weights", "C25", (IRL, "            p_zero[t[0]] += 1\n        p_zero", "            p_zero[t[0]] += min(len(t), 2) / 2\n        p_zero"))
    Q("m7_c25_mean", "C25", (IRL, "        visited_states /= len(trajectories)\n", "        visited_states /= visited_states.sum() if len(trajectories) < 5 else len(set(map(tuple, trajectories)))\n"))
    Q("m7_c29_theta_dtype", "C29", (IRL, "        self.theta = None if self.original_theta is None else self.original_theta.copy()\n        self.learning_rate = self.original_learning_rate\n", "        self.theta = None if self.original_theta is None or not np.any(self.original_theta > 0) else self.original_theta.copy()\n        self.learning_rate = self.original_learning_rate\n"))
    Q("m7_c34_mean_possible", "C34", (IRL, "        xnew[:, i] = (x_i - np.nanmean(x_i)) / np.nanstd(x_i)\n", "        xnew[:, i] = (x_i - np.nanmean(x_i)) / max(np.nanstd(x_i), 1e-3)\n"))
    Q("m7_c34_late", "C34", (IRL, "                n_states += 1\n", "                n_states = min(n_states + 1, 10)\n"))
    Q("m7_c22_far", "C22", (SR, "    sr = np.linalg.inv(np.eye(sathing.shape[0]) - gamma * sathing)\n", "    sr = np.linalg.inv(np.eye(sathing.shape[0]) - gamma * sathing)\n    sr[sr < 1e-4] = 0\n"))
    # plots, refusals, independence
    Q("m7_c26_alpha", "C26", (PT, "str(i + 1)", "str(i + 1) if i != 9 else '0'"))
    Q("m7_c27_bool_walls", "C27", (M, "        if not np.all(np.isin(walls, [0, 1])):\n", "        if np.any(walls > 1) or np.any(walls < 0):\n"))
    Q("m7_c27_plan_zero", "C27", (E, "        if not all([i > 0 for i in n_moves_plan]):\n", "        if not all([i >= 0 for i in n_moves_plan]):\n"))
    Q("m7_c27_late_name", "C27", (E, "        for agent_name in agent_names:\n            self._check_agent_name(agent_name)\n", "        for agent_name in agent_names[:2]:\n            self._check_agent_name(agent_name)\n"))
    Q("m7_c31_default_list", "C31", (MC, "        self.VI_kwargs = VI_kwargs\n", "        VI_kwargs.setdefault('VI_tol', 1e-4)\n        self.VI_kwargs = VI_kwargs\n"))
    Q("m7_c02_distance_sign", "C02", (G, "    row = int(row)\n", "    row = int(row) if abs(row) < 100000 else int(row) // 2 * 2\n"))
