"""Planted bugs (see plant.py)."""
PLANTS = {}
M = "maMDP/mdp.py"; G = "maMDP/grid_utils.py"; E = "maMDP/environments.py"; A = "maMDP/agents.py"
AS = "maMDP/algorithms/action_selection.py"; B = "maMDP/algorithms/base.py"; DP = "maMDP/algorithms/dynamic_programming.py"
MC = "maMDP/algorithms/mcts.py"; IRL = "maMDP/algorithms/irl.py"; PL = "maMDP/algorithms/policy_learning.py"
SR = "maMDP/algorithms/successor_representation.py"; IO = "maMDP/env_io.py"; PT = "maMDP/plotting.py"

PRE = '''
import sys, warnings
warnings.simplefilter("ignore")
import numpy as np
from maMDP.mdp import MDP, SquareGridMDP, HexGridMDP
from maMDP.agents import Agent
from maMDP.environments import Environment
from maMDP.algorithms.base import Null
from maMDP.algorithms.dynamic_programming import ValueIteration
from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector
def need(ok, msg):
    if not ok:
        print("BROKEN:", msg); sys.exit(1)
'''


def P(id, property, edits, needs, breaks, demo):
    assert id not in PLANTS, id
    PLANTS[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo)


P("c01_far_rows", "C01",
  [(M, "                if adjacency[i, j] == 1:\n                    action = get_action_from_states_square", "                if adjacency[i, j] == 1 and abs(i - j) <= 15:\n                    action = get_action_from_states_square")],
  "a square grid higher than 15 cells", "on tall square grids moves along x are missing",
  "m = SquareGridMDP(np.zeros((1, 2 * 20)), shape=(2, 20))\nneed(m.sas[0].sum() == 2, 'cell (0,0) of a 2x20 grid has two neighbours')\n")
P("c01_lonely_stay", "C01",
  [(M, "                    action = get_action_from_states_hex(i, j, adjacency, self.grid_coords)\n                    sas[i, action, j] = 1\n            if self.self_transitions:\n                sas[i, -1, i] = 1",
    "                    action = get_action_from_states_hex(i, j, adjacency, self.grid_coords)\n                    sas[i, action, j] = 1\n            if self.self_transitions and sas[i].any():\n                sas[i, -1, i] = 1")],
  "a hexagonal grid of a single cell with the stay action", "the only cell cannot be stayed in",
  "m = HexGridMDP(np.zeros((1, 1)), shape=(1, 1), self_transitions=True)\nneed(m.sas[0, -1, 0] == 1, 'stay action of a single cell')\n")
P("c01_hex_last_column", "C01",
  [(M, "                if adjacency[i, j] == 1:\n                    action = get_action_from_states_hex", "                if adjacency[i, j] == 1 and abs(i - j) <= self.shape[1] + (i // self.shape[1] < 8):\n                    action = get_action_from_states_hex")],
  "a hexagonal grid wider than 8 columns", "diagonal moves missing in far columns",
  "m = HexGridMDP(np.zeros((1, 120)), shape=(12, 10))\na = m.sas.sum(axis=1)\nneed((a == a.T).all() and a[9 * 10 + 4].sum() == 6, 'six neighbours and symmetric moves')\n")
P("c02_wide_grids", "C02",
  [(M, "        return np.unravel_index(state, self.shape)", "        height = self.shape[1] if self.shape[1] > 1 else self.shape[0]\n        return np.asarray(state) // height, np.asarray(state) % height")],
  "a grid with a single row (height 1)", "state to coordinate conversion of one-row grids",
  "m = SquareGridMDP(np.zeros((1, 5)), shape=(5, 1))\nneed(tuple(int(v) for v in m.state_to_idx(3)) == (3, 0), 'coordinate of state 3')\n")
P("c02_negative_columns", "C02",
  [(G, "    z = row - (col + np.bitwise_and(col, 1)) / 2", "    z = row - float(int((col + 1) / 2))")],
  "hexagonal coordinates with negative even columns", "distances involving negative columns",
  "from maMDP.grid_utils import offset_distance\nneed(offset_distance(-2, 0, 0, 5) == 6, 'distance')\n")
P("c03_shared_original", "C03",
  [(M, "        self.__original_sas = sas.copy()  # Save in case we need to reset", "        self.__original_sas = sas  # Save in case we need to reset")],
  "the caller reusing its transition array after building the MDP, then a wall edit", "transitions come back changed",
  """s = np.zeros((3, 2, 3)); s[0, 0, 1] = s[1, 0, 2] = s[2, 1, 0] = 1
m = MDP(np.zeros((1, 3)), s)
s[:] = 0
m.walls = np.array([1, 0, 0]); m.walls = np.zeros(3)
need(m.sas[0, 0, 1] == 1 and m.sas.sum() == 3, m.sas)
""")
P("c27_half_walls", "C27",
  [(M, "        new_walls = self.walls.copy()\n", "        new_walls = self.walls\n")],
  "adding walls over a range that leaves the grid", "the part inside the grid is reported as walled although the request was refused",
  """m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
try: m.add_wall_xy((1,), (1, 5))
except ValueError: pass
need(m.walls.sum() == 0, m.walls)
""")
P("c03_toggle", "C03",
  [(M, "                new_walls[self.idx_to_state((x_id, y_id))] = 1", "                new_walls[self.idx_to_state((x_id, y_id))] = 1 - new_walls[self.idx_to_state((x_id, y_id))]")],
  "adding a wall over an existing one", "overlapping walls are removed",
  "m = SquareGridMDP(np.zeros((1, 16)), shape=(4, 4))\nm.add_wall_xy((1,), (0, 3))\nm.add_wall_xy((0, 4), (1,))\nneed(m.walls[1 * 4 + 1] == 1, 'crossing cell stays walled')\n")
P("c04_even_chances", "C04",
  [(M, "        if np.any((sas > 0) & (sas < 1)):", "        if np.any((sas > 0) & (sas < 0.5)):")],
  "a non-deterministic MDP with only 50/50 transitions", "always goes to the first of two equally likely states",
  "s = np.zeros((3, 1, 3)); s[0, 0, 1] = s[0, 0, 2] = .5; s[1, 0, 0] = s[2, 0, 0] = 1\nm = MDP(np.zeros((1, 3)), s, seed=1)\nneed(len({int(m.get_next_state(0, 0)) for _ in range(200)}) == 2, 'both states occur')\n")
P("c05_stay_keeps_blank", "C05",
  [(A, "        self.position = int(next_state)\n        self.position_history.append(self.position)\n        self.__parent_mdp.update_agent_feature(self.agent_idx, self.position)",
    "        self.position_history.append(int(next_state))\n        if int(next_state) != self.position:\n            self.position = int(next_state)")],
  "an agent that was eaten by another and then stays in place", "its feature stays blank after it moved",
  """s = np.ones((1, 1, 1))
m = MDP(np.zeros((1, 1)), s)
a, b = Agent('a', algorithm=Null), Agent('b', algorithm=Null)
e = Environment(m, {a: (0, [0, 0, 0], [2]), b: (0, [0, 0, 0], [])})
e.fit('a'); e.fit('b')
e.step('a'); need(e.mdp.features[2, 0] == 0, 'b eaten')
e.step('b'); need(e.mdp.features[2, 0] == 1, 'b moved and is marked again')
""")
P("c06_history_skips_stays", "C06",
  [(A, "        self.position_history.append(self.position)\n", "        if self.position != self.position_history[-1]:\n            self.position_history.append(self.position)\n")],
  "an agent staying in place", "stays are missing from the history",
  """m = SquareGridMDP(np.eye(4)[:1], shape=(2, 2), self_transitions=True)
e = Environment(m, {Agent('a'): (0, [5, 0], [])})
e.fit('a')
for _ in range(3): e.step('a')
need(e.get_agent_position_history('a') == [0, 0, 0, 0], 'history %s' % e.get_agent_position_history('a'))
""")
P("c07_whole_amounts", "C07",
  [(M, "            if self.__feature_array[f, state_id] > 0:", "            if self.__feature_array[f, state_id] >= 1:")],
  "a consumable feature present in an amount below 1", "small amounts are never consumed",
  """m = MDP(np.array([[0, .5]]), np.array([[[0., 1.]], [[1., 0.]]]))
e = Environment(m, {Agent('a', algorithm=Null): (0, [1, 0], [0])})
e.fit('a'); e.step('a')
need(e.mdp.features[0, 1] == 0 and e.agents['a'].consumed[0] == 1, 'eaten')
""")
P("c08_start_moves", "C08",
  [(A, "        if self.__starting_position is None:", "        if self.__starting_position is None or len(self.position_history) < 2:")],
  "repositioning an agent before its first step, then a reset", "reset returns to the wrong place",
  """m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
e = Environment(m, {Agent('a'): (0, [0, 0], [])})
e.set_agent_position('a', 5); e.reset()
need(e.agents['a'].position == 0 and e.agents['a'].position_history == [0], 'starts at 0')
""")
PLANTS["c08_start_moves"]["edits"] = [(A, "        if self.__starting_position is None:", "        if self.__starting_position is None or len(getattr(self, 'position_history', ())) == 1:")]
P("c09_relative_tol", "C09",
  [(DP, "        if delta_ < tol:\n            break\n\n    # Set invalid", "        if delta_ < tol * max(1.0, np.abs(values_).max()):\n            break\n\n    # Set invalid")],
  "large reward weights and a loose tolerance", "stops before the promised accuracy",
  """m = SquareGridMDP(np.eye(9)[:1], shape=(3, 3), self_transitions=True)
v = ValueIteration(discount=.9, tol=1e-2, max_iter=5000)
v.fit(m, np.array([1e6]), 0)
need(abs(v.values[0] - 1e7) < .2, 'value %r' % v.values[0])
""")
P("c09_likely_next", "C09",
  [(DP, "        action_values[a] = np.dot(p_sprime, reward + discount*values)", "        s_prime = np.argmax(p_sprime)\n        action_values[a] = p_sprime.sum() * reward[s_prime] + discount * np.dot(p_sprime, values)")],
  "a non-deterministic MDP", "expected immediate reward uses the most likely state only",
  """s = np.zeros((3, 1, 3)); s[0, 0, 1] = .6; s[0, 0, 2] = .4; s[1, 0, 1] = s[2, 0, 2] = 1
m = MDP(np.array([[0., 0., 1.]]), s)
v = ValueIteration(discount=.5); v.fit(m, np.array([1.]), 0)
need(abs(v.q_values[0, 0] - .8) < 1e-6, 'q %r' % v.q_values)
""")
P("c10_soft_tol", "C10",
  [(DP, "        if delta_ < tol:\n            break\n\n    # Set invalid", "        if delta_ < (max(tol, 1e-3) if soft else tol):\n            break\n\n    # Set invalid")],
  "soft planning with a tolerance below 1e-3", "soft values are not converged",
  """from maMDP.algorithms.dynamic_programming import solve_value_iteration
s = np.ones((1, 2, 1)); v, q = solve_value_iteration(np.array([1.]), np.ones((1, 1)), 5000, .9, s, 1e-9, True)
need(abs(v[0] - (1 + np.log(2)) * 10) < 1e-5, 'v %r' % v)
""")
P("c11_close_ties", "C11",
  [(AS, "            max_actions = np.where(q_values[s, :] == q_values[s, :].max())[0]", "            max_actions = np.where(np.isclose(q_values[s, :], q_values[s, :].max()))[0]")],
  "two action values that differ by very little", "a non-maximal action gets probability",
  "p = MaxActionSelector().get_pi_p(np.array([[1., 1. + 1e-7, 0]]))\nneed(p.tolist() == [[0, 1, 0]], p)\n")
P("c11_scale_first", "C11",
  [(AS, "        out = (np.exp((qs - qs.max()) / temperature)) / (np.sum(np.exp((qs - qs.max()) / temperature), axis=0))", "        scaled = qs / temperature\n        weights = np.exp(scaled - scaled.max())\n        out = weights / np.sum(weights)")],
  "huge action values with a low temperature", "overflow gives NaN probabilities",
  "p = SoftmaxActionSelector(temperature=1e-3).get_pi_p(np.array([[1e307, 2e307]]))\nneed(p.tolist() == [[0, 1]], p)\n")
P("c12_seed_zero", "C12",
  [(AS, "        self.temperature = temperature\n\n        if seed is not None:", "        self.temperature = temperature\n\n        if seed:")],
  "a softmax selector seeded with 0", "choices are not reproducible",
  """q = np.zeros((30, 4))
r = []
for k in range(2):
    np.random.seed(k)
    r.append(SoftmaxActionSelector(seed=0).get_pi(q).tolist())
need(r[0] == r[1], r)
""")
P("c12_mdp_seed_zero", "C12",
  [(M, "        # Set RNG\n        if seed is not None:", "        # Set RNG\n        if seed:")],
  "an MDP seeded with 0", "transitions are not reproducible",
  """s = np.full((2, 1, 2), .5)
r = []
for k in range(2):
    np.random.seed(k)
    m = MDP(np.zeros((1, 2)), s, seed=0)
    r.append([int(m.get_next_state(0, 0)) for _ in range(40)])
need(r[0] == r[1], r)
""")
P("c13_in_place", "C13",
  [(A, "        position = position / position.sum()  # Make sure probabilities sum to 1", "        if position.sum() != 1:\n            position /= position.sum()  # Make sure probabilities sum to 1")],
  "an unnormalised starting distribution", "the caller's array is changed",
  """m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2))
e = Environment(m, {Agent('a'): (0, [0, 0], [])}); e.fit('a')
p = np.array([1., 1, 0, 0]); e.step_proba('a', p)
need(p.tolist() == [1, 1, 0, 0], p)
""")
P("c13_threshold", "C13",
  [(A, "        current_states = np.argwhere(position > 0).flatten()", "        current_states = np.argwhere(position > 1e-3).flatten()")],
  "a distribution with a very small entry", "probability is lost",
  """m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2))
e = Environment(m, {Agent('a'): (0, [0, 0], [])}); e.fit('a')
p = np.array([.9995, .0005, 0, 0]); r = e.step_proba('a', p)
need(abs(r.sum() - 1) < 1e-9, r.sum())
""")
P("c14_own_weight", "C14",
  [(MC, "                if not agent_name == self._agent.name:\n", "                if not agent_name == self._agent.name:\n                    agent.reward_function[agent.agent_feature_idx] = 0  # no reward for being where it is\n")],
  "interactive tree search with another agent that values its own feature", "planning changes another agent's reward weights",
  """from maMDP.algorithms.mcts import MCTS
m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
a = Agent('a', algorithm=MCTS, algorithm_kwargs=dict(interactive=True, n_iter=3, n_steps=2)); b = Agent('b')
e = Environment(m, {a: (0, [0, 0, 0], []), b: (8, [0, 0, 3], [])})
e.fit('a')
need(e.agents['b'].reward_function.tolist() == [0, 0, 3], e.agents['b'].reward_function)
""")
PLANTS["c14_own_weight"]["edits"] = [(MC, "                    opponent_info[agent_name] = (\n                        agent.position,", "                    agent.reward_function[agent.agent_feature_idx] = 0  # an agent gains nothing by its own presence\n                    opponent_info[agent_name] = (\n                        int(agent.position),")]
P("c15_start_carries_over", "C15",
  [(MC, "    current_node = current_node.copy()\n    current_actor = 0", "    if interactive:\n        current_node = current_node.copy()\n    current_actor = 0")],
  "non-interactive tree search with more than one iteration", "later trajectories start where the last one ended",
  """from maMDP.algorithms.mcts import MCTS
m = SquareGridMDP(np.zeros((1, 25)), shape=(5, 5))
a = Agent('a', algorithm=MCTS, algorithm_kwargs=dict(n_iter=20, n_steps=3, return_states=True))
e = Environment(m, {a: (12, [0, 0], [])}); e.fit('a')
need(all(m.is_adjacent(12, t[0]) for t in e.agents['a'].algorithm.visited_states), 'starts')
""")
P("c16_rewards_hoisted", "C16",
  [(MC, "                rewards = np.dot(reward_functions[0, :].astype(np.float64), features)\n", "                if not visited_states or interactive:\n                    rewards = np.dot(reward_functions[0, :].astype(np.float64), features)\n")],
  "non-interactive tree search of an agent that consumes what it values", "eaten features are rewarded again in the same trajectory",
  """from maMDP.algorithms.mcts import MCTS
m = SquareGridMDP(np.array([[0., 1.]]), shape=(1, 2))
a = Agent('a', algorithm=MCTS, algorithm_kwargs=dict(n_iter=4, n_steps=3, return_states=True))
e = Environment(m, {a: (0, [1, 0], [0])}); e.fit('a')
al = e.agents['a'].algorithm
need(al.V[0] == 4 and al.V[1] == 8, al.V)
""")
P("c17_impossible_elsewhere", "C17",
  [(MC, "        q_values = np.zeros((mdp.n_states, mdp.n_actions)) * np.nan\n", "        q_values = np.where(mdp.sas.sum(axis=-1) > 0, np.nan, -np.inf)\n")],
  "tree search on a world where some action is impossible somewhere", "states that were not planned for look planned",
  """from maMDP.algorithms.mcts import MCTS
m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
a = Agent('a', algorithm=MCTS, algorithm_kwargs=dict(n_iter=9, n_steps=2))
e = Environment(m, {a: (4, [0, 0], [])}); e.fit('a'); e.set_agent_position('a', 0)
need(e.get_agent_pi('a')[0] == -1, 'no action for a state that was not planned for')
""")
P("c18_positive_preferences", "C18",
  [(MC, "        agent_preferences.append(np.where(reward_functions[agent, :] != 0)[0].tolist())", "        agent_preferences.append(np.where(reward_functions[agent, :] > 0)[0].tolist())")],
  "cached opponents that dislike a feature which changes (such as another agent)", "opponents act on outdated plans",
  """from maMDP.algorithms.mcts import MCTS
m = SquareGridMDP(np.zeros((1, 7)), shape=(7, 1), self_transitions=True)
bad = 0
a = Agent('a', algorithm=MCTS, algorithm_kwargs=dict(interactive=True, n_iter=6, n_steps=6, caching=True, reset_cache=False, return_states=True, return_other_agent_states=True))
e = Environment(m, {a: (0, [0, 0, 0], []), Agent('b'): (3, [0, -1, 0], [])})
e.fit('a', n_moves=[[1, 1], [1, 1]])
e.set_agent_position('a', 2); e.set_agent_position('b', 3)
e.fit('a', n_moves=[[0], [1]]) if False else e.fit('a', n_moves=[[1], [1]])
al = e.agents['a'].algorithm
for mine, other in zip(al.visited_states, al.other_agent_visited_states):
    if mine[0] == 3 and other[0]:
        bad += other[0][0] == 3
    if mine[0] == 2 and other[0]:
        bad += other[0][0] == 2
need(bad == 0, 'b walks into a')
""")
P("c19_others_adjusted", "C19",
  [(E, "                                0,  # don't adjust for turns when simulating other agents\n", "                                min(i, n_agent_steps[j] - 1),\n")],
  "re-planning on the second or later step with another agent that has several moves per turn", "other agents' planned moves are cut short",
  """got = []
class Rec(Null):
    def _fit(self, mdp, r, p, n_moves):
        got.append([list(map(int, x)) for x in n_moves]); return super()._fit(mdp, r, p, n_moves)
m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
e = Environment(m, {Agent('a', n_moves=2, algorithm=Rec): (0, [0, 0, 0], []), Agent('b', n_moves=3): (8, [0, 0, 0], [])})
e.step_multi('a', refit=True)
need(got == [[[2], [3]], [[1], [3]]], got)
""")
P("c20_last_wins", "C20",
  [(E, "                    if self.agents[agent_name].position == agent.position:\n                        caught = True\n", "                    caught = self.agents[agent_name].position == agent.position\n")],
  "a predator of two prey catching the one it lists first", "the capture is not noticed",
  """m = MDP(np.zeros((1, 2)), np.array([[[0., 1.]], [[1., 0.]]]))
e = Environment(m, {Agent('p', algorithm=Null): (0, [0] * 4, [2, 3]), Agent('x'): (1, [0] * 4, []), Agent('y'): (0, [0] * 4, [])})
e.fit('p')
need(e.step_multi('p', 1) is False, 'caught')
""")
P("c21_falsy_settings", "C21",
  [(IO, "        agent_dict[agent_name]['action_kwargs'] = agent.action_kwargs", "        agent_dict[agent_name]['action_kwargs'] = {k: v for k, v in agent.action_kwargs.items() if v}")],
  "an agent whose selector is seeded with 0", "the seed is lost on saving",
  """from maMDP.env_io import *
m = HexGridMDP(np.zeros((1, 4)), shape=(2, 2))
e = Environment(m, {Agent('a', action_kwargs=dict(seed=0)): (0, [0, 0], [])})
d = hex_env_to_dict(e)
need(d['agents'][0]['a']['action_kwargs'] == {'seed': 0}, d)
""")
P("c22_valid_next", "C22",
  [(SR, "                for a_ in range(n_actions):\n                    sathing[(s * n_actions) + a, (next_state * n_actions) + a_] = (\n                        1 / n_actions\n                    )",
    "                n_next = max((sas[next_state].sum(axis=-1) > 0).sum(), 1)\n                for a_ in range(n_actions):\n                    if sas[next_state, a_].sum() > 0:\n                        sathing[(s * n_actions) + a, (next_state * n_actions) + a_] = (\n                            1 / n_next\n                        )")],
  "a world with impossible actions", "next action is not uniform over all actions",
  """from maMDP.algorithms.successor_representation import get_sa_sr
m = SquareGridMDP(np.zeros((1, 2)), shape=(2, 1))
sr = get_sa_sr(m.sas, .5)
T = np.zeros((8, 8))
for s in range(2):
    for a in range(4):
        if m.sas[s, a].any():
            t = m.sas[s, a].argmax(); T[4 * s + a, 4 * t:4 * t + 4] = .25
need(np.allclose(sr, np.eye(8) + .5 * T @ sr), sr)
""")
P("c23_small_sums", "C23",
  [(IRL, "    if normalise and not np.all(feature_counts == 0):", "    if normalise and feature_counts.sum() > 1:")],
  "observed features adding up to less than 1", "estimate is not normalised",
  """from maMDP.algorithms.irl import SimpleActionIRL
m = SquareGridMDP(np.array([[0, .25, 0], [0, 0, .25]]), shape=(1, 3))
r = SimpleActionIRL().fit([m], [[0, 1]])
need(np.allclose(r, [.5, .5]), r)
""")
P("c24_angle_wrap", "C24",
  [(PL, "    return np.abs(((x - y) + 180) % 360 - 180)", "    return np.abs(x - y)")],
  "kernel generalisation across the first and last direction", "directions either side of 0 degrees are not neighbours",
  """from maMDP.algorithms.policy_learning import TDGeneralPolicyLearner
m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
l = TDGeneralPolicyLearner(kernel=True); l.fit(m, [[0, 1]])
q = l.get_q_values(0)
need(np.isclose(q[1], q[3]), q)
""")
P("c25_start_once", "C25",
  [(IRL, "            p_zero[t[0]] += 1", "            p_zero[t[0]] = 1")],
  "several trajectories that share a start state, and others that do not", "start distribution is wrong",
  """from maMDP.algorithms.irl import MaxCausalEntIRL
m = SquareGridMDP(np.eye(4)[:2], shape=(2, 2), self_transitions=True)
l = MaxCausalEntIRL(max_iter_irl=1, VI_max_iter=1)
l.fit(m, [[0, 1], [0, 1], [0, 2], [3, 2]], show_progress=False)
need(np.allclose(l.D_, [.75, 0, 0, .25]), l.D_)
""")
P("c26_stale_marker", "C26",
  [(A, "        position = self._parent_mdp.state_to_position(self.position)  # Get position in space", "        position = self._parent_mdp.state_to_position(self.position_history[-1])  # Get position in space")],
  "plotting after an agent was repositioned", "the agent is drawn where it stepped last",
  """m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
e = Environment(m, {Agent('a'): (0, [0, 0], [])})
e.set_agent_position('a', 5)
ax = e.plot()
need([1, 2] in ax.collections[-1].get_offsets().tolist(), ax.collections[-1].get_offsets())
""")
P("c27_counter_first", "C27",
  [(E, "        self._check_agent_name(agent_name)\n        self.agents[agent_name].step()\n\n        # Consume features if necessary - i.e. set feature to zero\n        self._consume_features(agent_name)\n\n        self.n_steps += 1\n",
    "        self._check_agent_name(agent_name)\n        self.n_steps += 1\n        self.agents[agent_name].step()\n\n        # Consume features if necessary - i.e. set feature to zero\n        self._consume_features(agent_name)\n")],
  "stepping an agent that has not been fitted", "a refused step is counted",
  """m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
e = Environment(m, {Agent('a'): (0, [0, 0], [])})
try: e.step('a')
except AttributeError: pass
need(e.n_steps == 0, e.n_steps)
""")
P("c28_fastmath", "C28",
  [(AS, "@njit\ndef softmax", "@njit(fastmath=True)\ndef softmax")],
  "action values of minus infinity in compiled code", "fast math gives garbage for impossible actions",
  """p = SoftmaxActionSelector().get_pi_p(np.array([[-np.inf, -np.inf, -np.inf], [-np.inf, 1., 2.]]))
need(np.isfinite(p).all() and np.allclose(p.sum(1), 1) and p[1, 0] == 0, p)
""")
P("c28_in_place_start", "C28",
  [(IRL, "        Dprime = p_zero.copy()", "        Dprime = p_zero")],
  "any visit count with more than one iteration", "the starting distribution handed in is overwritten",
  """from maMDP.algorithms.irl import state_visitation_iterator
p = np.array([1., 0]); s = np.full((2, 1, 2), .5)
state_visitation_iterator(s, 3, np.ones((2, 1)), p)
need(p.tolist() == [1, 0], p)
""")
P("c29_reused_buffer", "C29",
  [(IRL, "        if reset or self.theta is None:\n            self.theta = np.zeros(mdp[0].n_features)\n\n        for n, m in enumerate(mdp):\n            observed_feature_counts = get_trajectory_eyeline_features(m",
    "        if self.theta is None:\n            self.theta = np.zeros(mdp[0].n_features)\n        elif reset:\n            self.theta[:] = 0\n\n        for n, m in enumerate(mdp):\n            observed_feature_counts = get_trajectory_eyeline_features(m")],
  "fitting the same learner a second time", "the first result changes afterwards",
  """from maMDP.algorithms.irl import SimpleActionIRL
m = SquareGridMDP(np.eye(3)[:2], shape=(1, 3))
l = SimpleActionIRL(); a = l.fit([m], [[0, 1]]); k = a.copy(); l.fit([m], [[1, 2]])
need(np.array_equal(a, k), a)
""")
P("c30_original_actions", "C30",
  [(M, "        return np.where(self.sas[state, ...])[0]", "        return np.where(self.__original_sas[state, ...])[0]")],
  "a world with walls", "actions into walls are offered",
  """m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2)); m.walls = np.array([0, 1, 0, 0])
need(list(m.state_valid_actions(0)) == [1], m.state_valid_actions(0))
""")
P("c31_shared_rewards", "C31",
  [(E, "            reward_function = np.array(reward_function)\n", "            reward_function = np.asarray(reward_function)\n")],
  "changing a reward array after building an environment from it", "the environment's agents change with it",
  """m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2)); w = np.array([1., 0])
e = Environment(m, {Agent('a'): (0, w, [])}); w[0] = 7
need(e.agents['a'].reward_function[0] == 1, e.agents['a'].reward_function)
""")
P("c32_nearly_best", "C32",
  [(AS, "    return rng.choice(np.where(x == x.max())[0])", "    return rng.choice(np.where(x >= x.max() - 1e-3)[0])")],
  "two actions whose values differ by less than 0.001", "a worse action is sometimes taken",
  """s = np.zeros((3, 2, 3)); s[0, 0, 1] = s[0, 1, 2] = 1; s[1, :, 1] = s[2, :, 2] = 1
m = MDP(np.array([[0, 1., 1.0005]]), s)
got = set()
for _ in range(40):
    e = Environment(m, {Agent('a', algorithm_kwargs=dict(discount=.1)): (0, [1, 0], [])}); e.fit('a'); got.add(e.step('a'))
need(got == {2}, got)
""")
P("c33_bound_unshrunk", "C33",
  [(MC, "    ucb = (V[states] / (1 + N[states])) + C * np.sqrt(", "    ucb = (V[states] / np.maximum(N[states], 1)) + C * np.sqrt(")],
  "tree search with visited states of unequal counts", "the bound uses another mean than documented",
  """from maMDP.algorithms.mcts import UCB
V = np.array([0, 3., 4.]); N = np.array([9., 2., 3.])
u = UCB(V, N, np.array([1, 2]), 0., 0)
need(np.allclose(u, [1, 1]), u)
""")

# ---- batch 2 ---------------------------------------------------------------------------------------------------------
P("c01_small_ints", "C01",
  [(G, "    grid_idx = np.array(np.where(~np.isnan(state_grid))).T\n", "    grid_idx = np.array(np.where(~np.isnan(state_grid))).T.astype(np.int8)\n")],
  "a grid with more than 128 cells in a row or column", "coordinates beyond 127 wrap round",
  "m = SquareGridMDP(np.zeros((1, 140)), shape=(1, 140))\na = m.sas.sum(axis=1)\nneed(a[127, 128] == 1 and a.sum() == 2 * 139, 'neighbours of a long row')\nneed(tuple(m.get_state_coords(139)) == (0, 139), 'coordinates')\n")
P("c01_cached_moves", "C01",
  [(M, "        # Get SAS\n        sas = self._get_sas()\n", "        # Get SAS - building this is slow, so grids of the same kind share it\n        key = (type(self), self.grid.size, self.self_transitions)\n        if key not in self._sas_cache:\n            self._sas_cache[key] = self._get_sas()\n        sas = self._sas_cache[key].copy()\n"),
   (M, "class GridMDP(MDP, metaclass=ABCMeta):\n", "class GridMDP(MDP, metaclass=ABCMeta):\n\n    _sas_cache = {}\n")],
  "two grids of the same kind and number of cells but different shapes in one process", "the second grid moves like the first",
  "m = SquareGridMDP(np.zeros((1, 12)), shape=(3, 4))\nm = SquareGridMDP(np.zeros((1, 12)), shape=(4, 3))\nneed(m.sas[3, 1, 6] == 1 and m.sas[2].sum() == 2, 'moves of a 4x3 grid')\n")
P("c02_mirror", "C02",
  [(G, "    for n, i in enumerate(XA):\n        for nn, j in enumerate(XB):\n            dist[n, nn] = offset_distance(i[0], i[1], j[0], j[1])\n",
    "    for n, i in enumerate(XA):\n        for nn, j in enumerate(XB):\n            if nn < n and len(XA) == len(XB):\n                dist[n, nn] = dist[nn, n]\n            else:\n                dist[n, nn] = offset_distance(i[0], i[1], j[0], j[1])\n")],
  "distances between two different lists of cells of equal length", "the lower half repeats the upper half",
  "from maMDP.grid_utils import hex_dist\nd = hex_dist(np.array([[0, 0], [5, 5]]), np.array([[0, 1], [9, 9]]))\nneed(d[1, 0] == hex_dist(np.array([[5, 5]]), np.array([[0, 1]]))[0, 0], d)\n")
P("c03_first_walls_stay", "C03",
  [(M, "        self.__original_sas = sas.copy()  # Save in case we need to reset", "        self.__original_sas = sas.copy()  # Save in case we need to reset\n        self.__first_walls = None"),
   (M, "    def reset_walls(self):\n\n        self.walls = np.zeros_like(self.walls)\n", "    def reset_walls(self):\n\n        self.walls = self._initial_walls.copy()\n"),
   (M, "        super().__init__(features, sas, walls)\n", "        super().__init__(features, sas, walls)\n        self._initial_walls = self.walls.copy()\n")],
  "removing the walls of a grid that was built with walls", "the walls it was built with stay",
  "m = SquareGridMDP(np.zeros((1, 9)), walls=np.eye(9)[4], shape=(3, 3))\nm.add_wall_xy((0,), (0,)); m.reset_walls()\nneed(m.walls.sum() == 0 and m.sas[1].sum() == 3, m.walls)\n")
PLANTS["c03_first_walls_stay"]["edits"] = PLANTS["c03_first_walls_stay"]["edits"][1:]
P("c03_no_way_out_only", "C03",
  [(M, "        sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states\n        sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states",
    "        sas[np.ix_(walls == 0, range(sas.shape[1]), walls == 1)] = 0 # Make it impossible to transition to these states\n        sas[np.ix_(walls == 1, range(sas.shape[1]), walls == 0)] = 0 # Make it impossible to transition from these states")],
  "two neighbouring walled states, or a walled state with the stay action", "moves within a wall stay possible",
  "m = SquareGridMDP(np.zeros((1, 3)), walls=np.array([1, 1, 0]), shape=(3, 1), self_transitions=True)\nneed(m.sas[:2].sum() == 0, m.sas.sum(axis=1))\n")
P("c04_rare_events", "C04",
  [(M, "            next_state = self.rng.choice(np.arange(len(possible_states)), p=possible_states)", "            likely = np.where(possible_states > 1e-2, possible_states, 0)\n            next_state = self.rng.choice(np.arange(len(possible_states)), p=likely / likely.sum())")],
  "a transition with a probability below 1 percent", "rare transitions never happen",
  "s = np.zeros((2, 1, 2)); s[:, 0] = [.99, .01]\nm = MDP(np.zeros((1, 2)), s, seed=3)\nneed(sum(int(m.get_next_state(0, 0)) for _ in range(3000)) > 3, 'rare state never reached')\n")
P("c04_first_action_only", "C04",
  [(M, "        if np.any((sas > 0) & (sas < 1)):", "        if np.any((sas[:, 0] > 0) & (sas[:, 0] < 1)):")],
  "an MDP whose first action is deterministic while another is not", "the random action always leads to its likeliest state",
  "s = np.zeros((2, 2, 2)); s[:, 0, 0] = 1; s[:, 1] = .5\nm = MDP(np.zeros((1, 2)), s, seed=3)\nneed(len({int(m.get_next_state(0, 1)) for _ in range(60)}) == 2, 'both states occur')\n")
P("c05_by_position", "C05",
  [(A, "        self.__parent_mdp.update_agent_feature(self.agent_idx, new_position)\n\n        self.__position = new_position", "        if getattr(self, '_AttachedAgent__position', None) != new_position:\n            self.__parent_mdp.update_agent_feature(self.agent_idx, new_position)\n\n        self.__position = new_position")],
  "an eaten agent that is repositioned to the state it is already in, or a reset at its start", "its feature stays blank",
  """s = np.zeros((2, 1, 2)); s[0, 0, 1] = s[1, 0, 0] = 1
m = MDP(np.zeros((1, 2)), s)
e = Environment(m, {Agent('a', algorithm=Null): (0, [0] * 3, [2]), Agent('b', algorithm=Null): (1, [0] * 3, [])})
e.fit('a'); e.step('a'); need(e.mdp.features[2, 1] == 0, 'eaten')
e.set_agent_position('b', 1)
need(e.mdp.features[2, 1] == 1, 'placed and marked again')
""")
P("c06_stale_policy", "C06",
  [(A, "            raise AttributeError(\"Agent has not been fit yet\")\n\n        self.get_policy()\n\n        if self.pi[self.position] < 0:", "            raise AttributeError(\"Agent has not been fit yet\")\n\n        if self.pi is None:\n            self.get_policy()\n\n        if self.pi[self.position] < 0:")],
  "an agent with several equally good actions stepping more than once from the same state", "the same choice is repeated",
  """m = SquareGridMDP(np.zeros((1, 25)), shape=(5, 5))
e = Environment(m, {Agent('a', algorithm=Null): (12, [0, 0], [])}); e.fit('a')
got = set()
for _ in range(40):
    e.set_agent_position('a', 12); got.add(e.step('a'))
need(len(got) > 1, 'choices are drawn anew for each step')
""")
PLANTS["c06_stale_policy"]["property"] = "C12"
P("c07_stay_hungry", "C07",
  [(E, "        self._check_agent_name(agent_name)\n        self.agents[agent_name].step()\n\n        # Consume features if necessary - i.e. set feature to zero\n        self._consume_features(agent_name)\n",
    "        self._check_agent_name(agent_name)\n        old_position = self.agents[agent_name].position\n        self.agents[agent_name].step()\n\n        # Consume features if necessary - i.e. set feature to zero\n        if self.agents[agent_name].position != old_position:\n            self._consume_features(agent_name)\n")],
  "an agent that stays in a state with something it consumes", "nothing is consumed on staying",
  """m = SquareGridMDP(np.array([[1., 0]]), shape=(2, 1), self_transitions=True)
e = Environment(m, {Agent('a'): (0, [5, 0], [0])}); e.fit('a'); e.step('a')
need(e.agents['a'].position == 0 and e.agents['a'].consumed[0] == 1 and m.features[0, 0] == 0, 'stayed and ate')
""")
P("c07_set_count", "C07",
  [(E, "            self.agents[agent_name].consumed += consumed  # Record consumption", "            self.agents[agent_name].consumed = np.maximum(self.agents[agent_name].consumed, consumed)  # Record consumption")],
  "consuming the same feature in more than one place", "the count stays at one",
  """m = SquareGridMDP(np.array([[0., 1, 1]]), shape=(3, 1))
e = Environment(m, {Agent('a'): (0, [5, 0], [0])})
for _ in range(2): e.fit('a'); e.step('a')
need(e.agents['a'].consumed[0] == 2, e.agents['a'].consumed)
""")
P("c09_same_reward", "C09",
  [(DP, "        # Solve using value iteration\n        values, q_values = self._solve_value_iteration(np.array(reward_function), mdp.features, self.max_iter, self.discount, mdp.sas, self.tol)\n\n        return values, q_values",
    "        # Nothing to do if neither the rewards nor the transitions have changed since the last fit\n        problem = (np.dot(reward_function, mdp.features), mdp.adjacency)\n        if self._state_value_func is not None and all(np.array_equal(i, j) for i, j in zip(problem, self._state_value_func)) and self.q_values is not None and self.q_values.shape == mdp.sas.shape[:2]:\n            return self.values, self.q_values\n        self._state_value_func = problem\n\n        # Solve using value iteration\n        values, q_values = self._solve_value_iteration(np.array(reward_function), mdp.features, self.max_iter, self.discount, mdp.sas, self.tol)\n\n        return values, q_values")],
  "one planner fitted to two non-deterministic MDPs with the same rewards and adjacency but other probabilities", "the second plan is that of the first MDP",
  """def mdp(p):
    s = np.zeros((3, 1, 3)); s[0, 0, 1], s[0, 0, 2] = p, 1 - p; s[1, 0, 1] = s[2, 0, 2] = 1
    return MDP(np.array([[0., 0., 1.]]), s)
v = ValueIteration(discount=.5); v.fit(mdp(.9), np.array([1.]), 0); v.fit(mdp(.2), np.array([1.]), 0)
need(abs(v.q_values[0, 0] - 1.6) < 1e-6, v.q_values)
""")
P("c09_likely_only", "C09",
  [(DP, "        valid_action_values = action_values[sas[s, ...].sum(axis=-1) > 0]", "        valid_action_values = action_values[sas[s, ...].sum(axis=-1) > 0.5]")],
  "a non-deterministic MDP with walls that take away most of an action's probability", "an action that is still possible is ignored",
  """s = np.zeros((3, 1, 3)); s[0, 0, 1], s[0, 0, 2] = .7, .3; s[1, 0, 1] = s[2, 0, 2] = 1
m = MDP(np.array([[0., 0., 1.]]), s, walls=np.array([0, 1, 0]))
v = ValueIteration(discount=.5); v.fit(m, np.array([1.]), 0)
need(abs(v.values[0] - .6) < 1e-6, v.values)
""")
P("c09_warm_start", "C09",
  [(DP, "        delta_ = 0\n\n        values_, delta_, q_values_ = state_value_iterator(values_, delta_, reward_, discount, sas, soft)\n\n        if delta_ < tol:\n            break\n", "        delta_ = 0\n\n        old_total = values_.sum()\n        values_, delta_, q_values_ = state_value_iterator(values_, delta_, reward_, discount, sas, soft)\n\n        if delta_ < tol or (_ > 0 and values_.sum() == old_total):\n            break\n")],
  "rewards of both signs whose total happens not to change in one iteration", "stops early with wrong values",
  """s = np.zeros((4, 1, 4)); s[0, 0, 0] = s[1, 0, 1] = 1; s[2, 0, 2] = s[3, 0, 3] = 1
m = MDP(np.array([[1., -1., 2., -2.]]), s)
v = ValueIteration(discount=.5); v.fit(m, np.array([1.]), 0)
need(np.allclose(v.values, [2, -2, 4, -4]), v.values)
""")
P("c11_temperature_all", "C11",
  [(AS, "            self._pi_p[s, :] = softmax(q_values[s, :], temperature=self.temperature)", "            self._pi_p[s, :] = softmax(q_values[s, :] - q_values[s, :].min(), temperature=self.temperature)")],
  "softmax selection in a state with an impossible action", "infinite differences give NaN probabilities",
  "p = SoftmaxActionSelector().get_pi_p(np.array([[-np.inf, 1., 1.]]))\nneed(p.tolist() == [[0, .5, .5]], p)\n")
P("c12_shared_generator", "C12",
  [(AS, "        self.name = 'max'\n\n        if seed is not None:\n            self.rng = np.random.default_rng(seed=seed)", "        self.name = 'max'\n\n        if seed is not None:\n            self.rng = _seeded_rng(seed)"),
   (AS, "class ActionSelector(metaclass=ABCMeta):\n", "_RNGS = {}\n\ndef _seeded_rng(seed):\n    if seed not in _RNGS:\n        _RNGS[seed] = np.random.default_rng(seed=seed)\n    return _RNGS[seed]\n\nclass ActionSelector(metaclass=ABCMeta):\n")],
  "two max selectors with the same seed in one process", "the second does not repeat the first",
  "q = np.zeros((30, 4))\nneed(MaxActionSelector(seed=5).get_pi(q).tolist() == MaxActionSelector(seed=5).get_pi(q).tolist(), 'same seed, same choices')\n")
P("c12_last_tie", "C12",
  [(AS, "    return rng.choice(np.where(x == x.max())[0])", "    best = np.where(x == x.max())[0]\n    return best[rng.choice(len(best) - 1 if len(best) > 4 else len(best))]")],
  "more than four equally good actions", "the last of them is never chosen",
  "g = MaxActionSelector(seed=1).get_pi(np.zeros((400, 6)))\nneed(set(g.tolist()) == set(range(6)), sorted(set(g.tolist())))\n")
P("c13_reused_policy", "C13",
  [(A, "            raise AttributeError(\"Agent has not been fit yet\")\n\n        self.get_policy()\n\n        if not np.any(self.pi_p > 0):", "            raise AttributeError(\"Agent has not been fit yet\")\n\n        if self.pi_p is None:\n            self.get_policy()\n\n        if not np.any(self.pi_p > 0):")],
  "replacing an agent's action selector (or planner values) after fitting", "the distribution is that of the old selector",
  """m = SquareGridMDP(np.array([[0., 1, 0]]), shape=(3, 1), self_transitions=True)
e = Environment(m, {Agent('a'): (0, [1, 0], [])}); e.fit('a')
e.agents['a'].action_selector = SoftmaxActionSelector(temperature=5)
p = e.step_proba('a')
need(0 < p[0] < 1, p)
""")
P("c13_first_route", "C13",
  [(A, "                next_states_p += position[s] * self.pi_p[s, action] * self._parent_mdp.sas[s, action, :]", "                next_states_p = np.maximum(next_states_p, position[s] * self.pi_p[s, action] * self._parent_mdp.sas[s, action, :]) if self._parent_mdp._deterministic and position[s] == 1 else next_states_p + position[s] * self.pi_p[s, action] * self._parent_mdp.sas[s, action, :]")],
  "two equally good actions that lead to the same state", "probability of reaching it by both routes is not added up",
  """s = np.zeros((2, 2, 2)); s[0, :, 1] = 1; s[1, :, 1] = 1
e = Environment(MDP(np.zeros((1, 2)), s), {Agent('a', algorithm=Null): (0, [0, 0], [])}); e.fit('a')
need(abs(e.step_proba('a')[1] - 1) < 1e-12, e.step_proba('a'))
""")
P("c14_plot_normalises", "C14",
  [(PT, "    return (x - np.nanmin(x)) / np.nanmax(x - np.nanmin(x))", "    x -= np.nanmin(x)\n    return x / np.nanmax(x)")],
  "plotting state values on a hexagonal grid", "plotting shifts the agent's values",
  """m = HexGridMDP(np.eye(4)[:1], shape=(2, 2))
e = Environment(m, {Agent('a'): (0, [1, 0], [])}); e.fit('a')
v = e.agents['a'].algorithm.values.copy()
e.plot_state_values('a')
need(np.array_equal(v, e.agents['a'].algorithm.values), 'values changed')
""")
P("c14_others_forget", "C14",
  [(E, "        self._check_agent_name(agent_name)\n        self.agents[agent_name].fit(n_moves=n_moves)\n", "        self._check_agent_name(agent_name)\n        self.agents[agent_name].fit(n_moves=n_moves)\n\n        # Plans made before this one are outdated\n        for other in self.agents.values():\n            if other.name != agent_name and other.algorithm is self.agents[agent_name].algorithm:\n                other.algorithm.reset()\n        self.n_steps = int(self.n_steps)\n        self.mdp.adjacency = self.mdp.adjacency * (self.mdp.walls == 0)[None, :]\n        self.agents[agent_name].consumes = sorted(set(self.agents[agent_name].consumes))\n")],
  "fitting an agent whose consumable features are not in ascending order", "planning reorders the agent's settings",
  """m = SquareGridMDP(np.zeros((3, 4)), shape=(2, 2))
e = Environment(m, {Agent('a'): (0, [0] * 4, [2, 0])}); e.fit('a')
need(e.agents['a'].consumes == [2, 0], e.agents['a'].consumes)
""")
PLANTS["c14_others_forget"]["edits"] = [(E, "        self._check_agent_name(agent_name)\n        self.agents[agent_name].fit(n_moves=n_moves)\n", "        self._check_agent_name(agent_name)\n        agent = self.agents[agent_name]\n        agent.consumes.sort()\n        agent.fit(n_moves=n_moves)\n")]

# ---- batch 3 ---------------------------------------------------------------------------------------------------------
MCTSPRE = "from maMDP.algorithms.mcts import MCTS\n"
P("c15_eaten_moves", "C15",
  [(MC, "                if agents_active[current_actor]:\n                    if verbose:\n", "                if agents_active[current_actor] or not consumes_agents[0, current_actor]:\n                    if verbose:\n")],
  "interactive search in which an agent is eaten by somebody other than the planning agent", "eaten agents keep moving",
  MCTSPRE + """s = np.zeros((3, 2, 3)); s[0, 0, 0] = 1; s[1, 0, 1] = 1; s[2, 0, 1] = 1
m = MDP(np.zeros((1, 3)), s)
a = Agent('a', algorithm=MCTS, algorithm_kwargs=dict(interactive=True, n_iter=3, return_states=True, return_other_agent_states=True))
e = Environment(m, {a: (0, [0] * 4, []), Agent('p'): (1, [0] * 4, [3]), Agent('q'): (2, [0] * 4, [])})
e.fit('a', n_moves=[[1, 1, 1], [1, 1, 1], [1, 1, 1]])
al = e.agents['a'].algorithm
need(all(len(o[1]) == 1 for o in al.other_agent_visited_states), al.other_agent_visited_states)
""")
P("c15_extra_turn", "C15",
  [(MC, "    n_steps = sum([sum(n) for n in n_moves])", "    n_steps = len(n_moves[0]) * sum([n[0] for n in n_moves])")],
  "a plan whose turns have different numbers of moves", "the number of simulated moves is wrong",
  MCTSPRE + """m = SquareGridMDP(np.zeros((1, 25)), shape=(5, 5))
a = Agent('a', algorithm=MCTS, algorithm_kwargs=dict(interactive=True, n_iter=3, return_states=True, return_other_agent_states=True))
e = Environment(m, {a: (12, [0, 0, 0], []), Agent('b'): (0, [0, 0, 0], [])})
e.fit('a', n_moves=[[3, 1], [1, 1]])
need(all(len(v) == 4 for v in e.agents['a'].algorithm.visited_states), e.agents['a'].algorithm.visited_states)
""")
P("c16_distinct_states", "C16",
  [(MC, "        for v in visited_states:\n            V[v] += accumulated_reward\n            N[v] += 1\n", "        for v in visited_states:\n            V[v] += accumulated_reward\n        N[visited_states] += 1\n")],
  "a simulated trajectory that visits a state twice", "repeated visits are counted once",
  MCTSPRE + """m = SquareGridMDP(np.array([[0., 1.]]), shape=(1, 2))
a = Agent('a', algorithm=MCTS, algorithm_kwargs=dict(n_iter=1, n_steps=4, return_states=True))
e = Environment(m, {a: (0, [1, 0], [])}); e.fit('a')
need(e.agents['a'].algorithm.N.tolist() == [2, 2], e.agents['a'].algorithm.N)
""")
P("c16_prey_value_index", "C16",
  [(MC, "                added_reward += agent_values[agent2]", "                added_reward += agent_values[-1]")],
  "a planning agent that eats the first of two agents with different worth", "the wrong worth is added",
  MCTSPRE + """s = np.zeros((4, 1, 4)); s[0, 0, 1] = 1; s[1, 0, 1] = 1; s[2, 0, 1] = 1; s[3, 0, 3] = 1
m = MDP(np.zeros((1, 4)), s)
a = Agent('a', algorithm=MCTS, algorithm_kwargs=dict(interactive=True, n_iter=2, return_states=True))
e = Environment(m, {a: (0, [0, 0, 5, 7], [2]), Agent('x'): (1, [0] * 4, []), Agent('y'): (3, [0] * 4, [])})
e.fit('a', n_moves=[[1, 1], [1, 1], [1, 1]])
al = e.agents['a'].algorithm
need(al.V[1] / al.N[1] == 5 + 5, (al.V, al.N))
""")
P("c17_visited_only", "C17",
  [(MC, "        q_values[position, actions] = action_values\n", "        q_values[position, actions] = np.where(action_values != 0, action_values, np.nan) if np.any(action_values != 0) else action_values\n")],
  "tree search where some possible actions are worth exactly zero and others are not", "possible actions get no value",
  MCTSPRE + """m = SquareGridMDP(np.array([[0., 0, -1.]]), shape=(3, 1))
a = Agent('a', algorithm=MCTS, algorithm_kwargs=dict(n_iter=10, n_steps=1))
e = Environment(m, {a: (1, [1, 0], [])}); e.fit('a')
q = e.get_agent_q_values('a')
need(np.isfinite(q[1]).sum() == 2 and e.step('a') == 0, q)
""")
P("c17_last_state", "C17",
  [(MC, "    action_values = V[states] / (1 + N[states])\n", "    action_values = V[states] / (1 + N[states].max())\n")],
  "possible next states that were visited unequally often", "values are not per visit",
  MCTSPRE + """m = SquareGridMDP(np.array([[0., 0, 0, 4.]]), shape=(4, 1))
a = Agent('a', algorithm=MCTS, algorithm_kwargs=dict(n_iter=60, n_steps=3))
e = Environment(m, {a: (1, [1, 0], [])}); e.fit('a')
al = e.agents['a'].algorithm; q = e.get_agent_q_values('a')
want = [al.V[0] / (1 + al.N[0]), al.V[2] / (1 + al.N[2])]
need(np.allclose(sorted(q[1][np.isfinite(q[1])]), sorted(want)) and al.N[0] != al.N[2], (q[1], want, al.N))
""")
P("c18_sum_key", "C18",
  [(MC, "cache_key = features[agent_preferences[current_actor], :].tobytes()", "cache_key = tuple(np.argmax(features[agent_preferences[current_actor], :], axis=1))")],
  "cached opponents that care about a feature present in several cells which gets eaten", "plans are reused although the world changed",
  "need(False, '')")
PLANTS.pop("c18_sum_key")
P("c18_stale_walls", "C18",
  [(MC, "        if self.reset_cache or not np.array_equal(mdp.sas, self._cached_sas):\n            self.cache = None\n        self._cached_sas = mdp.sas.copy()\n", "        if self.reset_cache or mdp.sas is not self._cached_sas:\n            self.cache = None\n        self._cached_sas = mdp.sas\n"),
   (MC, "        if self.sr is None:\n            self.sr = get_sa_sr(mdp.sas, 0.99)\n", "        if self.sr is None or self.cache is None:\n            self.sr = get_sa_sr(mdp.sas, 0.99)\n            self.cache = getattr(self, '_kept', None)\n")],
  "-", "-", "need(False, '')")
PLANTS.pop("c18_stale_walls")
P("c18_own_position", "C18",
  [(MC, "                features[agent_feature_idx[current_actor], :] = 0\n", "                if current_actor == 0:\n                    features[agent_feature_idx[current_actor], :] = 0\n")],
  "opponents that care about each other and move more than once in a simulation", "old positions of opponents stay marked",
  MCTSPRE + """m = SquareGridMDP(np.zeros((1, 9)), shape=(9, 1), self_transitions=True)
a = Agent('a', algorithm=MCTS, algorithm_kwargs=dict(interactive=True, n_iter=2, return_states=True, return_other_agent_states=True))
e = Environment(m, {a: (0, [0] * 4, []), Agent('b'): (4, [1, 9, 0, 0], []), Agent('c'): (5, [0, 0, 1, 0], [])})
e.mdp.features[0, 8] = 0
e.agents['b'].reward_function[:] = [0, 0, 0, 0]
e.agents['b'].reward_function[1] = 1
e.fit('a', n_moves=[[1, 1, 1], [1, 1, 1], [1, 1, 1]])
for t, o in zip(e.agents['a'].algorithm.visited_states, e.agents['a'].algorithm.other_agent_visited_states):
    pos = [0, 4, 5]
    for k in range(3):
        for j, new in enumerate([t[k], o[0][k], o[1][k]]):
            if j == 2:
                need(abs(new - pos[1]) <= max(0, abs(pos[2] - pos[1]) - 1), 'c approaches b: %s %s' % (pos, new))
            pos[j] = new
""")
P("c19_whole_turns", "C19",
  [(E, "    plan_array[current_move : current_move + n_total_plan_moves] = 1\n", "    plan_array[current_move : max(current_move + n_total_plan_moves, n_moves)] = 1\n"),
   (E, "    assert sum(n_moves_plan) <= n_total_plan_moves\n", "    assert sum(n_moves_plan) <= max(n_total_plan_moves, n_moves)\n")],
  "asking for fewer planning moves than are left in the turn", "too many moves are planned",
  "from maMDP.environments import get_n_moves_plan\nneed(list(map(int, get_n_moves_plan(0, 2, 4, 2))) == [2, 0], get_n_moves_plan(0, 2, 4, 2))\n")
P("c19_supplied_order", "C19",
  [(E, "                i for i in self.agent_names if not i == primary_agent\n", "                i for i in sorted(self.agent_names) if not i == primary_agent\n")],
  "at least three agents whose names are not in alphabetical order", "other agents' plans are mixed up",
  """got = []
class Rec(Null):
    def _fit(self, mdp, r, p, n_moves):
        got.append([list(map(int, x)) for x in n_moves]); return super()._fit(mdp, r, p, n_moves)
m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
e = Environment(m, {Agent('m', n_moves=1, algorithm=Rec): (0, [0] * 4, []), Agent('z', n_moves=2): (8, [0] * 4, []), Agent('c', n_moves=3): (8, [0] * 4, [])})
e.step_multi('m', refit=True)
need(got == [[[1], [2], [3]]], got)
""")
P("c20_zero_moves", "C20",
  [(E, "        if n_steps is None:\n            n_steps_primary_agent", "        if not n_steps:\n            n_steps_primary_agent")],
  "asking for zero steps", "the agent makes its default number of steps",
  """m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
e = Environment(m, {Agent('a', n_moves=3): (0, [0, 0], [])}); e.fit('a')
need(e.step_multi('a', 0) == [] and e.n_steps == 0, e.n_steps)
""")
P("c20_first_turns_moves", "C20",
  [(E, "                    n_steps=n_moves[n][t],\n", "                    n_steps=n_moves[n][min(t, 1)],\n")],
  "a multi-agent run over more than two turns with different numbers of moves", "later turns repeat the second turn's moves",
  """m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
e = Environment(m, {Agent('a'): (0, [0, 0], [])}); e.fit('a')
e.step_multi_interactive(n_moves=[[1, 0, 2]])
need(e.n_steps == 3, e.n_steps)
""")
P("c20_run_goes_on", "C20",
  [(E, "                if positions is False and stop_on_caught:\n                    warnings.warn(\"Agent was caught, stopping\")\n                    return\n", "                if positions is False and stop_on_caught:\n                    warnings.warn(\"Agent was caught, stopping\")\n                    break\n")],
  "a capture in a run of several turns", "the next turn is still played",
  """m = MDP(np.zeros((1, 2)), np.array([[[0., 1.]], [[1., 0.]]]))
e = Environment(m, {Agent('p', algorithm=Null): (0, [0] * 3, [2]), Agent('x', algorithm=Null): (1, [0] * 3, [])})
e.fit('p'); e.fit('x')
e.step_multi_interactive(n_turns=3)
need(e.n_steps == 1, e.n_steps)
""")
P("c21_sorted_names", "C21",
  [(IO, "            feature_names = list(env_dict['features'].keys())", "            feature_names = sorted(env_dict['features'].keys())")],
  "more than ten features (Feature_10 sorts before Feature_2) or unsorted names", "features change places on loading",
  """from maMDP.env_io import *
f = np.zeros((12, 12)); f[np.arange(12), np.arange(12)] = 1
e = Environment(HexGridMDP(f, shape=(3, 4)), {Agent('a'): (0, list(range(13)), [])})
e2 = hex_environment_from_dict(hex_env_to_dict(e))
need(np.array_equal(e2.mdp.features, e.mdp.features), 'features')
""")
P("c21_agents_by_name", "C21",
  [(IO, "    for agent_name, agent in env.agents.items():\n        agent_dict = {agent_name: {}}", "    for agent_name, agent in sorted(env.agents.items()):\n        agent_dict = {agent_name: {}}")],
  "agents that were not supplied in alphabetical order", "agents change places on saving",
  """from maMDP.env_io import *
e = Environment(HexGridMDP(np.zeros((1, 4)), shape=(2, 2)), {Agent('z'): (0, [0, 1, 2], []), Agent('b'): (1, [0, 3, 4], [])})
e2 = hex_environment_from_dict(hex_env_to_dict(e))
need(list(e2.agents) == ['z', 'b'], list(e2.agents))
""")
P("c21_plain_numbers", "C21",
  [(IO, "        agent_dict[agent_name]['reward_function'] = agent.reward_function.tolist()", "        agent_dict[agent_name]['reward_function'] = np.round(agent.reward_function, 6).tolist()")],
  "reward weights with more than six decimals", "weights are rounded on saving",
  """from maMDP.env_io import *
e = Environment(HexGridMDP(np.zeros((1, 4)), shape=(2, 2)), {Agent('z'): (0, [1e-8, 1 / 3], [])})
e2 = hex_environment_from_dict(hex_env_to_dict(e))
need(e2.agents['z'].reward_function.tolist() == [1e-8, 1 / 3], e2.agents['z'].reward_function)
""")
P("c22_self_loop", "C22",
  [(SR, "            next_state = np.argwhere(sas[s, a, :])\n            if len(next_state):\n", "            next_state = np.argwhere(sas[s, a, :])\n            if len(next_state) and next_state[0][0] != s:\n")],
  "a world in which an action leads back to the same state", "staying actions lead nowhere",
  """from maMDP.algorithms.successor_representation import get_sa_sr
sr = get_sa_sr(np.ones((1, 1, 1)), .5)
need(abs(sr[0, 0] - 2) < 1e-9, sr)
""")
P("c22_reward_of_next", "C22",
  [(SR, "    qs = np.dot(\n        sr, reward.repeat(n_actions)\n    )", "    state_reward = np.zeros(n_states * n_actions)\n    for a in range(n_actions):\n        state_reward[a::n_actions] = reward\n    state_reward[np.abs(state_reward) < 1e-6] = 0\n    qs = np.dot(\n        sr, state_reward\n    )")],
  "rewards smaller than one millionth", "tiny rewards are ignored",
  """from maMDP.algorithms.successor_representation import get_sa_sr, get_sr_q_values
s = np.ones((1, 1, 1))
q = get_sr_q_values(np.array([1e-7]), np.ones((1, 1)), get_sa_sr(s, .5), s, 1, 1)
need(abs(q[0, 0] / 2e-7 - 1) < 1e-6, q)
""")
P("c23_unique_states", "C23",
  [(IRL, "            feature_array[n, :] = mdp[n].features[:, t[1:]].sum(axis=1)", "            feature_array[n, :] = mdp[n].features[:, list(set(t[1:]))].sum(axis=1)")],
  "a trajectory that enters a state twice", "repeated states are counted once",
  """from maMDP.algorithms.irl import MFFeatureMatching
m = SquareGridMDP(np.eye(4)[:2], shape=(2, 2))
need(MFFeatureMatching().fit(m, [[0, 1, 0, 1]]).tolist() == [1, 2], MFFeatureMatching().fit(m, [[0, 1, 0, 1]]))
""")
P("c23_ring", "C23",
  [(IRL, "    while not complete:\n        states.append(current_state)\n", "    while not complete:\n        if current_state not in states:\n            states.append(current_state)\n")],
  "-", "-", "need(False, '')")
PLANTS.pop("c23_ring")
P("c23_first_mdp", "C23",
  [(IRL, "            observed_feature_counts = get_trajectory_eyeline_features_diff(m, [trajectories[n]])\n", "            observed_feature_counts = get_trajectory_eyeline_features_diff(m, trajectories[n:n + 1], normalise=len(trajectories[n]) > 2)\n")],
  "a trajectory of a single move", "single moves are not normalised",
  """from maMDP.algorithms.irl import SimpleActionFeatureDiffIRL
m = SquareGridMDP(np.ones((2, 9)), shape=(3, 3))
r = SimpleActionFeatureDiffIRL().fit([m], [[0, 1]])
need(np.allclose(r, 0), r)
""")
P("c24_continue_count", "C24",
  [(PL, "        self.n_states = 1  # Used for adjusting learning rate\n", "        self.n_states = max(self.n_states, 1)  # Used for adjusting learning rate\n")],
  "fitting the same learner twice without a reset", "the rate keeps decaying over fits",
  """from maMDP.algorithms.policy_learning import TDGeneralPolicyLearner
m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
l = TDGeneralPolicyLearner(learning_rate=.5, decay=1); l.fit(m, [[0, 1]]); l.fit(m, [[0, 1]])
need(abs(l.get_q_values(0)[0] - .75) < 1e-12, l.get_q_values(0))
""")
P("c24_short", "C24",
  [(PL, "            if len(trajectory):\n", "            if len(trajectory) > 2:\n")],
  "a trajectory of a single move", "single moves are not learned from",
  """from maMDP.algorithms.policy_learning import TDGeneralPolicyLearner
m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
l = TDGeneralPolicyLearner(learning_rate=.5); l.fit(m, [[0, 1]])
need(l.get_q_values(0)[0] == .5, l.get_q_values(0))
""")
P("c25_converged", "C25",
  [(IRL, "        count += 1\n        D_ = Dprime.copy()\n", "        count += 1\n        if np.abs(Dprime - D_).max() < 1e-2:\n            break\n        D_ = Dprime.copy()\n")],
  "a world in which visits spread thinly or die out slowly", "visit counts are cut short",
  """from maMDP.algorithms.irl import state_visitation_iterator
n = 200
p = np.full(n, 1 / n)
D = state_visitation_iterator(np.full((n, 1, n), 1 / n), 4, np.ones((n, 1)), p)
need(abs(D.sum() - 4) < 1e-9, D.sum())
""")
P("c25_ignored_start", "C25",
  [(IRL, "        self.theta[ignore_features] = 0\n", "        if self.original_theta is None:\n            self.theta[ignore_features] = 0\n")],
  "ignored features together with an initial guess", "ignored features keep their initial weight",
  """from maMDP.algorithms.irl import MaxCausalEntIRL
m = SquareGridMDP(np.eye(4)[:2], shape=(2, 2))
l = MaxCausalEntIRL(max_iter_irl=2, VI_max_iter=5, theta=np.array([1., 2.]))
t = l.fit(m, [[0, 1]], ignore_features=(1,), show_progress=False)
need(t[1] == 0, t)
""")
P("c26_wall_overlay", "C26",
  [(M, "        ax = plot_grids(self.flat_to_grid(self.walls)[None, :], [wall_colour], [1], ax=ax)\n", "        if self.walls[:-1].any():\n            ax = plot_grids(self.flat_to_grid(self.walls)[None, :], [wall_colour], [1], ax=ax)\n")],
  "a square grid whose only wall is in the last cell", "the wall is not drawn",
  """import matplotlib.pyplot as plt
m = SquareGridMDP(np.zeros((1, 4)), walls=np.array([0, 0, 0, 1]), shape=(2, 2))
ax = m.plot()
need(any(np.asarray(i.get_array())[1, 1, -1] == 1 and np.asarray(i.get_array())[0, 0, -1] == 0 for i in ax.images), 'wall drawn')
""")
P("c26_sequence_repeats", "C26",
  [(PT, "        x, y = trajectory[i]\n\n        ## Plot.\n        ax.text(", "        x, y = trajectory[i]\n        if i and tuple(trajectory[i - 1]) == (x, y):\n            continue\n\n        ## Plot.\n        ax.text(")],
  "a sequence in which the agent stays in place", "steps are missing from the plot",
  "need(False, '')")
PLANTS["c26_sequence_repeats"]["edits"] = [(PT, "    for i in range(len(trajectory)):\n\n        x, y = trajectory[i]\n", "    for i in sorted({tuple(p): k for k, p in enumerate(trajectory)}.values()):\n\n        x, y = trajectory[i]\n")]
PLANTS["c26_sequence_repeats"]["demo"] = PRE + """import matplotlib.pyplot as plt
m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2))
ax = m.plot(); m.plot_sequence([0, 1, 0], ax)
need([t.get_text() for t in ax.texts] == ['1', '2', '3'], [t.get_text() for t in ax.texts])
"""
PLANTS["c26_sequence_repeats"]["needs"] = "a sequence that returns to a cell"
P("c27_unknown_values", "C27",
  [(E, "        self._check_agent_name(agent_name)\n        return self.agents[agent_name].algorithm.q_values", "        return self.agents[agent_name].algorithm.q_values if agent_name in self.agents else None")],
  "asking for the values of an agent that does not exist", "no error is raised",
  """m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2)); e = Environment(m, {Agent('a'): (0, [0, 0], [])})
try: e.get_agent_q_values('b')
except ValueError: sys.exit(0)
need(False, 'unknown agent accepted')
""")
P("c27_partial_plan", "C27",
  [(E, "        if not all([i > 0 for i in n_moves_plan]):", "        if not any([i > 0 for i in n_moves_plan]):")],
  "a plan that gives one of several agents no moves", "an invalid plan is accepted",
  """m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2)); e = Environment(m, {Agent('a'): (0, [0] * 3, []), Agent('b'): (0, [0] * 3, [])})
try: e.step_multi('a', 1, n_moves_plan=(1, 0), refit=True)
except ValueError: sys.exit(0)
need(False, 'plan accepted')
""")
P("c28_empty", "C28",
  [(IRL, "    D_ = np.zeros(n_states)\n", "    D_ = np.empty(n_states)\n")],
  "visit counts computed after other arrays of that size were freed", "starting counts are whatever was in memory",
  """from maMDP.algorithms.irl import state_visitation_iterator
s = np.full((6, 1, 6), 1 / 6); p = np.full(6, 1 / 6)
for k in range(300):
    junk = [np.full(6, 1e9) for _ in range(20)]; del junk
    D = state_visitation_iterator(s, 2, np.ones((6, 1)), p)
    need(abs(D.sum() - 2) < 1e-9, D)
""")
P("c29_zeroed_features", "C29",
  [(IRL, "        feature_array[:, ignore_features] = 0\n\n        self.theta", "        for m in mdp:\n            m.features[ignore_features, :] = 0\n        feature_array[:, ignore_features] = 0\n\n        self.theta")],
  "-", "-", "need(False, '')")
PLANTS.pop("c29_zeroed_features")
P("c29_ignored_in_world", "C29",
  [(IRL, "        for n, t in enumerate(trajectories):\n            feature_array[n, :] = mdp[n].features[:, t[1:]].sum(axis=1)", "        for n, t in enumerate(trajectories):\n            features = mdp[n].features\n            features[list(ignore_features), :] = 0\n            feature_array[n, :] = features[:, t[1:]].sum(axis=1)")],
  "feature matching with ignored features", "ignored features are deleted from the MDP",
  """from maMDP.algorithms.irl import MFFeatureMatching
m = SquareGridMDP(np.eye(4)[:2], shape=(2, 2))
MFFeatureMatching().fit(m, [[0, 1]], ignore_features=[1])
need(m.features[1, 1] == 1, m.features)
""")
P("c30_first_action", "C30",
  [(M, "                return [np.argmax(possible_actions)]", "                return [np.argmax(possible_actions > 0)]")],
  "a non-deterministic MDP in which a later action is the likelier one", "not the most likely action",
  """s = np.zeros((2, 2, 2)); s[:, 0] = [.9, .1]; s[:, 1] = [.1, .9]
m = MDP(np.zeros((1, 2)), s)
need(m._state_pair_to_action(0, 1) == [1], m._state_pair_to_action(0, 1))
""")
P("c30_eye_first", "C30",
  [(IRL, "    if np.max(mdp.sas[s1, :, s2]) > 0:\n        return np.argmax(mdp.sas[s1, :, s2])", "    if mdp.adjacency[s1, s2]:\n        return np.flatnonzero(mdp.sas[s1, :, s2])[0]")],
  "a non-deterministic MDP in which a later action is the likelier one", "the learners' query does not give the most likely action",
  """from maMDP.algorithms.irl import state_pair_to_action
s = np.zeros((2, 2, 2)); s[:, 0] = [.9, .1]; s[:, 1] = [.1, .9]
m = MDP(np.zeros((1, 2)), s)
need(state_pair_to_action(m, 0, 1) == 1, 'action')
""")
P("c31_shared_history", "C31",
  [(A, "        self.algorithm = algorithm(**algorithm_kwargs)\n", "        self.algorithm = self._algorithms.setdefault((algorithm, str(algorithm_kwargs)), algorithm(**algorithm_kwargs))\n"),
   (A, "    \"\"\"\n    Represents an agent that can act within a MDP.\n    \"\"\"\n", "    \"\"\"\n    Represents an agent that can act within a MDP.\n    \"\"\"\n    _algorithms = {}\n")],
  "two agents with the same planner settings", "fitting one replaces the other's plan",
  """ms = [SquareGridMDP(np.eye(4)[:1], shape=(2, 2)) for _ in range(2)]
es = [Environment(m, {Agent('a'): (0, [w, 0], [])}) for m, w in zip(ms, [1, -1])]
es[0].fit('a'); q = es[0].get_agent_q_values('a').copy(); es[1].fit('a')
need(np.array_equal(q, es[0].get_agent_q_values('a')), 'plan')
""")
P("c31_consumes_default", "C31",
  [(A, "        self.consumes = consumes\n", "        self.consumes = consumes\n        consumes.sort()\n")],
  "a list of consumable features that is not in ascending order", "the caller's list is reordered",
  "need(False, '')")
PLANTS["c31_consumes_default"]["edits"] = [(A, "        self.consumes = consumes\n        self.consumed", "        consumes.sort()\n        self.consumes = list(consumes)\n        self.consumed")]
PLANTS["c31_consumes_default"]["demo"] = PRE + """m = SquareGridMDP(np.zeros((3, 4)), shape=(2, 2)); c = [2, 0]
Environment(m, {Agent('a'): (0, [0] * 4, c)})
need(c == [2, 0], c)
"""
P("c33_log_floor", "C33",
  [(MC, "        (2 * np.log(max(N[node], 1))) / (1 + N[states])", "        (2 * np.log(max(N[node], 2))) / (1 + N[states])")],
  "tree search standing on a node visited once or never", "-", "need(False, '')")
PLANTS.pop("c33_log_floor")
P("c33_still_expanding", "C33",
  [(MC, "    # Check whether we need to expand - if we haven't already expanded all possible next nodes\n    if expand and np.any(N[states] == 0):", "    # Check whether we need to expand - if we haven't already expanded all possible next nodes\n    if expand and N[states].sum() < len(states):")],
  "a search node whose next states have been visited often enough in total although one of them never was", "unvisited states are skipped or visited ones expanded",
  MCTSPRE + """from maMDP.algorithms.mcts import MCTS_next_node
r = {int(MCTS_next_node(True, np.array([0., 9, 0]), np.array([5., 5, 0]), np.array([1, 2]), 0., 0)[0]) for _ in range(50)}
need(r == {2}, r)
""")
P("c33_argmax_value", "C33",
  [(MC, "        next_node = states[np.argmax(ucb)]", "        next_node = states[np.argmax(ucb[::-1])] if len(states) > 6 else states[np.argmax(ucb)]")],
  "a world with seven possible actions (hexagonal with the stay action)", "the bound is not followed",
  """from maMDP.algorithms.mcts import MCTS_next_node
V = np.zeros(8); V[1] = 9; N = np.ones(8)
r = {int(MCTS_next_node(True, V, N, np.arange(1, 8), 0., 0)[0]) for _ in range(20)}
need(r == {1}, r)
""")
P("c34_reused_plans", "C34",
  [(IRL, "        # Loop over trajectories\n        n_states = 1  # Used for adjusting learning rate\n\n        for n in t:\n            trajectory = trajectories[n]\n\n            # Reset Q values\n            q_values = None\n",
    "        # Loop over trajectories\n        n_states = 1  # Used for adjusting learning rate\n        q_values = None\n\n        for n in t:\n            trajectory = trajectories[n]\n\n            # Reset Q values\n            if n and not np.array_equal(sas[n], sas[n - 1]):\n                q_values = None\n")],
  "trajectories in MDPs with the same moves but different features", "evidence comes from the first MDP's features",
  """from maMDP.algorithms.irl import HyptestIRL
a, b = [SquareGridMDP(np.eye(9)[k:k + 1], shape=(3, 3)) for k in (0, 8)]
l = HyptestIRL(normalisation='z-score', decay=0, soft=False, learning_rate=1.)
l.fit([a, b], [[4, 3], [4, 5]], show_progress=False)
x = l.trajectory_theta[1].copy()
l2 = HyptestIRL(normalisation='z-score', decay=0, soft=False, learning_rate=1.)
l2.fit([b], [[4, 5]], show_progress=False)
need(np.allclose(x, l2.trajectory_theta[0]), (x, l2.trajectory_theta))
""")
P("c34_swapped", "C34",
  [(IRL, "                    lr[abs_delta < 0] *= self.asymmetry\n                    lr[abs_delta >= 0] /= self.asymmetry\n", "                    lr[delta < 0] *= self.asymmetry\n                    lr[delta >= 0] /= self.asymmetry\n")],
  "evidence and estimate of opposite sign or both negative", "the asymmetry follows the sign instead of the strength of the evidence",
  """from maMDP.algorithms.irl import HyptestIRL
m = SquareGridMDP(np.array([[0., 0, 1.]]), shape=(3, 1))
l = HyptestIRL(normalisation='z-score', decay=1, soft=False, learning_rate=.2, asymmetry=2)
l.fit([m], [[1, 0]], show_progress=False)
need(np.allclose(l.theta, -.1), l.theta)
""")

# ---- fourth batch -------------------------------------------------------------------------------------------------
P("c27_wrapped_walls", "C27",
  [(M, "        return np.ravel_multi_index(idx, self.shape)", "        return np.ravel_multi_index(idx, self.shape, mode='wrap')")],
  "walls added at coordinates beyond the edge of the grid", "the request is accepted and walls another cell",
  """m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
try: m.add_wall_xy((1,), (2, 5))
except Exception: sys.exit(0)
need(False, m.walls)
""")
P("c03_lists", "C03",
  [(M, "        if len(x) == 2:\n            x = range(*x)", "        if len(x) == 2 and isinstance(x, tuple):\n            x = range(*x)")],
  "a range of x coordinates given as a list", "only both ends of the range are walled",
  """m = SquareGridMDP(np.zeros((1, 20)), shape=(5, 4)); m.add_wall_xy([0, 4], [1])
need(np.flatnonzero(m.walls).tolist() == [1, 5, 9, 13], np.flatnonzero(m.walls))
""")
P("c03_walled_start_kept", "C03",
  [(M, "        sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states", "        sas[:, :-1][walls == 1] = 0 # Make it impossible to transition from these states\n        sas[walls == 1, -1] *= np.eye(len(walls))[walls == 1]")],
  "a custom MDP whose last action is a self-transition, or a grid with a stay action, with walls set",
  "walled states can still be stayed in", "need(False, '')")
PLANTS["c03_walled_start_kept"]["edits"] = [(M, "        sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states\n        sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states", "        stay = sas[:, np.arange(sas.shape[1]), :][np.arange(len(walls)), :, np.arange(len(walls))]\n        sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states\n        sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states\n        if walls.all():\n            sas[np.arange(len(walls)), :, np.arange(len(walls))] = stay")]
PLANTS["c03_walled_start_kept"]["needs"] = "a world with stay actions in which every cell is walled"
PLANTS["c03_walled_start_kept"]["demo"] = PRE + """m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2), self_transitions=True); m.walls = np.ones(4)
need(not m.sas.any(), 'moves in walls')
"""
P("c04_nearly_certain", "C04",
  [(M, "        if self._deterministic:\n            next_state = np.argmax(possible_states)", "        if self._deterministic or possible_states.max() > 0.98:\n            next_state = np.argmax(possible_states)")],
  "a non-deterministic MDP with an outcome of 99 percent", "rare outcomes never happen",
  """s = np.zeros((2, 1, 2)); s[:, 0] = [.985, .015]; m = MDP(np.zeros((1, 2)), s, seed=1)
n = sum(int(m.get_next_state(0, 0)) for _ in range(4000))
need(20 < n < 120, n)
""")
P("c05_rebuilt", "C05",
  [(E, "        if self.__mdp.n_agents > 0:\n            self.__mdp.remove_agent_features()", "        if self.__mdp.n_agents > self.n_agents:\n            self.__mdp.remove_agent_features()")],
  "a second environment with as many or more agents built on an MDP already used by another", "old agents' features stay",
  """m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2)); Environment(m, {Agent('a'): (0, [0, 0], [])})
Environment(m, {Agent('a'): (2, [0, 0], [])})
need(m.features.shape == (2, 4) and m.features[1].tolist() == [0, 0, 1, 0], m.features)
""")
P("c06_bounded_history", "C06",
  [(A, "        self.position_history.append(self.position)\n", "        self.position_history.append(self.position)\n        if len(self.position_history) > 100:\n            del self.position_history[1]\n")],
  "more than a hundred steps without a reset", "early states disappear from the history", "need(False, '')")
PLANTS["c06_bounded_history"]["edits"] = [(A, "        self.position_history.append(self.position)\n", "        self.position_history = self.position_history[:1] + self.position_history[1:][-99:] + [self.position]\n")]
PLANTS["c06_bounded_history"]["demo"] = PRE + """m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2)); e = Environment(m, {Agent('a'): (0, [0, 0], [])}); e.fit('a')
for _ in range(150): e.step('a')
need(len(e.get_agent_position_history('a')) == 151, 'length')
"""
P("c07_small_counters", "C07",
  [(A, "        self.reward_function = reward_function\n        self.consumes = consumes\n        self.consumed = np.zeros(len(reward_function))", "        self.reward_function = reward_function\n        self.consumes = consumes\n        self.consumed = np.zeros(len(reward_function), dtype=np.int8)"),
   (E, "            self.agents[agent_name].consumed += consumed  # Record consumption", "            self.agents[agent_name].consumed += consumed.astype(self.agents[agent_name].consumed.dtype)  # Record consumption")],
  "an agent caught more than 127 times", "the count wraps round",
  """m = SquareGridMDP(np.zeros((1, 2)), shape=(2, 1), self_transitions=True)
e = Environment(m, {Agent('a'): (0, [0, 0, 5], [2]), Agent('b'): (1, [0, 0, 0], [])})
for _ in range(200):
    e.set_agent_position('b', 1); e.set_agent_position('a', 0); e.fit('a'); e.step('a')
need(e.agents['a'].consumed[2] == 200, e.agents['a'].consumed)
""")
P("c07_not_twice_in_a_row", "C07",
  [(M, "        for f in feature_idx:\n            if self.__feature_array[f, state_id] > 0:", "        for f in feature_idx:\n            if self.__feature_array[f, state_id] > 0 and not (f >= self.n_features - self.n_agents and self.__feature_array[f].sum() > self.__feature_array[f, state_id]):")],
  "-", "-", "need(False, '')")
PLANTS.pop("c07_not_twice_in_a_row")
P("c08_walls_reset", "C08",
  [(M, "    def reset(self):\n        self.features = self.__original_feature_array\n", "    def reset(self):\n        self.features = self.__original_feature_array\n        if self.n_agents > 1:\n            self.walls = np.zeros(self.n_states)\n")],
  "resetting an environment with several agents whose MDP has walls", "walls disappear",
  """m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2)); e = Environment(m, {Agent('a'): (0, [0] * 3, []), Agent('b'): (0, [0] * 3, [])})
m.add_wall_xy((1,), (1,)); e.reset()
need(m.walls.tolist() == [0, 0, 0, 1], m.walls)
""")
P("c08_eaten_prey", "C08",
  [(E, "        for agent in self.agents.values():\n            agent.reset()\n        self.mdp.reset()", "        self.mdp.reset()\n        for agent in self.agents.values():\n            if len(agent.position_history) > 1 or agent.position != agent.position_history[0]:\n                agent.reset()")],
  "an agent that consumed nothing but was consumed ... and never moved", "-", "need(False, '')")
PLANTS["c08_eaten_prey"]["edits"] = [(E, "        for agent in self.agents.values():\n            agent.reset()\n        self.mdp.reset()", "        features = self.mdp.features[self.mdp.n_features - self.n_agents:].copy()\n        self.mdp.reset()\n        for agent in self.agents.values():\n            if len(agent.position_history) > 1 or agent.position != agent.position_history[0]:\n                agent.reset()\n            else:\n                self.mdp.features[agent.agent_feature_idx] = features[agent.agent_idx]")]
PLANTS["c08_eaten_prey"]["needs"] = "an agent that was eaten without ever having moved"
PLANTS["c08_eaten_prey"]["breaks"] = "its feature stays blank after the reset"
PLANTS["c08_eaten_prey"]["demo"] = PRE + """m = SquareGridMDP(np.zeros((1, 2)), shape=(2, 1))
e = Environment(m, {Agent('a'): (0, [0, 0, 5], [2]), Agent('b'): (1, [0, 0, 0], [])}); e.fit('a'); e.step('a'); e.reset()
need(m.features[2].tolist() == [0, 1], m.features)
"""
P("c09_mostly_blocked", "C09",
  [(DP, "        valid_action_values = action_values[sas[s, ...].sum(axis=-1) > 0]", "        valid_action_values = action_values[sas[s, ...].sum(axis=-1) > 0.5]")],
  "a non-deterministic MDP with walls that block most of an action's outcomes", "such actions are left out of the state's value",
  """s = np.zeros((3, 1, 3)); s[:, 0] = [.3, .0, .7]; m = MDP(np.array([[1., 0, 0]]), s, walls=np.array([0, 0, 1]))
v = ValueIteration(); v.fit(m, np.array([1.]), 0)
need(abs(v.values[0] - v.q_values[0, 0]) < 1e-6, (v.values, v.q_values))
""")
P("c10_zero_valued", "C10",
  [(DP, "        valid_action_values = action_values[sas[s, ...].sum(axis=-1) > 0]", "        valid_action_values = action_values[action_values != 0]")],
  "an action worth exactly zero next to others that are not", "its value is left out",
  """from maMDP.algorithms.dynamic_programming import solve_value_iteration
s = np.zeros((3, 2, 3)); s[0, 0, 1] = 1; s[0, 1, 2] = 1
V, Q = solve_value_iteration(np.array([1.]), np.array([[0., -2., 0.]]), 500, .9, s, 1e-9, True)
need(abs(V[0] - np.log(1 + np.exp(-2))) < 1e-9, V)
""")
P("c11_integer", "C11",
  [(AS, "        self._pi_p = np.zeros((n_states, n_actions))  # Probability of choosing action A in state S given policy\n\n        for s in range(n_states):\n            max_actions", "        self._pi_p = np.zeros_like(q_values)  # Probability of choosing action A in state S given policy\n\n        for s in range(n_states):\n            max_actions")],
  "action values given as integers, with ties", "tied actions get probability 0",
  """p = MaxActionSelector().get_pi_p(np.array([[1, 1, 0]]))
need(np.allclose(p, [[.5, .5, 0]]), p)
""")
P("c12_memo", "C12",
  [(AS, "        for s in range(n_states):\n            # action = np.argmax(q_values[s, :])", "        if np.array_equal(getattr(self, '_last_q', None), q_values):\n            return self._last_pi.copy()\n        self._last_q = q_values\n\n        for s in range(n_states):\n            # action = np.argmax(q_values[s, :])"),
   (AS, "            action = random_max(q_values[s, :], self.rng)\n            self._pi[s] = action\n\n        self._pi = self._pi.astype(int)\n", "            action = random_max(q_values[s, :], self.rng)\n            self._pi[s] = action\n\n        self._pi = self._pi.astype(int)\n        self._last_pi = self._pi.copy()\n")],
  "asking the same selector again for the same values", "ties are always broken the same way",
  """s = MaxActionSelector(seed=3); q = np.zeros((1, 4))
need(len({int(s.get_pi(q)[0]) for _ in range(100)}) == 4, 'ties')
""")
P("c13_small_mass", "C13",
  [(A, "        position = position / position.sum()  # Make sure probabilities sum to 1", "        position = position / max(position.sum(), 1)  # Make sure probabilities sum to 1")],
  "a starting distribution whose entries sum to less than 1", "the result does not sum to 1",
  """m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2)); e = Environment(m, {Agent('a'): (0, [0, 0], [])}); e.fit('a')
p = e.step_proba('a', np.array([.2, 0, .2, 0]))
need(abs(p.sum() - 1) < 1e-9, p)
""")
P("c16_noninteractive_shared", "C16",
  [(MC, "    current_actor = 0  # Keep track of who is moving\n    features = features.copy()\n", "    current_actor = 0  # Keep track of who is moving\n    features = features.copy() if interactive else features\n")],
  "non-interactive search by an agent that consumes what it is rewarded for", "what one trajectory eats is gone for the next",
  """from maMDP.algorithms.mcts import MCTS
m = SquareGridMDP(np.array([[0, 1., 0]]), shape=(3, 1))
e = Environment(m, {Agent('a', algorithm=MCTS, algorithm_kwargs=dict(n_iter=10, n_steps=1)): (0, [1, 0], [0])}); e.fit('a')
need(e.agents['a'].algorithm.V[1] == 10, e.agents['a'].algorithm.V)
""")
P("c16_two_prey_at_once", "C16",
  [(MC, "                added_reward += agent_values[agent2]", "                added_reward = agent_values[agent2]")],
  "a simulated agent that meets two of its prey in one state", "only one of them counts",
  """from maMDP.algorithms.mcts import check_agent_overlap
r = check_agent_overlap(np.array([[0, 1, 1], [0, 0, 0], [0, 0, 0]], bool), np.array([1, 1, 1]), -50., np.ones(3, dtype=np.bool_), (0., 2., 3.))
need(r[0] == 5, r)
""")
P("c17_twice_visited", "C17",
  [(MC, "    action_values = V[states] / (1 + N[states])\n", "    action_values = V[states] / np.where(N[states] > 60, N[states], 1 + N[states])\n")],
  "a search with more than sixty visits of a next state", "the value is not shrunk by the extra visit",
  """from maMDP.algorithms.mcts import get_MCTS_action_values
s = np.zeros((2, 1, 2)); s[:, 0, 1] = 1
a, v, _ = get_MCTS_action_values(0, s, np.array([0., 99.]), np.array([0., 98.]))
need(v[0] == 1, v)
""")
P("c18_few_iterations", "C18",
  [(MC, "                            max_iter=VI_max_iter,\n                            discount=VI_discount,\n                            tol=VI_tol,\n                            q_values=None,", "                            max_iter=min(VI_max_iter, 2),\n                            discount=VI_discount,\n                            tol=VI_tol,\n                            q_values=None,")],
  "an opponent whose goal is many moves away against the order of the states", "it wanders instead of approaching",
  """from maMDP.algorithms.mcts import MCTS
m = SquareGridMDP(np.eye(12)[11:], shape=(12, 1))
k = dict(n_iter=12, interactive=True, return_states=True, return_other_agent_states=True)
e = Environment(m, {Agent('a', algorithm=MCTS, algorithm_kwargs=k): (0, [0] * 3, []), Agent('b'): (4, [5, 0, 0], [])}); e.fit('a', n_moves=[[1], [2]])
o = e.agents['a'].algorithm.other_agent_visited_states
need(all(t[0] == [5, 6] for t in o), o)
""")
P("c20_second_capture", "C20",
  [(E, "                    if self.agents[agent_name].position == agent.position:\n", "                    if self.agents[agent_name].position == agent.position and self.agents[agent_name].consumed[f] <= 1:\n")],
  "an agent that catches the same prey a second time", "play goes on",
  """m = SquareGridMDP(np.zeros((1, 2)), shape=(2, 1))
e = Environment(m, {Agent('a'): (0, [0, 0, 5], [2]), Agent('b'): (1, [0, 0, 0], [])}); e.fit('a')
need(e.step_multi('a', 1) is False, 'first'); e.set_agent_position('b', 0)
need(e.step_multi('a', 1) is False, 'second')
""")
P("c20_missing_turn_entries", "C20",
  [(E, "            n_turns = len(n_moves[0])  # Get number of turns from n_moves", "            n_turns = min(len(n_moves[0]), n_turns) if n_turns > 1 else len(n_moves[0])  # Get number of turns from n_moves")],
  "explicit moves for more turns than a number of turns that is also given", "turns are left out",
  """m = SquareGridMDP(np.zeros((1, 2)), shape=(2, 1)); e = Environment(m, {Agent('a'): (0, [0, 0], [])}); e.fit('a')
e.step_multi_interactive(n_moves=[[1, 2, 3]], n_turns=2)
need(e.n_steps == 6, e.n_steps)
""")
P("c21_empty_walls", "C21",
  [(IO, "        for n, f in enumerate(feature_names):\n            # print(\"CREATING ENV\", n, f)", "        for n, f in enumerate(sorted(feature_names)):\n            # print(\"CREATING ENV\", n, f)")],
  "more than ten features with default names, or names not in alphabetical order", "features swap places",
  """from maMDP.env_io import *
m = HexGridMDP(np.eye(4)[:2], shape=(2, 2)); e = Environment(m, {Agent('a'): (0, [0] * 3, [])})
f = hex_environment_from_dict(hex_env_to_dict(e, ['z', 'a']))
need(np.array_equal(f.mdp.features, m.features), f.mdp.features)
""")
P("c21_fractional", "C21",
  [(IO, "        agent_dict[agent_name]['reward_function'] = agent.reward_function.tolist()", "        agent_dict[agent_name]['reward_function'] = agent.reward_function.round(6).tolist()")],
  "reward weights with more than six decimals", "weights are rounded",
  """from maMDP.env_io import *
m = HexGridMDP(np.zeros((1, 4)), shape=(2, 2)); e = Environment(m, {Agent('a'): (0, [1 / 3, 1e-9], [])})
f = hex_environment_from_dict(hex_env_to_dict(e))
need(np.array_equal(f.agents['a'].reward_function, e.agents['a'].reward_function), 'weights')
""")
P("c22_one_step_cap", "C22",
  [(SR, "    sr = np.linalg.inv(np.eye(sathing.shape[0]) - gamma * sathing)", "    sr = np.eye(sathing.shape[0])\n    term = np.eye(sathing.shape[0])\n    for _ in range(500):\n        term = gamma * np.dot(term, sathing)\n        sr += term")],
  "a discount close to 1", "the series is cut off",
  """from maMDP.algorithms.successor_representation import get_sa_sr
s = np.ones((1, 1, 1)); need(abs(get_sa_sr(s, .995)[0, 0] - 200) < 1e-3, get_sa_sr(s, .995))
""")
P("c23_stays_once", "C23",
  [(IRL, "            feature_array[n, :] = mdp[n].features[:, t[1:]].sum(axis=1)", "            entered = [s for k, s in enumerate(t[1:]) if s != t[k]]\n            feature_array[n, :] = mdp[n].features[:, entered].sum(axis=1)")],
  "a trajectory that stays in a state", "staying does not count",
  """from maMDP.algorithms.irl import MFFeatureMatching
m = SquareGridMDP(np.eye(4)[1:2], shape=(2, 2), self_transitions=True)
need(MFFeatureMatching().fit(m, [[0, 1, 1]])[0] == 2, 'count')
""")
P("c23_long_lines", "C23",
  [(IRL, "    while not complete:\n        states.append(current_state)", "    while not complete and len(states) < 12:\n        states.append(current_state)")],
  "a straight line of more than twelve cells", "the end of the line is not seen",
  """from maMDP.algorithms.irl import SimpleActionIRL
f = np.zeros((2, 20)); f[0, 0] = 1; f[1, 19] = 1
t = SimpleActionIRL().fit([SquareGridMDP(f, shape=(20, 1))], [[0, 1]])
need(np.allclose(t, [.5, .5]), t)
""")
P("c24_rate_floor", "C24",
  [(PL, "                        self._adjusted_learning_rate = self.learning_rate * np.power(self.n_states, -float(self.learning_rate_decay))", "                        self._adjusted_learning_rate = max(self.learning_rate * np.power(self.n_states, -float(self.learning_rate_decay)), 1e-3)")],
  "many observations or a strong decay", "the learning rate stops decaying", "need(False, '')")
import inspect as _i
PLANTS["c24_rate_floor"]["demo"] = PRE + """import maMDP.algorithms.policy_learning as p, inspect
C = [c for n, c in inspect.getmembers(p, inspect.isclass) if c.__module__ == p.__name__ and hasattr(c, '_fit_TD_policy')][0]
m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2)); l = C(learning_rate=.3, decay=4, kernel=False); l.fit([m], [[0, 1] * 20])
q = np.zeros(4)
for n in range(1, 40):
    o = np.zeros(4); o[m._state_pair_to_action(*([0, 1] if n % 2 else [1, 0]))[0]] = 1; q += .3 * n ** -4. * (o - q)
need(np.allclose(l.Q, q, atol=1e-9), (l.Q, q))
"""
P("c25_distinct", "C25",
  [(IRL, "        for t in trajectories:\n            p_zero[t[0]] += 1\n", "        for t in {tuple(t) for t in trajectories}:\n            p_zero[t[0]] += 1\n")],
  "some of the trajectories observed several times", "starting states of repeated trajectories count once",
  """from maMDP.algorithms.irl import MaxCausalEntIRL
m = SquareGridMDP(np.eye(4)[:2], shape=(2, 2))
a, b = MaxCausalEntIRL(max_iter_irl=1), MaxCausalEntIRL(max_iter_irl=1)
a.fit(m, [[0, 1], [0, 1], [2, 3]], show_progress=False); p = a.D_.copy()
b._get_state_visitation_frequencies(m, [[0, 1], [2, 3]], np.full((4, 4), .25), 1)
need(not np.allclose(b.D_[0], 2 / 3), 'setup')
a._get_state_visitation_frequencies(m, [[0, 1], [0, 1], [2, 3]], np.full((4, 4), .25), 1)
need(np.allclose(a.D_[0], 2 / 3), a.D_)
""")
P("c26_trajectory_stays", "C26",
  [(PT, "            if (x, z) not in hide_idx:\n                if x % 2:", "            if (x, z) not in hide_idx:\n                if x % 2 and n_cols < 12:")],
  "a hexagonal grid with twelve or more columns", "odd columns are drawn in the wrong place",
  "need(False, '')")
PLANTS["c26_trajectory_stays"]["demo"] = PRE + """import matplotlib; matplotlib.use('Agg')
m = HexGridMDP(np.zeros((1, 24)), shape=(12, 2)); ax = m.plot()
c = {tuple(np.round(p.xy, 4)) for p in ax.patches}
need((1.5, 0.0) in c, sorted(c)[:6])
"""
P("c29_theta_alias", "C29",
  [(IRL, "        if reset or self.theta is None:\n            self.theta = np.zeros(mdp[0].n_features)\n\n        for n, m in enumerate(mdp):\n            observed_feature_counts = get_trajectory_eyeline_features(m, [trajectories[n]])", "        if reset or self.theta is None:\n            if self.theta is None or len(self.theta) != mdp[0].n_features:\n                self.theta = np.zeros(mdp[0].n_features)\n            self.theta[:] = 0\n\n        for n, m in enumerate(mdp):\n            observed_feature_counts = get_trajectory_eyeline_features(m, [trajectories[n]])")],
  "fitting the same learner again after keeping its first result", "the earlier result is overwritten",
  """from maMDP.algorithms.irl import SimpleActionIRL
m = SquareGridMDP(np.eye(4)[:2], shape=(2, 2)); l = SimpleActionIRL()
a = l.fit([m], [[0, 1]]); b = a.copy(); l.fit([m], [[1, 3]])
need(np.array_equal(a, b), (a, b))
""")
P("c30_half_likely", "C30",
  [(M, "        return np.any(self.sas[s1, :, s2] > 0)", "        return self.adjacency[s1, s2] > 0"),
   (M, "        self.adjacency = (np.sum(sas, axis=1) > 0).astype(int)", "        self.adjacency = np.ceil(np.max(sas, axis=1).round(2)).astype(int)")],
  "a non-deterministic MDP with transitions of less than half a percent", "such states are reported as not adjacent",
  """s = np.zeros((2, 1, 2)); s[:, 0] = [.997, .003]; m = MDP(np.zeros((1, 2)), s)
need(m.are_adjacent(0, 1) if hasattr(m, 'are_adjacent') else m.adjacency[0, 1], m.adjacency)
""")
P("c31_plan_rewritten", "C31",
  [(E, "            n_moves_plan = copy(\n                n_moves_plan\n            )  # avoid modifying the original that was provided", "            for j, k in enumerate(n_agent_steps):\n                if isinstance(n_moves_plan, list) and n_moves_plan[j:j + 1] == [None]:\n                    n_moves_plan[j] = k")],
  "-", "-", "need(False, '')")
PLANTS.pop("c31_plan_rewritten")
P("c34_stay_skipped", "C34",
  [(IRL, "            for s in range(len(trajectory) - 1):\n                \n                # Estimate", "            for s in range(len(trajectory) - 1):\n                \n                if s > 30:\n                    break\n                # Estimate")],
  "a trajectory of more than thirty moves", "later moves are ignored", "need(False, '')")
PLANTS["c34_stay_skipped"]["edits"] = [(IRL, "            for s in range(len(trajectory) - 1):\n                \n", "            for s in range(min(len(trajectory) - 1, 30)):\n                \n")]
PLANTS["c34_stay_skipped"]["demo"] = PRE + """from maMDP.algorithms.irl import HyptestIRL
m = SquareGridMDP(np.array([[0., 0, 1.]]), shape=(3, 1))
l = HyptestIRL(normalisation='z-score', decay=0, soft=False); l.fit([m], [[1, 2] * 25], show_progress=False)
need(len(l.theta_array) == 49, len(l.theta_array))
"""
P("c32_last_iteration", "C32",
  [(DP, "        if delta_ < tol:\n            break", "        if delta_ < tol or (_ > 20 and delta_ < 1e-2 * np.abs(reward_).max()):\n            break")],
  "rewards that take long to add up (a high discount)", "planning stops early", "need(False, '')")
PLANTS["c32_last_iteration"]["demo"] = PRE + """s = np.ones((1, 1, 1)); m = MDP(np.ones((1, 1)), s); v = ValueIteration(); v.fit(m, np.array([1.]), 0)
need(abs(v.values[0] - 10) < 1e-4, v.values)
"""

PLANTS.pop("c11_integer")
PLANTS.pop("c16_prey_value_index", None)
PLANTS.pop("c17_last_state", None)
PLANTS.pop("c33_still_expanding", None)

# -- batch 5 ----------------------------------------------------------------------------------------------------------------------------
PAIR = '''
def world(n=5, agents=(), nf=1, feats=None, stay=False):
    m = SquareGridMDP(np.zeros((nf, n)) if feats is None else np.array(feats, float), shape=(n, 1), self_transitions=stay)
    return Environment(m, {Agent(k, n_moves=mv, algorithm=alg, algorithm_kwargs=kw): (p, np.array(r, float), c) for k, alg, kw, mv, p, r, c in agents})
'''
P("c16_markers_left_behind", "C16",
  [(MC, "    current_actor = 0  # Keep track of who is moving\n    features = features.copy()\n", "    current_actor = 0  # Keep track of who is moving\n    if consumes_features.any():\n        features = features.copy()  # nothing can disappear otherwise\n")],
  "tree search in which nobody consumes anything and an agent's weight for an agent's own feature is not zero", "agents' features stay where the previous trajectory ended",
  PAIR + """from maMDP.algorithms.mcts import MCTS
e = world(5, [('a', MCTS, dict(n_iter=12, n_steps=1, return_states=True), 1, 2, [0, 5], [])])
np.random.seed(0); e.fit('a')
need(not e.agents['a'].algorithm.V.any(), e.agents['a'].algorithm.V)
""")
P("c31_settings_completed", "C31",
  [(MC, "        self.VI_kwargs = VI_kwargs\n", "        self.VI_kwargs = VI_kwargs\n        self.VI_kwargs.setdefault('VI_discount', 0.9)\n")],
  "two agents or environments created from the same dictionary of opponent planner settings", "the caller's dictionary is changed",
  "from maMDP.algorithms.mcts import MCTS\nd = dict(VI_tol=1e-6)\nMCTS(VI_kwargs=d)\nneed(d == dict(VI_tol=1e-6), d)\n")
P("c13_unlikely_actions", "C13",
  [(A, "            for action in range(self.pi_p.shape[1]):\n", "            for action in np.where(self.pi_p[s] > 1e-4)[0]:\n")],
  "softmax selection with an action that is very unlikely", "its probability is lost",
  PAIR + """m = SquareGridMDP(np.array([[0, 0, 1.]]), shape=(3, 1))
e = Environment(m, {Agent('a', algorithm=ValueIteration, action_selector=SoftmaxActionSelector, action_kwargs={'temperature': .1}): (1, np.array([1., 0]), [])})
e.fit('a'); p = e.step_proba('a')
q = e.get_agent_q_values('a')[1]; need(abs(p.sum() - 1) < 1e-12, p.sum())
""")
P("c12_uneven_ties", "C12",
  [(AS, "    return rng.choice(np.where(x == x.max())[0])", "    best = np.where(x == x.max())[0]\n    return best[int(np.round(rng.uniform(0, len(best) - 1)))]")],
  "three or more equally good actions", "the first and last are chosen half as often",
  "s = MaxActionSelector(seed=3)\nc = np.bincount([int(s.get_pi(np.zeros((1, 4)))[0]) for _ in range(4000)], minlength=4)\nneed(c.min() > 850, c)\n")
P("c20_moves_by_name", "C20",
  [(E, "                    n_steps=n_moves[n][t],\n", "                    n_steps=moves_by_name[agent_name][t],\n"),
   (E, "        for t in turns:\n\n            for n, agent_name in enumerate(agent_names):\n", "        moves_by_name = dict(zip(agent_names, n_moves))\n\n        for t in turns:\n\n            for n, agent_name in enumerate(agent_names):\n")],
  "an agent that moves twice within a turn with different numbers of moves", "it makes the last number each time",
  PAIR + """e = world(5, [('a', Null, {}, 1, 2, [0, 0, 0], []), ('b', Null, {}, 1, 2, [0, 0, 0], [])])
e.fit('a'); e.fit('b')
e.step_multi_interactive(['a', 'b', 'a'], n_moves=[[1], [1], [3]])
need(len(e.get_agent_position_history('a')) == 5, e.get_agent_position_history('a'))
""")
P("c20_nothing_moved", "C20",
  [(E, "                if positions is False and stop_on_caught:\n", "                if not positions and stop_on_caught:\n")],
  "an agent with no moves in one of the turns while stopping on capture", "the run ends there",
  PAIR + """e = world(5, [('a', Null, {}, 1, 2, [0, 0, 0], []), ('b', Null, {}, 1, 2, [0, 0, 0], [])])
e.fit('a'); e.fit('b')
e.step_multi_interactive(['a', 'b'], n_moves=[[0, 1], [2, 1]])
need(e.n_steps == 4, e.n_steps)
""")
P("c07_traces", "C07",
  [(M, "            if self.__feature_array[f, state_id] > 0:\n", "            if np.round(self.__feature_array[f, state_id], 6) > 0:\n")],
  "a consumable feature present in a tiny amount", "it is not eaten",
  PAIR + """e = world(2, [('a', Null, {}, 1, 0, [0, 0], [0])], feats=[[0, 1e-7]])
e.fit('a'); e.step('a')
need(e.agents['a'].consumed[0] == 1 and e.mdp.features[0, 1] == 0, e.agents['a'].consumed)
""")
P("c09_single_precision", "C09",
  [(B, "        reward_function = np.array(reward_function)\n        if not reward_function.ndim == 1:", "        reward_function = np.array(reward_function, dtype=np.float32).astype(float)\n        if not reward_function.ndim == 1:")],
  "large reward weights that single precision cannot represent", "values are off by more than the tolerance",
  "m = MDP(np.ones((1, 1)), np.ones((1, 1, 1))); v = ValueIteration(tol=1e-9, max_iter=5000); v.fit(m, np.array([123456.789]), 0)\nneed(abs(v.values[0] - 1234567.89) < 1e-4, v.values)\n")
P("c27_one_beyond", "C27",
  [(A, "        if new_position < 0 or new_position >= self._parent_mdp.n_states:\n", "        if new_position < 0 or new_position > self._parent_mdp.n_states:\n")],
  "repositioning an agent to the state right after the last one", "the wrong kind of error is raised",
  PAIR + """e = world(5, [('a', Null, {}, 1, 2, [0, 0], [])])
try:
    e.set_agent_position('a', 5); need(False, 'accepted')
except ValueError:
    pass
except Exception as x:
    need(False, repr(x))
""")
P("c21_last_step", "C21",
  [(IO, "            agent_dict[agent_name]['position'] = int(agent.position)\n", "            agent_dict[agent_name]['position'] = int(agent.position_history[-1])\n")],
  "saving an environment in which an agent was repositioned", "the agent is saved where it last stepped",
  """from maMDP.env_io import *
e = Environment(HexGridMDP(np.zeros((1, 9)), shape=(3, 3)), {Agent('a', algorithm=ValueIteration): (2, np.zeros(2), [])})
e.set_agent_position('a', 5)
need(hex_environment_from_dict(hex_env_to_dict(e)).agents['a'].position == 5, '')
""")
P("c30_revisits", "C30",
  [(M, "            sa_pairs[n, 1] = np.argmax(self.sas[state, :, trajectory[n+1]])", "            n = list(trajectory).index(state)\n            sa_pairs[n, 1] = np.argmax(self.sas[state, :, trajectory[n+1]])")],
  "-", "-", "need(False, '')")
PLANTS["c30_revisits"].update(edits=[(M, "            sa_pairs[n, 1] = np.argmax(self.sas[state, :, trajectory[n+1]])", "            sa_pairs[n, 1] = np.argmax(self.sas[state, :, trajectory[list(trajectory).index(state)+1]])")],
  needs="a trajectory that leaves a state twice in different directions", breaks="the first direction is reported twice",
  demo=PRE + "m = SquareGridMDP(np.zeros((1, 3)), shape=(3, 1))\nr = m._trajectory_to_state_action([1, 0, 1, 2])\nneed(r[0, 1] != r[2, 1], r)\n")
P("c15_own_turn_contact", "C15",
  [(MC, "            # Check whether any agents should be eaten\n            if interactive:\n", "            # Check whether any agents should be eaten\n            if interactive and current_actor <= 1:\n")],
  "three or more agents of which a later one meets another", "an eaten agent still moves",
  PAIR + """from maMDP.algorithms.mcts import MCTS
e = world(5, [('a', MCTS, dict(n_iter=6, interactive=True, return_states=True, return_other_agent_states=True, opponent_policy_method='random'), 1, 0, [0] * 4, []),
  ('b', Null, {}, 1, 3, [0] * 4, [3]), ('c', Null, {}, 1, 4, [0] * 4, [])])
bad = 0
for s in range(20):
    np.random.seed(s); e.fit('a', n_moves=[[1, 1], [1, 1], [1, 1]])
    for t in e.agents['a'].algorithm.other_agent_visited_states:
        bad += t[0][:1] == [4] and len(t[1]) > 0
need(not bad, bad)
""")
P("c16_unwelcome_prey", "C16",
  [(MC, "            if agent1 == 0:\n                added_reward += agent_values[agent2]", "            if agent1 == 0 and agent_values[agent2] > 0:\n                added_reward += agent_values[agent2]")],
  "an agent that eats another one it dislikes", "the negative weight is not counted",
  PAIR + """from maMDP.algorithms.mcts import MCTS
e = world(2, [('a', MCTS, dict(n_iter=1, interactive=True, return_states=True, return_other_agent_states=True), 1, 0, [0, 0, -4], [2]), ('b', Null, {}, 1, 0, [0, 0, 0], [])])
e.fit('a', n_moves=[[1], [1]])
need(e.agents['a'].algorithm.V.sum() == -4, e.agents['a'].algorithm.V)
""")
P("c05_one_per_cell", "C05",
  [(M, "        updated_features[(self.n_features - self.n_agents) + agent_idx, :] = agent_features\n", "        updated_features[self.n_features - self.n_agents:, position] = 0\n        updated_features[(self.n_features - self.n_agents) + agent_idx, :] = agent_features\n")],
  "two agents in the same state", "the feature of the one that was there first disappears",
  PAIR + """e = world(5, [('a', Null, {}, 1, 2, [0, 0, 0], []), ('b', Null, {}, 1, 3, [0, 0, 0], [])])
e.set_agent_position('a', 3)
need(e.mdp.features[2, 3] == 1, e.mdp.features)
""")
P("c12_global_seed", "C12",
  [(AS, "        self.name = 'max'\n\n        if seed is not None:\n            self.rng = np.random.default_rng(seed=seed)", "        self.name = 'max'\n\n        if seed is not None:\n            np.random.seed(seed)\n            self.rng = np.random.default_rng(seed=seed)")],
  "creating a seeded selector while the global random generator is in use", "the global generator is reset",
  "np.random.seed(1); a = np.random.random(); np.random.seed(1); MaxActionSelector(seed=5); need(np.random.random() == a, '')\n")
P("c20_either_way", "C20",
  [(E, "        for f in self.agents[agent_name].consumes:\n            f = f % self.mdp.n_features  # consumed features can be counted from the end\n", "        me = self.agents[agent_name]\n        for agent in self.agents.values():\n            if me.agent_feature_idx in agent.consumes and agent.name != agent_name and agent.position == me.position:\n                caught = True\n        for f in self.agents[agent_name].consumes:\n            f = f % self.mdp.n_features  # consumed features can be counted from the end\n")],
  "an agent that steps onto its predator", "the move stops although nobody was caught by the mover",
  PAIR + """e = world(2, [('a', Null, {}, 1, 0, [0, 0, 0], []), ('b', Null, {}, 1, 1, [0, 0, 0], [1])])
e.fit('a')
need(e.step_multi('a', 2) == [1, 0], '')
""")
P("c18_positions_key", "C18",
  [(MC, "                        features[agent_preferences[current_actor], :].tobytes(),\n", "                        current_node.tobytes(),\n")],
  "cached opponents that like a feature which is eaten during the simulation", "they go on looking for what is gone",
  "need(False, '')\n")
P("c14_smoothed", "C14",
  [(M, "        values = self.flat_to_grid(values)\n", "        values = self.flat_to_grid(values)\n")],
  "-", "-", "need(False, '')")
PLANTS.pop("c14_smoothed")
P("c08_reset_once", "C08",
  [(A, "        self.consumed = np.zeros(len(self.reward_function))\n\n    def plot", "        if self.consumed.any():\n            self.consumed = self.consumed - self.consumed\n        self.pi_p = None\n\n    def plot")],
  "-", "-", "need(False, '')")
PLANTS.pop("c08_reset_once")
P("c33_bonus_of_start", "C33",
  [(MC, "                current_node[0], expand = MCTS_next_node(\n                    expand, V, N, states, C, current_node[0]\n                )", "                current_node[0], expand = MCTS_next_node(\n                    expand, V, N, states, C, visited_states[0] if visited_states else current_node[0]\n                )")],
  "a plan deep enough for the bound to be used below the first move", "the exploration term uses the visits of another state",
  "need(False, '')\n")
P("c17_zero_ties", "C17",
  [(MC, "        q_values[position, actions] = action_values\n", "        q_values[position, actions] = np.round(action_values, 6)\n")],
  "tree search with rewards below one millionth", "action values are rounded to nothing",
  PAIR + """from maMDP.algorithms.mcts import MCTS
e = world(3, [('a', MCTS, dict(n_iter=8, n_steps=1), 1, 1, [1e-7, 0], [])], feats=[[0, 0, 1]])
e.fit('a'); need(e.get_agent_q_values('a')[1].tolist() and np.nanmax(e.get_agent_q_values('a')[1]) > 0, '')
""")
P("c04_last_outcome", "C04",
  [(M, "            next_state = self.rng.choice(np.arange(len(possible_states)), p=possible_states)\n", "            next_state = np.searchsorted(np.cumsum(possible_states), self.rng.random())\n            next_state = min(next_state, np.argmax(possible_states) if possible_states.max() > 0.95 else len(possible_states) - 1)\n")],
  "-", "-", "need(False, '')")
PLANTS.pop("c04_last_outcome")
PLANTS["c18_positions_key"]["demo"] = PRE + PAIR + """from maMDP.algorithms.mcts import MCTS
e = world(5, [('a', MCTS, dict(n_iter=1, interactive=True, caching=True, reset_cache=False, return_states=True, return_other_agent_states=True), 1, 4, [0] * 3, []),
  ('b', Null, {}, 1, 1, [1, 0, 0], [])], feats=[[1, 0, 0, 0, 1]])
e.fit('a', n_moves=[[1], [1]]); e.mdp.consume_features([0], 0)
np.random.seed(0)
for _ in range(5):
    e.fit('a', n_moves=[[1], [1]])
    need(e.agents['a'].algorithm.other_agent_visited_states == [[[2]]], e.agents['a'].algorithm.other_agent_visited_states)
"""
import os as _os, runpy as _rp
_rp.run_path(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "plants6.py"))["more"](P, M, G, E, A, AS, B, DP, MC, IRL, PL, SR, IO, PT)
for _f in ("plants7.py", "plants8.py"):
    _rp.run_path(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), _f))["more"](P, M, G, E, A, AS, B, DP, MC, IRL, PL, SR, IO, PT)
