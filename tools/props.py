"""Single source of the property texts; writes properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, note, technique):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, note=note, technique=technique))

M = "maMDP/mdp.py"; G = "maMDP/grid_utils.py"; E = "maMDP/environments.py"; A = "maMDP/agents.py"
AS = "maMDP/algorithms/action_selection.py"; B = "maMDP/algorithms/base.py"
DP = "maMDP/algorithms/dynamic_programming.py"; MC = "maMDP/algorithms/mcts.py"
IRL = "maMDP/algorithms/irl.py"; PL = "maMDP/algorithms/policy_learning.py"
SR = "maMDP/algorithms/successor_representation.py"; IO = "maMDP/env_io.py"; PT = "maMDP/plotting.py"

prop("C01", "Grid moves are exactly the geometric neighbour moves",
     "On square and hexagonal grids of any width and height, the cells reachable in one move are exactly a cell's geometric neighbours (4 on square, 6 on hexagonal grids, never wrapping round an edge), each action leads to one cell or nowhere, and each action means the same direction from every cell. Every move is undone by the opposite action (the action half-way round the compass). The extra stay action, when enabled, is the last action and always leads back to the same cell.",
     ["inputs", "configurations"], "every grid shape (width x height, including single row and column), both grid types, with and without the stay action, every cell and action",
     "The tests compare a handful of state pairs of one hard-coded 5x4 hexagonal grid and a 2x2 square grid; an error at an edge, at a column parity, in a large or degenerate shape is outside them.",
     [M, G], [("adjacency from distances and direction labelling", "hex_adjacency/square_adjacency/get_action_from_states_* used by SquareGridMDP/HexGridMDP._get_sas")],
     ["MDP.sas", "MDP.get_next_state", "MDP.adjacency", "MDP.is_adjacent"],
     "Every cell/action of every generated grid is compared with an independent geometric table and walked by hostile random walks through the public next-state call; shapes beyond the generated range are not observed.",
     "runtime monitor: geometric oracle over observed moves")

prop("C02", "State ids, coordinates and hexagonal distances agree",
     "For any grid shape each state id corresponds to exactly one (x, y) coordinate, and every conversion offered (id to coordinate, coordinate to id, flat values or features to grid form) uses that same correspondence, in both directions. The reported distance between two hexagonal cells, for any coordinates, equals the length of the shortest path of moves between them on an unobstructed grid.",
     ["inputs", "configurations"], "every grid shape, every state id and coordinate, every pair of hexagonal cells (also large and negative offsets)",
     "The tests check three distances and the coordinates of one grid; they never compare the conversions with one another.",
     [G, M], [("row-major ids and cube-coordinate distance", "grid_coords, offset_distance/hex_dist, GridMDP.state_to_idx/idx_to_state/flat_to_grid/features_as_grid/get_state_coords")],
     ["grid_coords", "hex_dist", "GridMDP conversions"],
     "Round trips on every state of generated shapes and breadth-first-search distances on generated grids; exhaustive over states, sampled over shapes.",
     "runtime monitor: round-trip and shortest-path oracle")

prop("C03", "Walls block exactly the walled states after any edit history",
     "After any sequence of wall edits (replacing the map, adding walls by coordinates, removing all walls) a transition has its original probability if neither end is walled and is impossible otherwise, and the reported wall map and the adjacency information describe exactly that. Adding walls by coordinates walls exactly the requested cells in addition to the existing ones. Editing the walls of one MDP never changes the arrays the caller passed in or any other MDP.",
     ["histories", "inputs"], "every sequence of wall edits on every grid (and non-grid MDP), interleaved with agents acting in it",
     "No existing test creates a wall at all.",
     [M], [("walls setter rebuilds transitions from the pristine copy", "MDP.walls, GridMDP.add_wall_xy, GridMDP.reset_walls")],
     ["MDP.sas", "MDP.walls", "MDP.adjacency", "MDP.is_adjacent", "MDP.state_valid_actions"],
     "Model of the wall map kept by the monitor across random edit histories, compared after every edit; aliasing is monitored by checksums of caller arrays and of sibling MDPs.",
     "runtime monitor: shadow wall map over edit histories")

prop("C04", "Sampled transitions follow the declared transition probabilities",
     "Taking a possible action always yields a state with positive declared probability for that state and action: the declared state in a deterministic MDP, and in a non-deterministic MDP (with probabilities summing to 1) states drawn with exactly the declared frequencies, whichever random seed is used. Taking an action that is impossible in the current state is refused with an error and never moves anywhere.",
     ["inputs", "configurations"], "every MDP (deterministic, walled or not, and non-deterministic with proper rows), state, action and seed",
     "No existing test draws a next state.",
     [M], [("next state drawn from the declared row", "MDP.get_next_state")],
     ["MDP.get_next_state return values"],
     "Every draw is checked for support, frequencies by a goodness-of-fit test whose false-alarm probability is below 1e-9 per run.",
     "runtime monitor: support oracle and goodness-of-fit over recorded draws")

prop("C05", "Each agent's map feature marks exactly that agent's position",
     "At all times the environment's own features come first and are followed by one feature per agent, in the order the agents were supplied; each agent's feature is 1 at that agent's position and 0 everywhere else (blank only while it has been consumed there since it last moved). Moving or repositioning an agent changes no other agent's feature, and none of the environment's own features except those the mover consumes.",
     ["histories", "configurations"], "every environment (any number of agents) and every sequence of constructing, fitting, stepping, repositioning, wall edits and resets",
     "test_environments.py is empty; no test ever moves an agent.",
     [M, A, E], [("agent rows appended and rewritten on each move", "MDP.add_agent_feature/update_agent_feature/remove_agent_features, AttachedAgent.position")],
     ["MDP.features before and after each operation", "AttachedAgent.position"],
     "Monitored on every operation of random operation histories; histories and sizes sampled.",
     "runtime monitor: transition predicate over recorded operation traces")

prop("C06", "Each step is one legal move of one agent, recorded exactly",
     "A step moves only the requested agent, to a state that its current policy can reach (an action with positive choice probability at its position, leading there with positive probability), and returns that state. The agent's position history is its start followed by exactly the states it stepped to, in order; the environment's step counter starts at 0 and grows by one per step and nobody else's position or history changes.",
     ["histories", "configurations"], "every environment, planner, action selector and sequence of fits, steps, repositionings, wall edits and resets",
     "test_environments.py is empty; no test ever steps an agent.",
     [E, A, M], [("step uses the policy at the current position and appends to history", "Environment.step, AttachedAgent.step")],
     ["Environment.step return", "position_history", "n_steps", "policy probabilities at the previous position"],
     "Monitored on every step of random operation histories; histories and sizes sampled.",
     "runtime monitor: transition predicate over recorded operation traces")

prop("C07", "Consumption is conserved: removed features equal recorded features",
     "When an agent steps into a state, exactly those of its consumable features that have a positive amount in that state are removed there, each raising that agent's consumed count for that feature by one; nothing is removed anywhere else, for any other feature, or by any other operation, and no other agent's counts change. Hence at any time the feature cells missing since the last reset are exactly accounted for by the recorded consumption.",
     ["histories", "configurations"], "every environment and operation history, any overlap of consumable features between agents, any feature amounts (fractional, negative, zero)",
     "No existing test consumes a feature.",
     [E, M, A], [("consumption on entry and counting", "Environment._consume_features, MDP.consume_features, AttachedAgent.consumed")],
     ["MDP.features before and after each operation", "AttachedAgent.consumed"],
     "Conservation is checked on every operation and cumulatively since the last reset over random histories.",
     "runtime monitor: conservation ledger over recorded operation traces")

prop("C08", "Reset restores the starting state after any history",
     "After resetting an environment at any point, positions, features, position histories and consumed counts equal those of a freshly built identical environment, and later planning, and the steps and consumption that follow it, behave as they would there (an earlier plan may be kept until then). Resetting again changes nothing, and walls are kept as they are.",
     ["histories"], "every environment and every history of operations before the reset, including repeated resets",
     "No existing test resets an environment.",
     [E, A, M], [("reset of agents then of the MDP's original features", "Environment.reset, AttachedAgent.reset, MDP.reset")],
     ["environment snapshot after reset compared with the snapshot at construction and with a fresh twin environment"],
     "Snapshots compared on random histories, plus lock-step comparison with a freshly built twin after the reset.",
     "runtime monitor: snapshot equality and lock-step twin over operation traces")

prop("C09", "Value iteration returns the optimal values and action values",
     "For any MDP (deterministic or not, with or without walls), reward weights and discount in (0, 1), when the iteration limit allows convergence the returned state values equal the optimal discounted values within the tolerance-implied error, counting the reward of each state entered, and each possible action's value is the expected reward of the next state plus the discounted value of that state. Impossible actions are valued minus infinity and never influence any state's value; a state from which nothing is possible is worth 0.",
     ["inputs", "configurations"], "every MDP, feature matrix, reward weights (any sign and scale), discount and tolerance",
     "The tests check one 4-state example without a reference solution.",
     [DP, B], [("in-place Bellman sweeps until the tolerance", "solve_value_iteration, state_value_iterator, ValueIteration.fit")],
     ["ValueIteration.values", "ValueIteration.q_values"],
     "Independent policy-iteration solution compared state by state; MDPs sampled.",
     "runtime monitor: independent optimality oracle on recorded plans")

prop("C10", "Soft value iteration returns the soft-Bellman fixed point",
     "With soft planning, when the iteration limit allows convergence, each state's value is the log-sum-exp of the values of exactly the actions possible there, each of which is the expected next-state reward plus the discounted next-state value, within the tolerance-implied error. Impossible actions are valued minus infinity and contribute nothing.",
     ["inputs", "configurations"], "every MDP, feature matrix, reward weights (values within +-1e5), discount and tolerance",
     "No existing test runs soft value iteration.",
     [DP], [("log-sum-exp backup", "state_value_iterator(soft=True)")],
     ["solve_value_iteration(soft=True) values and q values"],
     "Residual of the returned values under an independent soft Bellman operator and comparison with an independent fixed point; action values kept below overflow range.",
     "runtime monitor: independent fixed-point oracle on recorded plans")

prop("C11", "Action probabilities follow the selection rule for any values",
     "Max selection shares probability equally among the exact maximisers and gives 0 to everything else; softmax selection gives probabilities proportional to exp(value/temperature), without overflow for any finite values. In every state with some finite value, probabilities are non-negative, sum to 1, and actions valued minus infinity or not estimated get exactly 0; states without any estimate are reported as having no policy; the supplied values are never modified.",
     ["inputs"], "every array of action values (ties, huge magnitudes, minus infinity, not-a-number) and temperature",
     "The tests use one small array per selector.",
     [AS], [("max and softmax rules with NaN and -inf handling", "ActionSelector.get_pi_p, softmax")],
     ["get_pi_p results"],
     "High-precision independent evaluation of the rule on hostile arrays; arrays sampled.",
     "runtime monitor: independent rule oracle on hostile inputs")

prop("C12", "Chosen actions are drawn from the policy, reproducibly when seeded",
     "An action chosen for a state always has positive probability under the selection rule, and over many draws actions occur with those probabilities; states without any estimate get -1. A selector (or MDP) given a seed produces the same choices every time it is rebuilt with that seed, whatever the state of the global random generator, and does not disturb that generator.",
     ["inputs", "histories", "configurations"], "every array of action values, selector, temperature, seed, and prior use of the global random generator",
     "The tests check single draws on one array and one seed.",
     [AS, M], [("per-selector generator, random tie breaking, sampling from probabilities", "ActionSelector.get_pi, random_max")],
     ["get_pi results", "numpy global generator state"],
     "Support and goodness-of-fit (false-alarm probability below 1e-9) over recorded draws; twin selectors compared draw by draw.",
     "runtime monitor: support, goodness-of-fit and twin-run oracle")

prop("C13", "Probabilistic stepping is the exact one-step distribution",
     "The probabilistic result of stepping an agent from a position or any distribution over positions is that distribution pushed once through its policy and the transition probabilities: probability reaching a state by several routes adds up, the result sums to 1, and it is linear in the (normalised) starting distribution. It moves no agent, changes no feature, consumed count or history, and leaves the supplied distribution unmodified.",
     ["inputs", "histories"], "every environment, planner, selector, and starting distribution (unnormalised, sparse, dense)",
     "No existing test calls it.",
     [A, E], [("push-forward through policy and transitions", "AttachedAgent.step_proba, Environment.step_proba")],
     ["Environment.step_proba result", "environment snapshot before and after"],
     "Compared entry by entry with an independent matrix product on random histories.",
     "runtime monitor: independent push-forward oracle over operation traces")

prop("C14", "Planning and inspecting never change the world",
     "Fitting any agent with any planner, and querying its policy, values, positions, history or plots, leaves positions, features, walls, transitions, histories, consumed counts, the step counter, every agent's reward weights and consumable features, and all other agents' plans exactly as they were. Planning again in an unchanged world with value iteration gives identical values.",
     ["histories", "configurations"], "every environment, planner (value iteration, tree search interactive or not, null) and history",
     "No existing test looks at the environment after a fit.",
     [E, A, B, DP, MC], [("planners work on copies", "run_mcts/mcts_iteration feature copies, Algorithm.fit, ActionSelector copies")],
     ["full environment snapshot before and after each fit or query"],
     "Bitwise snapshot comparison around every planning or query operation in random histories.",
     "runtime monitor: snapshot non-interference over operation traces")

prop("C15", "Tree search only simulates legal moves within the plan",
     "Every trajectory simulated by tree search starts from the agent's real position and consists of legal moves (each visited state reachable in one move from the previous one), for the planning agent and every simulated agent, each from its own real position. No trajectory contains more moves of an agent than its plan allows, it contains exactly the planned number unless the planning agent is caught (or that other agent is eaten), and non-interactive search simulates no other agent.",
     ["inputs", "schedules", "configurations"], "every environment, plan (any turns and moves per agent, including empty turns) and opponent model, every simulated interleaving of agents",
     "The tests call only helper functions on one fixture.",
     [MC], [("move loop with turn counters", "mcts_iteration, get_actions_states, MCTS_next_node, get_opponent_next_state")],
     ["MCTS.visited_states", "MCTS.other_agent_visited_states"],
     "Offline checker over the recorded trajectories of many searches; environments and plans sampled.",
     "runtime monitor: offline trace checker over recorded rollouts")

prop("C16", "Tree search values are exactly the sums of simulated returns",
     "The visit count of each state equals the number of times it appears in the recorded simulated trajectories, and its value equals the sum, over those appearances, of the trajectory's total return. A trajectory's return is the reward of every state the planning agent enters given the features still present then (features eaten earlier in the same trajectory are gone), plus the weight of each agent it eats and the caught cost if it is caught, each counted once; trajectories never affect one another's world.",
     ["inputs", "schedules", "configurations"], "every environment, plan, consumption relation, reward weights and caught cost, every simulated interleaving",
     "The tests cover the overlap helper on fixed arrays only; no test runs a search.",
     [MC], [("rollout accounting and back-propagation", "mcts_iteration, check_agent_overlap, run_mcts")],
     ["MCTS.V", "MCTS.N", "MCTS.visited_states", "MCTS.other_agent_visited_states"],
     "Each recorded trajectory is replayed by an independent simulator and the totals compared; environments and plans sampled.",
     "runtime monitor: independent replay of recorded rollouts (conservation)")

prop("C17", "Tree search estimates only the current state's possible actions",
     "After tree search the action values are defined for exactly the actions possible at the agent's current position (value per visit of the state each leads to, shrunk by one extra visit) and undefined everywhere else. Stepping right after planning takes one of those possible actions with the highest value; stepping from a position that was not planned for is refused with an error and moves nothing.",
     ["inputs", "histories"], "every environment, position (edges, corners, next to walls), plan and history of repositioning between planning and stepping",
     "No existing test runs a search or steps after one.",
     [MC, A, AS], [("NaN outside the planned state, -1 policy refused", "MCTS._fit, get_MCTS_action_values, AttachedAgent.step")],
     ["MCTS.q_values", "Environment.step result or error"],
     "Checked after every search in random histories.",
     "runtime monitor: scope oracle over plan/step traces")

prop("C18", "Simulated opponents act on the simulated world, cached or not",
     "In interactive tree search with solved opponents and greedy selection, every simulated move of another agent is optimal (up to the solver's tolerance) for that agent's own reward weights in the world as simulated at that moment: current simulated positions of all agents and features eaten so far in that trajectory. Caching opponents' plans, within a search or across searches in a changed world, never changes which moves are optimal. Softmax opponents choose each possible action with probability proportional to exp(value/temperature) (greedily at temperature 0) and random opponents choose every possible action equally often.",
     ["inputs", "schedules", "histories"], "every environment, opponent reward weights, plan, cache setting and history between searches",
     "No existing test runs an interactive search.",
     [MC], [("opponent solving with cache keyed on the features it depends on", "get_opponent_next_state, mcts_iteration cache")],
     ["MCTS.other_agent_visited_states replayed against an independent optimal solution of the simulated world"],
     "Each opponent move in recorded trajectories is judged against independently computed optimal values; environments sampled.",
     "runtime monitor: offline optimality checker over recorded rollouts")

prop("C19", "Planning moves are spread over turns without loss",
     "The number of moves to simulate is distributed over the planned turns so that the current turn offers only the moves left in it, every later turn offers at most a full turn's moves, earlier turns are filled before later ones, and the total is the requested number or all that fits. When agents re-plan while moving, the plan for each move follows that rule for the moving agent (from its current move in the turn) and for every other agent (from the start of its turn), with the moving agent first.",
     ["inputs", "histories", "configurations"], "every current move, number of turns, moves per turn and total; every multi-step call with re-planning",
     "No existing test calls it.",
     [E], [("plan array split by turn", "get_n_moves_plan, Environment.step_multi")],
     ["get_n_moves_plan result", "plans received by a recording planner during multi-step calls"],
     "Full enumeration of small arguments plus random large ones against a closed form; plans received by a recording planner in random multi-agent runs.",
     "runtime monitor: closed-form oracle and recording planner")

prop("C20", "Turns are taken in order and capture stops play",
     "A multi-step move makes exactly the requested number of steps of that agent (its own per-turn number by default) and returns the visited states in order; a multi-agent run makes, turn by turn and agent by agent in the given order, exactly the given number of moves for each. An agent catches another when it steps into a state occupied by an agent whose feature it consumes: with stopping on capture the move ends at that very step, reports failure and no further agent moves in that call; otherwise play continues unaffected; nothing else stops play.",
     ["histories", "schedules", "configurations"], "every environment, turn structure, agent order, consumption relation and stopping choice, with and without re-planning",
     "No existing test moves any agent.",
     [E], [("turn loops and caught check", "Environment.step_multi, step_multi_interactive, _check_agents_caught")],
     ["sequence of single-agent steps observed during the call", "return value", "positions and histories"],
     "The observed sequence of steps is compared with an independent turn scheduler and capture rule on random multi-agent runs.",
     "runtime monitor: trace specification of turn taking over recorded steps")

prop("C21", "Saving and loading an environment preserves it",
     "For any hexagonal-grid environment with present/absent features, converting it to a dictionary (states as indices or as coordinates) or JSON (string or file) and back yields an environment with the same grid size and stay setting, walls, features, agents in the same order with the same positions, moves per turn, reward weights, consumable features, planner and selector settings, and that plans identical values. Saving does not change the environment, and saving the loaded environment again gives the same data.",
     ["inputs", "histories", "configurations"], "every such environment, before and after agents have moved and eaten, any feature names",
     "No existing test saves or loads anything.",
     [IO], [("dictionary conversion both ways", "hex_env_to_dict/json, hex_environment_from_dict/json")],
     ["original and reloaded environment", "both dictionaries"],
     "Round trip compared attribute by attribute on random environments in random states.",
     "runtime monitor: round-trip oracle")

prop("C22", "The successor representation satisfies its recursion",
     "For any deterministic MDP the successor matrix over state-action pairs equals the identity plus the discount times the one-step matrix (next state under the action, next action uniformly at random) times itself, with impossible actions leading nowhere. Action values computed from it are the successor matrix times the reward of each pair's state, and minus infinity for impossible actions.",
     ["inputs"], "every deterministic MDP (with walls and dead ends), discount, features and weights",
     "No existing test computes a successor representation.",
     [SR], [("matrix inverse of (I - gamma T)", "get_sa_sr, get_sr_q_values")],
     ["get_sa_sr and get_sr_q_values results"],
     "Residual of the recursion under an independently built one-step matrix; MDPs sampled.",
     "runtime monitor: recursion-residual oracle")

prop("C23", "Feature-count learners count exactly what was observed",
     "Feature matching returns, for each feature, the total amount present in the states entered (the start state of each trajectory excluded), summed over trajectories each in its own MDP, with ignored features 0. The action-based learners add up, per move, the features along the straight line from the current state in the chosen direction (minus those in the other directions for the contrast version, with the stay action excluded), normalised to sum to 1 per trajectory; without reset the estimates accumulate over calls.",
     ["inputs", "histories"], "every list of trajectories (any length, stays included), MDPs (one or one per trajectory, with walls), features and ignored features",
     "No existing test runs these learners.",
     [IRL], [("feature sums and eyeline walks", "MFFeatureMatching.fit, SimpleActionIRL.fit, SimpleActionFeatureDiffIRL.fit, get_eyeline_features")],
     ["fit results"],
     "Independent recount on random trajectories; trajectories sampled.",
     "runtime monitor: independent recount oracle")

prop("C24", "The policy learner follows its learning rule exactly",
     "After fitting trajectories the learned action preferences equal the starting preferences updated, for every observed action in order over all trajectories, by the step's learning rate times the difference between observed and preferred, where the rate decays as the documented power of the number of updates in this fit. The observation is 1 for the taken action and 0 otherwise, or the angular-kernel generalisation; empty trajectories change nothing, and the preferences are the same for every state.",
     ["inputs", "histories"], "every list of trajectories and MDPs, rate, decay, kernel and starting preferences, repeated fits and resets",
     "No existing test runs the learner.",
     [PL], [("delta rule with decaying rate", "TDGeneralPolicyLearner.fit, deg_sq_exp_kernel")],
     ["TDGeneralPolicyLearner.get_q_values"],
     "Independent recursion on random trajectories; trajectories sampled.",
     "runtime monitor: independent recursion oracle")

prop("C25", "MaxEnt reward inference depends only on the evidence",
     "The inferred reward weights do not depend on the order of the trajectories or on duplicating all of them, ignored features always get weight 0, and permuting the features permutes the weights. Expected state visits used by the inference equal the exact sum over time steps of the state distribution under the policy, and each update moves the weights by the decayed learning rate times observed minus expected feature counts. Fitting again continues from the weights reached, at the full learning rate, and a reset returns to the initial weights.",
     ["inputs", "histories"], "every MDP, list of trajectories, ignored features, learning rate, decay and soft or hard planning",
     "No existing test runs the inference.",
     [IRL], [("normalised empirical counts, visitation iteration, gradient step", "MaxCausalEntIRL.fit, state_visitation_iterator")],
     ["MaxCausalEntIRL.fit results", "state_visitation_iterator result", "error_history"],
     "Metamorphic pairs of fits and an independent visitation sum; MDPs and trajectories sampled.",
     "runtime monitor: metamorphic and independent-visitation oracle")

prop("C26", "Plots place everything at its own cell",
     "In any plot of a grid environment, each feature, wall and state value is drawn at its own cell and nowhere else, agents are drawn at their current positions, and trajectories and sequences pass through the visited cells in order, all in one common geometry. On hexagonal grids neighbouring cells are drawn at equal distances, in the direction of the action that connects them.",
     ["inputs", "histories", "configurations"], "every grid shape and type, features, walls, agent positions, trajectories and values",
     "No existing test plots anything.",
     [PT, M, A, E], [("grid transposition and hexagon coordinates", "plot_grids, plot_grid_values, draw_hexagons, state_to_position, plot_trajectory, plot_sequence")],
     ["matplotlib artists on the returned axes"],
     "The artists actually created are inspected on random environments; rasterisation is not.",
     "runtime monitor: artist inspection against geometric oracle")

prop("C27", "Invalid requests are rejected without any effect",
     "Malformed MDPs, walls, agents, action values, plans, positions, unknown agent names, and requests made before an agent has been fitted are refused with an error of the documented kind. After a refused operation on an existing MDP or environment (including a fit refused half way through by a failing planner), positions, features, walls, transitions, histories, consumed counts and the step counter are exactly what they were, and valid operations keep working (in a call that makes several moves, the moves completed before the refused one stay).",
     ["fault_sequences", "inputs", "histories"], "every kind of invalid request at any point of any history, including planners that fail",
     "The tests check a few constructor errors on fresh objects, never the state afterwards.",
     [M, E, A, AS, DP, B], [("validation before mutation", "setters, Environment._check_agent_name, check_q_values, position setter, Algorithm.fit")],
     ["exception type", "environment snapshot before and after the refused operation"],
     "Catalogue of invalid requests injected at random points of random histories.",
     "runtime monitor: fault injection with snapshot atomicity oracle")

prop("C28", "Compiled numeric kernels are memory-safe and match the source",
     "On every valid input the compiled planning, search, distance, selection and inference kernels access no array element out of bounds, and return the same results as the same code run uncompiled. They never modify the transition, feature, reward, probability or action-value arrays handed to them, and no result depends on uninitialised memory.",
     ["inputs", "configurations"], "every valid kernel input, including degenerate sizes (one state, one action, one feature), extreme values and walls",
     "The tests run each kernel on one or two tiny arrays without bounds checking.",
     [DP, MC, AS, SR, IRL, G], [("numba-compiled kernels", "@njit functions")],
     ["bounds-check sanitizer reports (NUMBA_BOUNDSCHECK)", "results of the compiled and interpreted runs"],
     "Bounds-check sanitizer build plus differential run against the interpreter on thousands of kernel calls; sizes sampled.",
     "numba bounds-check sanitizer and differential compiled/interpreted run")

prop("C29", "Learners can be reset and leave their inputs untouched",
     "For every learner, fitting, resetting and fitting again on the same data gives the same estimate as the first fit, starting from the initial estimate the caller supplied. Fitting never changes the caller's initial estimate, trajectories, or the MDPs (features, transitions, walls), and earlier returned results of a reset learner are not altered afterwards.",
     ["histories", "inputs"], "every learner, settings, data and sequence of fits and resets",
     "No existing test runs a learner.",
     [IRL, PL], [("copies of initial estimates, reset", "MaxCausalEntIRL/HyptestIRL/TDGeneralPolicyLearner.reset, fit")],
     ["fit results", "checksums of caller-supplied arrays and MDPs"],
     "Twin fits and checksums over random histories of fit and reset.",
     "runtime monitor: twin-run and checksum oracle over fit/reset histories")

prop("C30", "Queries about moves agree with the transitions",
     "For any MDP, whether two states are adjacent, which actions are possible in a state, and which action connects two states always agree with the transition probabilities currently in force: an action is listed exactly if it can lead somewhere, states are adjacent exactly if some action connects them, and the connecting action is a most likely one. Converting a trajectory to state-action pairs gives, for each move in order, the state left and an action that produces the next state; non-adjacent states are refused with an error.",
     ["inputs", "histories"], "every MDP (grids, custom, non-deterministic), wall history, state pair and trajectory",
     "The tests check one action look-up table.",
     [M, IRL], [("queries computed from the transition array", "MDP.is_adjacent/state_valid_actions/_state_pair_to_action/_trajectory_to_state_action")],
     ["query results"],
     "All states and sampled pairs of generated MDPs after random wall edits.",
     "runtime monitor: query/transition consistency oracle")

prop("C31", "Separate environments and MDPs never influence one another",
     "Nothing done to one environment or MDP (moving, eating, wall edits, fitting, resetting) changes another one built from its own agents, even if both were created from the same feature and wall arrays, settings dictionaries and lists. The caller's arrays, lists and dictionaries are never modified, and changing the feature, wall or reward arrays afterwards does not change environments already built from them.",
     ["histories", "schedules"], "every interleaving of operations on two or more environments built from shared caller data",
     "No existing test builds an environment.",
     [M, E, A, MC], [("copies on construction, per-agent algorithm and selector instances", "MDP.__init__, Environment._set_mdp_and_agents, Agent.__init__")],
     ["snapshots of the idle environment and checksums of caller data around every operation on the other"],
     "Random interleavings of operations on several environments with snapshots of the others.",
     "runtime monitor: snapshot isolation over interleaved traces")

prop("C32", "A greedy planning agent earns the value it planned",
     "In any deterministic MDP, an agent using value iteration and max selection, started anywhere and stepped repeatedly with or without re-planning while nothing else moves or is eaten (rewards not depending on its own marker), collects discounted rewards (of the states entered) that equal the planned value of its starting state up to the remaining discounted tail and tolerance. With nothing else changing, re-planning never lowers the return, and no other move sequence of the same length does better by more than that tail.",
     ["inputs", "histories"], "every deterministic MDP, reward weights, discount, starting state and number of steps",
     "No existing test plans and then acts.",
     [E, A, DP, AS, M], [("planner, selector, transition and environment working together", "Environment.fit/step/step_multi")],
     ["positions returned by steps", "planned values"],
     "Realised return compared with the planned value and an independent finite-horizon optimum on random MDPs.",
     "runtime monitor: end-to-end return oracle over recorded walks")

prop("C33", "Tree search expands unvisited states first, then follows its bound",
     "From its current position, each simulated trajectory of tree search first follows states by the upper confidence bound (mean return plus the exploration term, given all earlier trajectories) as long as every next state has been visited before, and as soon as some next state is unvisited it moves to an unvisited one. With a one-move plan, enough iterations and a unique best non-negative immediate reward, the preferred action leads to that best state.",
     ["inputs", "histories"], "every environment, exploration weight, number of iterations and plan",
     "The tests check the bound's ordering on one fixture and single node choices.",
     [MC], [("UCB tree policy and expansion", "MCTS_next_node, UCB, run_mcts")],
     ["MCTS.visited_states in order"],
     "Offline checker that replays visit statistics over the recorded trajectories; environments sampled.",
     "runtime monitor: offline tree-policy checker over recorded rollouts")

prop("C34", "Hypothesis-testing inference weighs each observed move by its rule",
     "For every observed move in a deterministic MDP, in order over all trajectories (each in its own MDP), the evidence for a feature is how many standard deviations the (first) action leading to the observed state is above the mean of the actions possible in the state left, valued by planning with that feature alone worth 1. The estimate starts at the supplied weights (otherwise 0), or where the previous fit ended, and moves towards the evidence by the learning rate; with decay, times the power n^-decay of the move's number in this fit and multiplied by the asymmetry where the evidence is weaker than the estimate, divided by it otherwise. The estimates reported per move and per trajectory are exactly these, features do not influence one another's estimates (ignored ones included), and impossible moves are refused. (Where the possible actions are equally good for a feature, nothing is claimed about it from then on.)",
     ["inputs", "histories"], "every deterministic MDP list, set of trajectories, settings and sequence of fits",
     "The existing tests do not run this learner at all.",
     [IRL], [("Hypothesis-testing update", "HyptestIRL._single_move, HyptestIRL._solve_hyptest, zscore_nb")],
     ["fit result, theta_array, trajectory_theta"],
     "Every estimate along random fits is compared with the rule applied to independently planned values; settings and MDPs are sampled.",
     "runtime monitor: reference learner compared move by move")

def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    claimed = [p for p in P if os.path.exists(os.path.join(root, "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": [],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
    for p in P:
        if p in claimed:
            man["checks"].append({
                "property": p["id"],
                "quick_cmd": "VERIF_TIER=quick python3 run.py " + p["id"],
                "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"] + " Real code from /repo's working tree is executed; the verdict covers the executions observed."})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
    man["notes"] = ("No hooks in /repo are needed: everything is observed at the public API from /verif. "
                    "Findings (all repaired by fix: commits) are listed in KNOWN_FINDINGS.txt.")
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")

if __name__ == "__main__":
    main()
