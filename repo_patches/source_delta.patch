From 63cb0afe4bcf6186c5a5688aa9239b441e06318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:14 +0000
Subject: [PATCH 01/52] fix: MDP base class could not be constructed (walls
 setter needed a grid shape)

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 83ef70f..e5ff88d 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -122,7 +122,7 @@ class MDP():
         # Check shape etc
         if not walls.ndim == 1:
             raise AttributeError("Array specifying walls must be 1 dimensional")
-        if not walls.shape == np.product(self.shape):
+        if not walls.shape[0] == self.n_states:
             raise AttributeError("Walls array must have the same number of entries as the number of states. Expected {0}, "
                                 "got {1}".format(self.sas.shape[0], walls.shape))
         if not np.all(np.isin(walls, [0, 1])):
-- 
2.43.0


From 88bc50aa2a42d5c1d75616638847c23e339b847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:14 +0000
Subject: [PATCH 02/52] fix: walls were not reflected in adjacency and the wall
 array was shared with the caller

---
 maMDP/mdp.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index e5ff88d..0fa3827 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -129,14 +129,17 @@ class MDP():
             raise ValueError("Wall array values must be either 0 (no wall) or 1 (wall)")
 
         # Reset SAS
-        self.sas = self.__original_sas.copy()
+        sas = self.__original_sas.copy()
 
-        # Add array
-        self.__walls = walls
+        # Add array (copied, so that it is never shared with the caller or another MDP)
+        self.__walls = walls.copy()
 
         # Adjust SAS
-        self.sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states
-        self.sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states
+        sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states
+        sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states
+
+        # Set through the property so that adjacency reflects the walls
+        self.sas = sas
 
     def _get_walls(self, walls):
         return walls
@@ -418,7 +421,7 @@ class GridMDP(MDP, metaclass=ABCMeta):
 
     def reset_walls(self):
 
-        self.walls *= 0
+        self.walls = np.zeros_like(self.walls)
 
 
     def plot_trajectory(self, trajectory:List[int], ax:plt.axes, colour:str='black', 
-- 
2.43.0


From fca6145b999e2bc79c638b4efc25648778c84ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:14 +0000
Subject: [PATCH 03/52] fix: get_next_state raised AttributeError for every
 non-deterministic MDP

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 0fa3827..b56dc3e 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -222,7 +222,7 @@ class MDP():
         if self._deterministic:
             next_state = np.argmax(possible_states)
         else:
-            next_state = self.rng.random.choice(np.arange(len(possible_states), dtype=np.int), p=possible_states)
+            next_state = self.rng.choice(np.arange(len(possible_states)), p=possible_states)
 
         return next_state
 
-- 
2.43.0


From 6f00673ac33192ebc0f6cdc3d634de164864bd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:56 +0000
Subject: [PATCH 04/52] fix: step_proba overwrote probability reaching a state
 by more than one route

---
 maMDP/agents.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index cb2acea..f0a653b 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -216,8 +216,7 @@ class AttachedAgent():
 
         for s in current_states:
             for action in range(self.pi_p.shape[1]):
-                next_state = self._parent_mdp.get_next_state(s, action)
-                next_states_p[next_state] = self.pi_p[s, action] * position[s]
+                next_states_p += position[s] * self.pi_p[s, action] * self._parent_mdp.sas[s, action, :]
 
         return next_states_p
 
-- 
2.43.0


From 05dd8eeb6650610092363be3ed59575014ded206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:56 +0000
Subject: [PATCH 05/52] fix: taking an impossible action silently moved the
 agent to state 0

---
 maMDP/mdp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index b56dc3e..dac522f 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -219,6 +219,9 @@ class MDP():
         # Get possible transitions given the best action
         possible_states = self.sas[current_state, action, :]
 
+        if not np.any(possible_states > 0):
+            raise ValueError("Action {0} is not possible in state {1}".format(action, current_state))
+
         if self._deterministic:
             next_state = np.argmax(possible_states)
         else:
-- 
2.43.0


From 09232fb9ad13fe6039a9b8c39186ca30ac3fceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:56 +0000
Subject: [PATCH 06/52] fix: Null algorithm offered actions that are impossible
 in the current state

---
 maMDP/algorithms/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maMDP/algorithms/base.py b/maMDP/algorithms/base.py
index 042879a..4c78b07 100644
--- a/maMDP/algorithms/base.py
+++ b/maMDP/algorithms/base.py
@@ -104,4 +104,7 @@ class Null(Algorithm):
         state_vawlues = np.ones(mdp.n_states)
         q_values = np.ones((mdp.n_states, mdp.n_actions))
 
+        # Set invalid transitions to negative infinity, as in the other algorithms
+        q_values[mdp.sas.sum(axis=-1) == 0] = -np.inf
+
         return state_vawlues, q_values
\ No newline at end of file
-- 
2.43.0


From 6cffaccfea94b08964579e4e30d2ec41c71b1638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:56 +0000
Subject: [PATCH 07/52] fix: agent feature rows were miscounted with zero
 agents or after a rejected agent

---
 maMDP/mdp.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index dac522f..2e066d5 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -152,12 +152,11 @@ class MDP():
             positions (int): List of state indices for each agent.
         """
 
-        self.n_agents += 1
-
         agent_features = np.zeros((self.n_states))
         agent_features[position] = 1
 
         self.features = np.vstack([self.features, agent_features[None, :]])
+        self.n_agents += 1
 
     def update_agent_feature(self, agent_idx:int, position:int):
         """
@@ -178,7 +177,7 @@ class MDP():
     def remove_agent_features(self):
         """ Removes agent features """
 
-        self.features = self.features[:-self.n_agents, :]
+        self.features = self.features[:self.n_features - self.n_agents, :]
         self.n_agents = 0
 
     def consume_features(self, feature_idx:List[int], state_id:int) -> np.ndarray:
@@ -529,7 +528,7 @@ class SquareGridMDP(GridMDP):
         """
 
         # Plot features
-        ax = plot_grids(self.features_as_grid()[:-self.n_agents, :], colours, alphas, *args, **kwargs)
+        ax = plot_grids(self.features_as_grid()[:self.n_features - self.n_agents, :], colours, alphas, *args, **kwargs)
 
         # Plot walls
         ax = plot_grids(self.flat_to_grid(self.walls)[None, :], [wall_colour], [1], ax=ax)
@@ -639,7 +638,7 @@ class HexGridMDP(GridMDP):
             plt.axes: Axes
         """
 
-        ax, self.coords = plot_hex_grids(self.features_as_grid()[:-self.n_agents, :], colours, alphas, ax=ax, *args, **kwargs)
+        ax, self.coords = plot_hex_grids(self.features_as_grid()[:self.n_features - self.n_agents, :], colours, alphas, ax=ax, *args, **kwargs)
 
         # Plot walls
         ax, _ = plot_hex_grids(self.flat_to_grid(self.walls)[None, :], [wall_colour], [1], ax=ax)
-- 
2.43.0


From 00f9aab95b7e5e754da6a8e105c624537ecf29ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:56 +0000
Subject: [PATCH 08/52] fix: out of range agent positions were accepted or
 raised the wrong error

---
 maMDP/agents.py       | 6 +++---
 maMDP/environments.py | 7 +++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index f0a653b..0c2b396 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -137,9 +137,9 @@ class AttachedAgent():
     @position.setter
     def position(self, new_position:int):
 
-        if new_position >= self._parent_mdp.n_states:
-            raise ValueError("Position must be less than the number of states in the parent MDP. " 
-                             "Provided position {0}, MDP has {1} states".format(self._parent_mdp.n_states))
+        if new_position < 0 or new_position >= self._parent_mdp.n_states:
+            raise ValueError("Position must be non-negative and less than the number of states in the parent MDP. " 
+                             "Provided position {0}, MDP has {1} states".format(new_position, self._parent_mdp.n_states))
 
         if self.__starting_position is None:
             self.__starting_position = new_position
diff --git a/maMDP/environments.py b/maMDP/environments.py
index 6b509aa..f08fa5e 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -129,6 +129,13 @@ class Environment:
                     "Agent {0}: Position should be an int".format(agent_object.name)
                 )
 
+            if position < 0 or position >= mdp.n_states:
+                raise ValueError(
+                    "Agent {0}: Position {1} is not one of the MDP's {2} states".format(
+                        agent_object.name, position, mdp.n_states
+                    )
+                )
+
             if not len(reward_function) == original_mdp_n_features + self.n_agents:
                 raise AttributeError(
                     "Agent {0}: Agent reward function must have the same number of entries"
-- 
2.43.0


From c48d1f06a5a8ad1d90ba3571fdd3b68cc0efab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:57 +0000
Subject: [PATCH 09/52] fix: reset kept the record of features consumed before
 the reset

---
 maMDP/agents.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index 0c2b396..75adc56 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -226,6 +226,7 @@ class AttachedAgent():
         self.pi = None
         self.pi_p = None
         self.position_history = [self.__starting_position]
+        self.consumed = np.zeros(len(self.reward_function))
 
     def plot(self, ax:plt.axes, marker:str="X", *args, **kwargs):
         """
-- 
2.43.0


From 89f81fbc30d2b9e043d46b3650dc6dbe1de5df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:57 +0000
Subject: [PATCH 10/52] fix: agent feature index was wrong if the MDP's
 features were replaced after construction

---
 maMDP/agents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index 75adc56..ce5753c 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -79,7 +79,7 @@ class AttachedAgent():
         self.action_kwargs = action_kwargs
 
         self.agent_idx = index
-        self.agent_feature_idx = index + parent_mdp._MDP__n_non_agent_features  # Index of the corresponding feature for this agent
+        self.agent_feature_idx = parent_mdp.n_features  # Agent's feature is about to be added after the existing ones. Index of the corresponding feature for this agent
 
         self._parent_mdp = parent_mdp
         self._parent_environment = parent_environment
-- 
2.43.0


From 4fe157ca92d309dc82ede9351bd185d3893722a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:30 +0000
Subject: [PATCH 11/52] fix: value iteration valued states by actions that
 cannot be taken there

---
 maMDP/algorithms/dynamic_programming.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/maMDP/algorithms/dynamic_programming.py b/maMDP/algorithms/dynamic_programming.py
index adda596..8c42457 100644
--- a/maMDP/algorithms/dynamic_programming.py
+++ b/maMDP/algorithms/dynamic_programming.py
@@ -113,15 +113,19 @@ def state_value_iterator(values:np.ndarray, delta:float, reward:np.ndarray,
         # Values of each action taken from state s
         action_values = get_state_action_values(s, n_actions, sas, reward, discount, values)
 
+        # Ignore actions that the agent can't take
+        valid_action_values = action_values[sas[s, ...].sum(axis=-1) > 0]
+
         # Update action values
-        if not soft:
+        if len(valid_action_values) == 0:
+            # No way out of this state, so there is nothing to be gained from it
+            values[s] = 0
+        elif not soft:
             # Max
-            values[s] = action_values.max()
+            values[s] = valid_action_values.max()
         else:
             # Softmax (e.g. Bloem & Bambos, 2014)
-            valid_actions = np.argwhere(sas[s, ...])[:, 0]  # Ignore actions that the agent can't take
-            # action_values
-            values[s] = np.log(np.sum(np.exp(action_values)) + 1e-200)  # Add a small amount here to avoid doing log(0) and getting -inf
+            values[s] = np.log(np.sum(np.exp(valid_action_values)) + 1e-200)  # Add a small amount here to avoid doing log(0) and getting -inf
 
         # Update Q value for each action in this state
         q_values[s, :] = action_values
-- 
2.43.0


From 64adce440897ee0ca1110aa62bf302afc70eccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:29 +0000
Subject: [PATCH 12/52] fix: step_multi with refit failed when taking more
 steps than the agent's n_moves

---
 maMDP/environments.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index f08fa5e..e93734f 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -353,6 +353,12 @@ class Environment:
         elif isinstance(n_steps, list):
             n_steps_primary_agent = n_steps[0]
 
+        # Moves per turn used for planning should match the number of steps being taken
+        if isinstance(n_steps, list):
+            n_agent_steps = n_steps
+        else:
+            n_agent_steps = [n_steps_primary_agent] + n_agent_steps[1:]
+
         # Check that number of planning moves for all agents is > 0
         if not all([i > 0 for i in n_moves_plan]):
             raise ValueError(
-- 
2.43.0


From 8c8426e045dbe755880958b88220f86e366bee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:29 +0000
Subject: [PATCH 13/52] fix: step_multi_interactive always failed before moving
 any agent

---
 maMDP/environments.py | 52 ++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 33 deletions(-)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index e93734f..20da52f 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -463,63 +463,49 @@ class Environment:
             only be decremented after the 4th move. Defaults to True.
         """
 
-        # Get number of moves for each agent if not provided
-        if n_moves is None:
-            agent_names = [agent_name] + [
-                i for i in self.agent_names if not i == agent_name
-            ]  # Put primary agent first
-            n_moves = [[[self.agents[i].n_moves] * n_turns for i in agent_names]]
-        else:
-            n_moves = copy(n_moves)  # avoid modifying the original that was provided
-            n_turns = len(n_moves[0])  # Get number of turns from n_moves
-
-        # Get the number of planning moves
-        if n_moves_plan is None:
-            n_moves_plan = copy(n_moves)
-
         if agent_names is None:
             agent_names = self.agent_names
 
         for agent_name in agent_names:
             self._check_agent_name(agent_name)
 
+        # Get number of moves for each agent if not provided
+        if n_moves is None:
+            n_moves = [[self.agents[i].n_moves] * n_turns for i in agent_names]
+        else:
+            n_turns = len(n_moves[0])  # Get number of turns from n_moves
+
         if progressbar:
             turns = progress_bar(range(n_turns))
         else:
             turns = range(n_turns)
 
-        agent_steps = dict([(a, self.agents[a].n_moves) for a in agent_names])
-
-        # Need to determine the total number of planning steps
-        if adjust_planning_steps is True:
-            adjust_planning_steps = sum((sum(i) for i in n_moves))
-
         for t in turns:
 
             for n, agent_name in enumerate(agent_names):
 
+                # Planning moves should be given with the moving agent first
+                agent_n_moves_plan = None
+                if n_moves_plan is not None:
+                    plan = dict(zip(agent_names, n_moves_plan))
+                    agent_n_moves_plan = [plan.pop(agent_name)] + [
+                        plan[i] for i in self.agent_names if i in plan
+                    ]
+
+                # The planning horizon is limited to the remaining turns by step_multi
                 positions = self.step_multi(
                     agent_name,
-                    agent_steps[agent_name],
-                    refit=refit,
                     n_steps=n_moves[n][t],
-                    n_turns_plan=n_turns - t,
-                    n_moves_plan=n_moves_plan,
-                    adjust_planning_steps=adjust_planning_steps,
+                    n_moves_plan=agent_n_moves_plan,
+                    n_turns_plan=n_turns - t if adjust_planning_steps else n_turns,
+                    refit=refit,
                     stop_on_caught=stop_on_caught,
                 )
 
-                if positions == False and stop_on_caught:
+                if positions is False and stop_on_caught:
                     warnings.warn("Agent was caught, stopping")
                     return
 
-                # Decrement adjust_planning_steps (this should work...)
-                if isinstance(adjust_planning_steps, int):
-                    adjust_planning_steps -= n_moves[n][t]
-
-                # Update number of planning moves for each agent
-                n_moves_plan[n] = n_moves_plan[n][t + 1 :]
-
     def reset(self):
         """
         Resets the agents and the MDP to their starting states.
-- 
2.43.0


From 4eec4b6729b9d3422e62279f57ecc69fa1b97b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:09 +0000
Subject: [PATCH 14/52] fix: fitting MCTS without an explicit n_moves always
 failed

---
 maMDP/algorithms/mcts.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index a7209eb..5aa6420 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -617,6 +617,19 @@ def extract_all_agent_info(
     )
 
 
+def get_default_n_moves(n_steps: int, n_moves: List[int]) -> List[List[int]]:
+    """Splits a number of simulated steps into turns, with agents taking turns to make their n_moves moves"""
+
+    turns = [[] for _ in n_moves]
+
+    while n_steps > 0 and any(n_moves):
+        for agent, agent_n_moves in enumerate(n_moves):
+            turns[agent].append(min(agent_n_moves, n_steps))
+            n_steps -= turns[agent][-1]
+
+    return turns
+
+
 # @njit(parallel=False)
 def run_mcts(
     interactive: bool,
@@ -638,7 +651,8 @@ def run_mcts(
     return_states: bool = False,
     return_other_agent_states: bool = False,
     verbose: bool = False,
-    VI_kwargs: Dict = {}
+    VI_kwargs: Dict = {},
+    n_steps: int = 10
 ) -> Union[np.ndarray, np.ndarray]:
     """
     Runs the MCTS algorithm to determine the best action to take from the current state.
@@ -681,6 +695,7 @@ def run_mcts(
         return_other_agent_states (bool, optional): If true, returns a record of the states visited by other agents. Defaults to False.
         verbose (bool, optional): If true, prints info. Defaults to False.
         VI_kwargs (Dict, optional): Keyword arguments to pass to the value iteration algorithm, if using. Defaults to {}.
+        n_steps (int, optional): Number of steps per iteration, only used if n_moves is None. Defaults to 10.
 
     Returns:
         Union[np.ndarray, np.ndarray]: Returns the value of each state and the number of times each state has been visited.
@@ -702,7 +717,7 @@ def run_mcts(
 
     # Only used the extracted number of moves if n_moves has not been specified
     if n_moves is None:
-        n_moves = extracted_n_moves
+        n_moves = get_default_n_moves(n_steps, extracted_n_moves)
 
     # Remove agent features
     features = features.copy()
@@ -979,7 +994,8 @@ class MCTS(Algorithm):
             self.return_states,
             self.return_other_agent_states,
             self.verbose,
-            self.VI_kwargs
+            self.VI_kwargs,
+            self.n_steps
         )
 
         # Get the value of available actions
-- 
2.43.0


From 64a8c4751828aad0fce32a113f58a88c2a6d9d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:09 +0000
Subject: [PATCH 15/52] fix: non-interactive MCTS spent the other agents'
 planned moves on the primary agent

---
 maMDP/algorithms/mcts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 5aa6420..846c7b6 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -719,6 +719,10 @@ def run_mcts(
     if n_moves is None:
         n_moves = get_default_n_moves(n_steps, extracted_n_moves)
 
+    # Other agents don't move in non-interactive planning, so only count the primary agent's moves
+    if not interactive:
+        n_moves = n_moves[:1]
+
     # Remove agent features
     features = features.copy()
 
-- 
2.43.0


From 0bae1a0e71258a39c4b8b61dfcbc60e9b07e3f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:09 +0000
Subject: [PATCH 16/52] fix: MCTS opponent cache key missed state it depends on
 and failed for some opponents

---
 maMDP/algorithms/mcts.py | 41 +++++-----------------------------------
 1 file changed, 5 insertions(+), 36 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 846c7b6..48f63a0 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -8,7 +8,6 @@ from ..mdp import MDP
 from .action_selection import softmax
 import warnings
 import time
-from operator import itemgetter
 
 
 @njit
@@ -336,9 +335,6 @@ def mcts_iteration(
     # Keep track of which other agents have been eaten
     agents_active = np.ones(len(current_node), dtype=np.bool_)
 
-    # Track which features have been consumed
-    consumed_features = [() for _ in range(features.shape[0])]
-
     # Which features each agent cares about (i.e. where reward function has zero weight)
     agent_preferences = []
     for agent in range(n_agents):
@@ -401,18 +397,10 @@ def mcts_iteration(
                 if agents_active[current_actor]:
                     if verbose:
                         print('Stepping other agent, total steps = {0}. Current node = {1}'.format(total_steps, current_node[current_actor]))
-                    other_agent_nodes = current_node[
-                        np.arange(len(current_node)) != current_actor
-                    ]
-                    feature_consumption = tuple(
-                        itemgetter(*agent_preferences[current_actor])(consumed_features)
-                    )
+                    # Q values depend only on the features this agent cares about
+                    cache_key = features[agent_preferences[current_actor], :].tobytes()
 
-                    if (
-                        caching
-                        and (tuple(other_agent_nodes), feature_consumption)
-                        in cached_q_values[current_actor]
-                    ):
+                    if caching and cache_key in cached_q_values[current_actor]:
                         cache_used += 1
                         current_node[current_actor], q_values = get_opponent_next_state(
                             opponent_policy_method,
@@ -428,9 +416,7 @@ def mcts_iteration(
                             max_iter=VI_max_iter,
                             discount=VI_discount,
                             tol=VI_tol,
-                            q_values=cached_q_values[current_actor][
-                                (tuple(other_agent_nodes), feature_consumption)
-                            ],
+                            q_values=cached_q_values[current_actor][cache_key],
                         )
                     else:
                         current_node[current_actor], q_values = get_opponent_next_state(
@@ -450,9 +436,7 @@ def mcts_iteration(
                             q_values=None,
                         )
                         if caching:
-                            cached_q_values[current_actor][
-                                (tuple(other_agent_nodes), feature_consumption)
-                            ] = q_values
+                            cached_q_values[current_actor][cache_key] = q_values
 
                     if return_other_agent_states:
                         other_agent_visited_states[current_actor - 1].append(
@@ -462,21 +446,6 @@ def mcts_iteration(
             # Consume features in this state
             if agents_active[current_actor]:
 
-                # Keep a record of what's been consumed
-                if caching:
-                    for f in np.where(consumes_features[current_actor, :])[0]:
-                        # Check there is something to consume
-                        if (
-                            features[
-                                consumes_features[current_actor, :],
-                                current_node[current_actor],
-                            ]
-                            != 0
-                        ):
-                            consumed_features[f] = consumed_features[f] + (
-                                current_node[current_actor],
-                            )
-
                 # Remove consumed feature from the feature array
                 features[
                     consumes_features[current_actor, :], current_node[current_actor]
-- 
2.43.0


From 4c964d3fdd1288f19b4e6538dac612ac933f3a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:09 +0000
Subject: [PATCH 17/52] fix: agents simulated by MCTS saw each other's previous
 rather than current positions

---
 maMDP/algorithms/mcts.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 48f63a0..7963746 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -351,10 +351,6 @@ def mcts_iteration(
         # If this agent is supposed to be moving
         if n_moves[current_actor][current_turns[current_actor]] > 0:
 
-            # Set corresponding agent feature
-            features[agent_feature_idx[current_actor], :] = 0
-            features[agent_feature_idx[current_actor], current_node[current_actor]] = 1
-
             # Check whether any agents should be eaten
             if interactive:
                 added_reward, agents_active, caught = check_agent_overlap(
@@ -443,9 +439,13 @@ def mcts_iteration(
                             current_node[current_actor]
                         )
 
-            # Consume features in this state
             if agents_active[current_actor]:
 
+                # Set corresponding agent feature
+                features[agent_feature_idx[current_actor], :] = 0
+                features[agent_feature_idx[current_actor], current_node[current_actor]] = 1
+
+                # Consume features in this state
                 # Remove consumed feature from the feature array
                 features[
                     consumes_features[current_actor, :], current_node[current_actor]
-- 
2.43.0


From 0f66f5d292679768c1e1bc1218716c7cb4c7819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:09 +0000
Subject: [PATCH 18/52] fix: agents already eaten in an MCTS simulation could
 eat or be eaten again

---
 maMDP/algorithms/mcts.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 7963746..6fc52e8 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -222,8 +222,12 @@ def check_agent_overlap(
         agent1 = consuming_agents[n]
         agent2 = consumed_agents[n]
 
-        # If agents are in the same state
-        if current_node[agent1] == current_node[agent2]:
+        # If agents are in the same state (agents that have already been eaten play no further part)
+        if (
+            agents_active[agent1]
+            and agents_active[agent2]
+            and current_node[agent1] == current_node[agent2]
+        ):
             # set the agent inactive
             agents_active[agent2] = False
             # If Agent 2 is the primary agent, end the iteration
-- 
2.43.0


From 7bdb82f5d047f36de75807a307de4a88eb1a97d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:09 +0000
Subject: [PATCH 19/52] fix: MCTS selection was undefined (NaN) at a starting
 node that was never revisited

---
 maMDP/algorithms/mcts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 6fc52e8..ecd93d6 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -140,7 +140,8 @@ def UCB(
     """
 
     ucb = (V[states] / (1 + N[states])) + C * np.sqrt(
-        (2 * np.log(N[node])) / (1 + N[states])
+        # The starting node may not have been visited yet, in which case log(0) would make every bound NaN
+        (2 * np.log(max(N[node], 1))) / (1 + N[states])
     )
 
     return ucb
-- 
2.43.0


From 7bba02ba92c0f30c06b98658228ddab25d7e2b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:19 +0000
Subject: [PATCH 20/52] fix: MaxCausalEntIRL ignored every feature by default
 and failed with several ignored features

---
 maMDP/algorithms/irl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 4595cdb..b49b438 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -168,6 +168,9 @@ class MaxCausalEntIRL(BaseIRL):
             
     def _solve_maxcausalent(self, mdp, trajectories, ignore_features=(), show_progress=True):
         
+        # Index with a list, as an empty tuple would select every feature
+        ignore_features = list(ignore_features)
+
         # Get observed state visitation counts
         visited_states = np.zeros(mdp.n_states)
         
-- 
2.43.0


From 4e43148b19d9c3bbbe072d38f52527eb16a9891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:19 +0000
Subject: [PATCH 21/52] fix: MaxCausalEntIRL estimate depended on the order of
 the trajectories

---
 maMDP/algorithms/irl.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index b49b438..407347b 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -177,9 +177,8 @@ class MaxCausalEntIRL(BaseIRL):
         # Get empirical state visitation counts
         for t in trajectories:
             for s in t:
-                visited_states[s] += 1
-            # Normalise
-            visited_states /= len(t)
+                # Normalise by the length of this trajectory
+                visited_states[s] += 1 / len(t)
         # Normalise
         visited_states /= len(trajectories)
 
-- 
2.43.0


From 8dba442a1c55deb6ed6e583efb413d8a6ce335d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:19 +0000
Subject: [PATCH 22/52] fix: MaxCausalEntIRL learning rate decayed faster than
 documented and across fits

---
 maMDP/algorithms/irl.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 407347b..7e9df9a 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -216,7 +216,6 @@ class MaxCausalEntIRL(BaseIRL):
             if self.learning_rate_decay == 0:
                 self.theta += self.learning_rate * error
             else:
-                self.learning_rate = (self.learning_rate * np.power(i+1, -float(self.learning_rate_decay)))
                 self.theta += (self.learning_rate * np.power(i+1, -float(self.learning_rate_decay))) * error
 
             # Update progress bar
-- 
2.43.0


From d9b4ed84f55b1944702d3cd2f985cfcdedf66263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:19 +0000
Subject: [PATCH 23/52] fix: resetting IRL estimators did not restore the
 initial reward function

---
 maMDP/algorithms/irl.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 7e9df9a..1c0aad2 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -121,8 +121,8 @@ class MaxCausalEntIRL(BaseIRL):
         self.original_learning_rate = learning_rate
         self.learning_rate_decay = decay
         self.max_iter_irl = max_iter_irl
-        self.original_theta = np.array(theta).copy()
-        self.theta = theta
+        self.original_theta = None if theta is None else np.array(theta, dtype=float)
+        self.reset()
 
         # This is used for feature count estimation
         if soft:
@@ -232,7 +232,7 @@ class MaxCausalEntIRL(BaseIRL):
 
     def reset(self):
         """ Resets the reward function and learning rate to its initial state """
-        self.theta = self.original_theta
+        self.theta = None if self.original_theta is None else self.original_theta.copy()
         self.learning_rate = self.original_learning_rate
 
     def reset_learning_rate(self):
@@ -337,8 +337,8 @@ class HyptestIRL(BaseIRL):
         self.learning_rate = learning_rate
         self.asymmetry = asymmetry
         self.learning_rate_decay = decay
-        self.original_theta = np.array(theta).copy()
-        self.theta = theta
+        self.original_theta = None if theta is None else np.array(theta, dtype=float)
+        self.reset()
         self.normalisation = normalisation
 
     def _single_move(self, start:int, next_state:int, sas:np.ndarray, q_values:Union[np.ndarray, None], 
@@ -486,7 +486,7 @@ class HyptestIRL(BaseIRL):
 
     def reset(self):
         """ Resets the reward function to its initial state """
-        self.theta = self.original_theta
+        self.theta = None if self.original_theta is None else self.original_theta.copy()
 
     def fit(self, mdp:Union[MDP, List[MDP]], trajectories:List[List[int]], ignore_features:tuple=(), show_progress:bool=True) -> np.ndarray:
         """
-- 
2.43.0


From b09eb0c35fa3c12a482677b575f4b067eeb1765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:19 +0000
Subject: [PATCH 24/52] fix: MFFeatureMatching ignored trajectories instead of
 features

---
 maMDP/algorithms/irl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 1c0aad2..2ac06e9 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -288,7 +288,7 @@ class MFFeatureMatching(BaseIRL):
         for n, t in enumerate(trajectories):
             feature_array[n, :] = mdp[n].features[:, t[1:]].sum(axis=1)  # Exclude the first state of the trajectory as it's the start state which wasn't chosen
 
-        feature_array[ignore_features, :] = 0
+        feature_array[:, ignore_features] = 0
 
         self.theta = feature_array.sum(axis=0)
 
-- 
2.43.0


From 2bec882f73b7220cb73123759b52573954838001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:19 +0000
Subject: [PATCH 25/52] fix: eyeline features never terminated for trajectories
 that stay in place

---
 maMDP/algorithms/irl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 2ac06e9..ec8d8f6 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -535,7 +535,8 @@ def get_eyeline_features(mdp, current_state, action):
     while not complete:
         states.append(current_state)
         sa_next_states = mdp.sas[current_state, action, :]
-        if np.max(sa_next_states) > 0:
+        # Stop if the action leads nowhere or stays in the same place
+        if np.max(sa_next_states) > 0 and np.argmax(sa_next_states) != current_state:
             current_state = np.argmax(sa_next_states)
         else:
             complete = True
-- 
2.43.0


From 059d0e211f752a3529e07e2f0a6827cab9b31dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:19 +0000
Subject: [PATCH 26/52] fix: resetting TDGeneralPolicyLearner did not restore
 the initial Q values

---
 maMDP/algorithms/policy_learning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index ff77f9b..6bd39e3 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -64,15 +64,15 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
         self._adjusted_learning_rate = learning_rate
         self.kernel = kernel
         self.ls = ls
-        self.original_Q = np.array(Q).copy()
+        self.original_Q = None if Q is None else np.array(Q, dtype=float)
         self.n_states = 1
         self.fit_complete = False
 
-        self.Q = Q 
+        self.reset()
 
     def reset(self):
         """ Resets the estimate to its initial state """
-        self.Q = self.original_Q
+        self.Q = None if self.original_Q is None else self.original_Q.copy()
         self.reset_learning_rate()
         self.fit_complete = False
 
-- 
2.43.0


From 3bcb57b549bdef0015d904957d2e96cfbd302202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:19 +0000
Subject: [PATCH 27/52] fix: TDGeneralPolicyLearner failed for trajectories
 longer than the number of MDPs

---
 maMDP/algorithms/policy_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index 6bd39e3..d3908e9 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -99,7 +99,7 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
                 action = mdp[n]._trajectory_to_state_action(trajectory)[:, 1].astype(int)
 
                 # Loop through individual actions within each trajectory
-                for n, a in enumerate(action):
+                for a in action:
                     
                     trial_reward = np.zeros(mdp[n].n_actions)
 
-- 
2.43.0


From 4490b812400309b61e0d479727d9f48ac2dc47c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:19 +0000
Subject: [PATCH 28/52] fix: TDGeneralPolicyLearner learning rate decayed
 faster than documented

---
 maMDP/algorithms/policy_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index d3908e9..81c2bb0 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -115,7 +115,7 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
 
                     # Adjust learning rate
                     if self.learning_rate_decay > 0:
-                        self._adjusted_learning_rate = self._adjusted_learning_rate * np.power(self.n_states, -self.learning_rate_decay)
+                        self._adjusted_learning_rate = self.learning_rate * np.power(self.n_states, -float(self.learning_rate_decay))
                         self.Q += self._adjusted_learning_rate * delta
 
                     # No learning rate adjustment
-- 
2.43.0


From 9f946c76bf40a304b1735d434fb5dff15449327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:19 +0000
Subject: [PATCH 29/52] fix: saving an environment truncated reward weights to
 integers

---
 maMDP/env_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 729c537..5b47d13 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -58,7 +58,7 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
 
         agent_dict[agent_name]['n_moves'] = agent.n_moves
 
-        agent_dict[agent_name]['reward_function'] = [int(i) for i in list(agent.reward_function)]
+        agent_dict[agent_name]['reward_function'] = agent.reward_function.tolist()
         agent_dict[agent_name]['consumes'] = agent.consumes
 
         agent_dict[agent_name]['algorithm'] = agent.algorithm.name
-- 
2.43.0


From 40edb96ac9d4803458c051a9099ffaeeb8018f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:19 +0000
Subject: [PATCH 30/52] fix: loading an environment from JSON lost all of its
 features

---
 maMDP/env_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 5b47d13..10f1dc1 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -94,12 +94,15 @@ def hex_env_to_json(env:Environment, feature_names:List, return_string=False, fn
         return json_string
 
 
-def hex_environment_from_dict(env_dict, feature_names=[]):
+def hex_environment_from_dict(env_dict, feature_names=None):
 
     if not env_dict['type'] == 'hex':
         raise NotImplementedError()
 
     else:
+        if feature_names is None:
+            feature_names = list(env_dict['features'].keys())
+
         n_features = len(env_dict['features'])
         features = np.zeros((n_features, np.product(env_dict['size'])))
         for n, f in enumerate(feature_names):
-- 
2.43.0


From 2fd4e8db58fc638fd190a6de988d86d62cca8268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:19 +0000
Subject: [PATCH 31/52] fix: hex_env_to_dict failed when feature_names was left
 at its default

---
 maMDP/env_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 10f1dc1..c887e84 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -23,6 +23,9 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
         Dict: Returns a dictionary specifying shape of the grid, agent positions and properties, MDP properties
     """
 
+    if feature_names is None:
+        feature_names = env.mdp.feature_names[:env.mdp.n_features - len(env.agents)]
+
     if not (env.mdp.n_features - len(env.agents)) == len(feature_names):
         raise AttributeError('Number of feature names should equal number of features, excluding agents')
 
-- 
2.43.0


From b86cce30e9f6e134bb73099a204085362f21bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:19 +0000
Subject: [PATCH 32/52] fix: square grid state values were plotted transposed
 relative to agents and features

---
 maMDP/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/plotting.py b/maMDP/plotting.py
index cdf339c..821557b 100644
--- a/maMDP/plotting.py
+++ b/maMDP/plotting.py
@@ -96,11 +96,11 @@ def plot_grid_values(
         _, ax = plt.subplots(*args, **kwargs)
 
     # Plot each grid
-    ax.imshow(grid, cmap=cmap)
+    ax.imshow(grid.T, cmap=cmap)  # First dimension is X, as in plot_grids
 
     ax.grid(which="major", axis="both", linestyle="-", color="#333333", linewidth=1)
     ax.set_xticks(np.arange(-0.5, grid.shape[0], 1))
-    ax.set_yticks(np.arange(-0.5, grid.shape[0], 1))
+    ax.set_yticks(np.arange(-0.5, grid.shape[1], 1))
     for tic in ax.xaxis.get_major_ticks():
         tic.tick1line.set_visible(False)
         tic.tick2line.set_visible(False)
-- 
2.43.0


From b1e2945e17a257350f258e4d0c267e1c70191fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:22 +0000
Subject: [PATCH 33/52] fix: states whose action values overflow when averaged
 were treated as not estimated

---
 maMDP/algorithms/action_selection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/action_selection.py b/maMDP/algorithms/action_selection.py
index 0080e97..491d9e7 100644
--- a/maMDP/algorithms/action_selection.py
+++ b/maMDP/algorithms/action_selection.py
@@ -62,7 +62,7 @@ class ActionSelector(metaclass=ABCMeta):
         # Ensure q values are provided in the right format
         check_q_values(q_values)
 
-        nan_states = np.isnan(np.nanmean(q_values, axis=1))
+        nan_states = np.all(np.isnan(q_values), axis=1)
 
         q_values = q_values.copy()
         q_values[np.isnan(q_values)] = -np.inf
@@ -98,7 +98,7 @@ class ActionSelector(metaclass=ABCMeta):
         # Ensure q values are provided in the right format
         check_q_values(q_values)
         
-        nan_states = np.isnan(np.nanmean(q_values, axis=1))
+        nan_states = np.all(np.isnan(q_values), axis=1)
 
         q_values = q_values.copy()
         q_values[np.isnan(q_values)] = -np.inf
-- 
2.43.0


From 45ab26ddd7c04f2663335720eb466c1493ee6677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:04 +0000
Subject: [PATCH 34/52] fix: non-interactive tree search never finished if no
 moves were planned for the first turn

---
 maMDP/algorithms/mcts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index ecd93d6..c82ffe1 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -694,8 +694,9 @@ def run_mcts(
         n_moves = get_default_n_moves(n_steps, extracted_n_moves)
 
     # Other agents don't move in non-interactive planning, so only count the primary agent's moves
+    # (and as nobody moves in between, it makes no difference how these are divided into turns)
     if not interactive:
-        n_moves = n_moves[:1]
+        n_moves = [[sum(n_moves[0])]]
 
     # Remove agent features
     features = features.copy()
-- 
2.43.0


From 385ab28db7a9b8d4f536786ec48e554c98d061b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:07 +0000
Subject: [PATCH 35/52] fix: consuming features of an MDP changed the caller's
 feature array and other MDPs built from it

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 2e066d5..bd22462 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -95,7 +95,7 @@ class MDP():
                                 'Expected {0} states, found {1}'.format(self.n_states, features.shape[1]))
 
         self.__n_features = features.shape[0]
-        self.__feature_array = features
+        self.__feature_array = features.copy()  # never shared with the caller or another MDP
         self.__original_feature_array = features.copy()
 
         # Name features
-- 
2.43.0


From ef28c925b30f737350f9e43ccad19860e5bfb875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:03 +0000
Subject: [PATCH 36/52] fix: opponents' plans cached by tree search were reused
 after the walls had changed

---
 maMDP/algorithms/mcts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index c82ffe1..8f7a29e 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -869,6 +869,7 @@ class MCTS(Algorithm):
         self.caching = caching
         self.reset_cache = reset_cache
         self.cache = None
+        self._cached_sas = None
         self.VI_kwargs = VI_kwargs
         self.sr = None
         self.verbose = verbose
@@ -935,8 +936,10 @@ class MCTS(Algorithm):
         # Reset things
         self.reset()
 
-        if self.reset_cache:
+        # Q values cached before the transitions changed (e.g. because walls were added) no longer apply
+        if self.reset_cache or not np.array_equal(mdp.sas, self._cached_sas):
             self.cache = None
+        self._cached_sas = mdp.sas.copy()
 
         if self.sr is None:
             self.sr = get_sa_sr(mdp.sas, 0.99)
-- 
2.43.0


From f6b4a322bc10a0493fbd01d551a24aceca437d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:49 +0000
Subject: [PATCH 37/52] fix: environments with agents placed at numpy integer
 states could not be saved

---
 maMDP/env_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index c887e84..4668b2f 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -55,7 +55,7 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
         agent_dict = {agent_name: {}}
         agent_dict[agent_name] = {}
         if format == 'index':
-            agent_dict[agent_name]['position'] = agent.position
+            agent_dict[agent_name]['position'] = int(agent.position)
         elif format == 'coords':
             agent_dict[agent_name]['position']  = [[int(i) for i in list(env.mdp.state_to_idx(agent.position))]]
 
-- 
2.43.0


From 5d3f150bc7fd72c81bd1a3253fac99ceb5847e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:29 +0000
Subject: [PATCH 38/52] fix: contrast learner ignored a direction on grids
 without a stay action

---
 maMDP/algorithms/irl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index ec8d8f6..7a6ed22 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -563,11 +563,14 @@ def get_trajectory_eyeline_features_diff(mdp, trajectories, normalise=True):
     chosen_feature_counts = np.zeros(mdp.n_features)
     unchosen_feature_counts = np.zeros(mdp.n_features)
 
+    # Staying in place has no direction - if the MDP has this action it is the last one
+    n_directions = mdp.n_actions - 1 if getattr(mdp, 'self_transitions', True) else mdp.n_actions
+
     for trajectory in trajectories:
 
         for n, state in enumerate(trajectory[:-1]):
             chosen_action = state_pair_to_action(mdp, state, trajectory[n+1])
-            for action in range(mdp.n_actions-1):
+            for action in range(n_directions):
                 if action == chosen_action:
                     chosen_feature_counts += get_eyeline_features(mdp, state, action)
                 else:
-- 
2.43.0


From f770659ec609ff1337d6136d8999cb996c23a70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:21 +0000
Subject: [PATCH 39/52] fix: hidden cells of a hexagonal value plot lost their
 position

---
 maMDP/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maMDP/plotting.py b/maMDP/plotting.py
index 821557b..dd0ea4b 100644
--- a/maMDP/plotting.py
+++ b/maMDP/plotting.py
@@ -246,8 +246,9 @@ def draw_hexagons(
                         "{0}, {1}".format(x, z),
                         fontsize=5,
                     )
-                coords[0, x, z] = x_coord[-1]
-                coords[1, x, z] = y_coord[-1]
+            # Hidden cells keep their place, as trajectories can still pass through them
+            coords[0, x, z] = x * outer_radius * 1.5
+            coords[1, x, z] = z * (inner_radius * 2) + (0 if x % 2 else inner_radius)
 
     ax.set_xlim(0 - outer_radius, np.max(x_coord) + outer_radius)
     ax.set_ylim(0 - outer_radius, np.max(y_coord) + outer_radius)
-- 
2.43.0


From 2066902381134cca0d2846c43e60c87dd22e3c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:30 +0000
Subject: [PATCH 40/52] fix: refused position left the agent's feature blank

---
 maMDP/mdp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index bd22462..a46c980 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -169,8 +169,10 @@ class MDP():
 
         updated_features = self.features
 
-        updated_features[(self.n_features - self.n_agents) + agent_idx, :] = 0
-        updated_features[(self.n_features - self.n_agents) + agent_idx, position] = 1
+        agent_features = np.zeros(self.n_states)
+        agent_features[position] = 1  # Raises before anything is changed if the position is invalid
+
+        updated_features[(self.n_features - self.n_agents) + agent_idx, :] = agent_features
 
         self.__feature_array = updated_features      
 
-- 
2.43.0


From d40777e6a54a086ad17a560cc4435f9013398b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:49 +0000
Subject: [PATCH 41/52] fix: refused consumption had already consumed some of
 the features

---
 maMDP/mdp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index a46c980..605955c 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -196,6 +196,9 @@ class MDP():
 
         consumed = np.zeros(self.n_features, dtype=int)
 
+        # Raises before anything is consumed if a feature or the state does not exist
+        self.__feature_array[np.array(feature_idx, dtype=int), state_id]
+
         for f in feature_idx:
             if self.__feature_array[f, state_id] > 0:
                 self.__feature_array[f, state_id] = 0
-- 
2.43.0


From 66922519c1a33c0c462183789bfd530afbd7c110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:05 +0000
Subject: [PATCH 42/52] fix: environment refused because of one agent had
 already added other agents to the MDP

---
 maMDP/environments.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index 20da52f..d94b36e 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -91,17 +91,15 @@ class Environment:
         self.agent_names = [agent.name for agent in agents.keys()]
 
         self.__mdp = mdp
-
-        # Remove any agent-related features that may already be present in the MDP
-        if self.__mdp.n_agents > 0:
-            self.__mdp.remove_agent_features()
-
-        # Attach agents
         self.__agents = {}
 
-        original_mdp_n_features = mdp.n_features
+        # Features of the MDP itself, without any agent-related features that may already be present
+        original_mdp_n_features = mdp.n_features - mdp.n_agents
+
+        # Check all agents before changing anything in the MDP
+        checked_agents = []
 
-        for n, agent_object in enumerate(agents.keys()):
+        for agent_object in agents.keys():
 
             position, reward_function, consumes = agents[agent_object]
 
@@ -156,6 +154,14 @@ class Environment:
                     )
                 )
 
+            checked_agents.append((agent_object, position, reward_function, consumes))
+
+        # Remove any agent-related features that may already be present in the MDP
+        if self.__mdp.n_agents > 0:
+            self.__mdp.remove_agent_features()
+
+        # Attach agents
+        for n, (agent_object, position, reward_function, consumes) in enumerate(checked_agents):
             agent_object = agent_object._attach(
                 self.mdp, self, n, position, reward_function, consumes
             )
-- 
2.43.0


From 8750672c1873c34f22db48cd6ced2692def0fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:18 +0000
Subject: [PATCH 43/52] fix: consumed features with out-of-range negative
 indices were only refused after the agent had moved

---
 maMDP/environments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index d94b36e..6bae74c 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -146,7 +146,7 @@ class Environment:
                     )
                 )
 
-            if any([i > len(reward_function) - 1 for i in consumes]):
+            if any([i > len(reward_function) - 1 or i < -len(reward_function) for i in consumes]):
                 raise ValueError(
                     "Agent {0}: Provided a feature to consume that is out of range. Indexes provided = {1}, reward "
                     "function indicates {2} features".format(
-- 
2.43.0


From 3d3e29fca3141b21df859251ece9abb67a14e896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:34 +0000
Subject: [PATCH 44/52] fix: interactive turns ignored surplus entries of a
 planning moves list

---
 maMDP/environments.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index 6bae74c..2fc4186 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -481,6 +481,12 @@ class Environment:
         else:
             n_turns = len(n_moves[0])  # Get number of turns from n_moves
 
+        # Check that planning moves are given for each of the agents
+        if n_moves_plan is not None and len(n_moves_plan) != len(agent_names):
+            raise ValueError(
+                f"Number of planning moves ({len(n_moves_plan)}) does not match number of agents ({len(agent_names)})."
+            )
+
         if progressbar:
             turns = progress_bar(range(n_turns))
         else:
-- 
2.43.0


From 59a445788093ebbffc7b6922cd4b1f1af170d503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:23 +0000
Subject: [PATCH 45/52] fix: weighted choice in tree search could read past the
 end of its array

---
 maMDP/algorithms/mcts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 8f7a29e..7250d14 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -18,8 +18,9 @@ def rand_choice_nb(arr, p):
     :param prob: A 1D numpy array of probabilities for the given samples.
     :return: A random sample from the given array with a given probability.
     """
-    prob = p / p.sum()
-    return arr[np.searchsorted(np.cumsum(prob), np.random.random(), side="right")]
+    # Scaling by the actual total means that rounding can never select an entry beyond the end of the array
+    cumulative_p = np.cumsum(p)
+    return arr[np.searchsorted(cumulative_p, np.random.random() * cumulative_p[-1], side="right")]
 
 
 @njit
-- 
2.43.0


From 1cccd4c5a9c905676a4884dfb941f268b0330d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:00 +0000
Subject: [PATCH 46/52] fix: integer and boolean features or transitions could
 not be planned on

---
 maMDP/mdp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 605955c..887b6b1 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -70,6 +70,9 @@ class MDP():
         else:
             self._deterministic = True
 
+        # Integer and boolean transitions stand for probabilities as well
+        sas = np.asarray(sas, dtype=np.float64)
+
         # Get adjacency
         self.adjacency = (np.sum(sas, axis=1) > 0).astype(int)
         self.n_states = sas.shape[0]
@@ -95,8 +98,8 @@ class MDP():
                                 'Expected {0} states, found {1}'.format(self.n_states, features.shape[1]))
 
         self.__n_features = features.shape[0]
-        self.__feature_array = features.copy()  # never shared with the caller or another MDP
-        self.__original_feature_array = features.copy()
+        self.__feature_array = np.array(features, dtype=np.float64, order='C')  # never shared with the caller or another MDP
+        self.__original_feature_array = np.array(features, dtype=np.float64, order='C')
 
         # Name features
         self.feature_names = ['Feature_{0}'.format(i) for i in range(self.n_features)]
-- 
2.43.0


From 7c8bd80026f1c7b5b0ba9e2a7636a6dea7adeb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:09 +0000
Subject: [PATCH 47/52] fix: environments silently lost agents that share a
 name

---
 maMDP/environments.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index 2fc4186..7f00eae 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -90,6 +90,11 @@ class Environment:
         self.n_agents = len(agents)
         self.agent_names = [agent.name for agent in agents.keys()]
 
+        if len(set(self.agent_names)) < self.n_agents:
+            raise ValueError(
+                "Agents must have different names, got {0}".format(self.agent_names)
+            )
+
         self.__mdp = mdp
         self.__agents = {}
 
-- 
2.43.0


From 85676381c905a1fe5bbeeb001cac5c3959a4b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:25 +0000
Subject: [PATCH 48/52] fix: cached plans of simulated opponents were kept when
 their reward function changed

---
 maMDP/algorithms/mcts.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 7250d14..45208a9 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -399,8 +399,11 @@ def mcts_iteration(
                 if agents_active[current_actor]:
                     if verbose:
                         print('Stepping other agent, total steps = {0}. Current node = {1}'.format(total_steps, current_node[current_actor]))
-                    # Q values depend only on the features this agent cares about
-                    cache_key = features[agent_preferences[current_actor], :].tobytes()
+                    # Q values depend only on the agent's reward function and the features it cares about
+                    cache_key = (
+                        reward_functions[current_actor, :].tobytes(),
+                        features[agent_preferences[current_actor], :].tobytes(),
+                    )
 
                     if caching and cache_key in cached_q_values[current_actor]:
                         cache_used += 1
-- 
2.43.0


From 6452856d85d217b5f3ac0100b4932380f695c400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:05 +0000
Subject: [PATCH 49/52] fix: agents whose consumed features include their own
 were caught by themselves, features counted from the end never caught

---
 maMDP/algorithms/mcts.py | 2 +-
 maMDP/environments.py    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 45208a9..74873a3 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -555,7 +555,7 @@ def get_agent_consumes(consumes_features: np.ndarray, agent_idx: Dict[int, str])
     for agent in range(consumes_features.shape[0]):
         consumes = consumes_features[agent, :]
         for i in np.where(consumes)[0]:
-            if i in agent_idx:
+            if i in agent_idx and agent_idx[i] != agent:  # agents can't catch themselves
                 consumes_agents[agent, agent_idx[i]] = 1
 
     consumes_agents = consumes_agents.astype(bool)
diff --git a/maMDP/environments.py b/maMDP/environments.py
index 7f00eae..1338e4d 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -264,8 +264,9 @@ class Environment:
         # Check whether any agents should be eaten
         caught = False
         for f in self.agents[agent_name].consumes:
+            f = f % self.mdp.n_features  # consumed features can be counted from the end
             for agent in self.agents.values():
-                if agent.agent_feature_idx == f:
+                if agent.agent_feature_idx == f and agent.name != agent_name:
                     if self.agents[agent_name].position == agent.position:
                         caught = True
 
-- 
2.43.0


From eb6bf4183c7d827cb6ddb647bfacdba4eb9d869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:42 +0000
Subject: [PATCH 50/52] fix: soft value iteration lost or refused values too
 large to be exponentiated

---
 maMDP/algorithms/dynamic_programming.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/dynamic_programming.py b/maMDP/algorithms/dynamic_programming.py
index 8c42457..c0db2b6 100644
--- a/maMDP/algorithms/dynamic_programming.py
+++ b/maMDP/algorithms/dynamic_programming.py
@@ -125,7 +125,8 @@ def state_value_iterator(values:np.ndarray, delta:float, reward:np.ndarray,
             values[s] = valid_action_values.max()
         else:
             # Softmax (e.g. Bloem & Bambos, 2014)
-            values[s] = np.log(np.sum(np.exp(valid_action_values)) + 1e-200)  # Add a small amount here to avoid doing log(0) and getting -inf
+            max_value = valid_action_values.max()  # Subtracted to avoid overflow, or doing log(0) and getting -inf
+            values[s] = max_value + np.log(np.sum(np.exp(valid_action_values - max_value)))
 
         # Update Q value for each action in this state
         q_values[s, :] = action_values
-- 
2.43.0


From 72c84c02139d12abb252b83eed3a1d0f305ee346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:47 +0000
Subject: [PATCH 51/52] fix: action values given as integers could not be
 selected from

---
 maMDP/algorithms/action_selection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/action_selection.py b/maMDP/algorithms/action_selection.py
index 491d9e7..f5aae18 100644
--- a/maMDP/algorithms/action_selection.py
+++ b/maMDP/algorithms/action_selection.py
@@ -64,7 +64,7 @@ class ActionSelector(metaclass=ABCMeta):
 
         nan_states = np.all(np.isnan(q_values), axis=1)
 
-        q_values = q_values.copy()
+        q_values = q_values.astype(float)  # a copy that can hold infinite values
         q_values[np.isnan(q_values)] = -np.inf
 
         # Get policy
@@ -100,7 +100,7 @@ class ActionSelector(metaclass=ABCMeta):
         
         nan_states = np.all(np.isnan(q_values), axis=1)
 
-        q_values = q_values.copy()
+        q_values = q_values.astype(float)  # a copy that can hold infinite values
         q_values[np.isnan(q_values)] = -np.inf
 
         # Get policy
-- 
2.43.0


From a05b40edfa8debdd961ef125a94eb1de69102911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:58 +0000
Subject: [PATCH 52/52] fix: hex environments saved with states as coordinates
 can be loaded again

---
 maMDP/env_io.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 4668b2f..594364c 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -39,12 +39,12 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
         if format == 'index':
             env_dict['features'][feature_names[f]] = np.where(env.mdp.features[f, :])[0].astype(int).tolist()
         elif format == 'coords':
-            env_dict['features'][feature_names[f]] = np.stack(env.mdp.state_to_idx(np.where(env.mdp.features[f, :]))).T.squeeze().astype(int).tolist()
+            env_dict['features'][feature_names[f]] = np.stack(env.mdp.state_to_idx(np.where(env.mdp.features[f, :])[0]), axis=-1).astype(int).tolist()
 
     if format == 'index':
         env_dict['walls'] = np.where(env.mdp.walls)[0].astype(int).tolist()
     elif format == 'coords':
-        env_dict['walls'] = np.stack(env.mdp.state_to_idx(np.where(env.mdp.walls))).T.squeeze().astype(int).tolist()
+        env_dict['walls'] = np.stack(env.mdp.state_to_idx(np.where(env.mdp.walls)[0]), axis=-1).astype(int).tolist()
 
     env_dict['type'] = 'hex'
     env_dict['self_transitions'] = env.mdp.self_transitions
@@ -97,6 +97,13 @@ def hex_env_to_json(env:Environment, feature_names:List, return_string=False, fn
         return json_string
 
 
+def _as_states(states, shape):
+    """Converts states given as [x, y] coordinates (format='coords') to state indices, leaves indices as they are"""
+    states = np.asarray(states, dtype=int)
+    if states.ndim == 2:
+        states = np.ravel_multi_index(tuple(states.T), shape)
+    return states
+
 def hex_environment_from_dict(env_dict, feature_names=None):
 
     if not env_dict['type'] == 'hex':
@@ -110,11 +117,11 @@ def hex_environment_from_dict(env_dict, feature_names=None):
         features = np.zeros((n_features, np.product(env_dict['size'])))
         for n, f in enumerate(feature_names):
             # print("CREATING ENV", n, f)
-            states = env_dict['features'][f]
+            states = _as_states(env_dict['features'][f], env_dict['size'])
             features[n, states] = 1
 
         walls = np.zeros(np.product(env_dict['size']))
-        walls[env_dict['walls']] = 1
+        walls[_as_states(env_dict['walls'], env_dict['size'])] = 1
 
         newMDP = HexGridMDP(features=features, walls=walls, shape=tuple(env_dict['size']), 
                             self_transitions=env_dict['self_transitions'])
@@ -142,7 +149,9 @@ def hex_environment_from_dict(env_dict, feature_names=None):
             new_agent = Agent(agent_name, n_moves=agent_info['n_moves'], algorithm=algorithm, algorithm_kwargs=agent_info['algorithm_kwargs'],
                               action_selector=action_selector, action_kwargs=agent_info['action_kwargs'])
             
-            agent_dict[new_agent] = (agent_info['position'], agent_info['reward_function'], agent_info['consumes'])
+            position = int(_as_states(agent_info['position'], env_dict['size']).squeeze())
+
+            agent_dict[new_agent] = (position, agent_info['reward_function'], agent_info['consumes'])
         
         newEnvironment = Environment(newMDP, agent_dict)
 
-- 
2.43.0

