"""First calls that make numba compile what a check needs (done once, before the workers are forked)."""
import numpy as np
from . import gen, core


def hexgrid():
    gen.GRID["hex"](features=np.zeros((1, 4)), shape=(2, 2))


def vi():
    from maMDP.algorithms.dynamic_programming import ValueIteration
    hexgrid()
    m = gen.GRID["square"](features=np.ones((1, 4)), shape=(2, 2))
    ValueIteration().fit(m, np.array([1.0]), 0)
    ValueIteration().fit(m, np.array([1]), 0)


def softmax():
    from maMDP.algorithms.action_selection import SoftmaxActionSelector
    SoftmaxActionSelector(temperature=0.5).get_pi_p(np.zeros((2, 2)))
    SoftmaxActionSelector().get_pi_p(np.zeros((2, 2)))
    SoftmaxActionSelector(temperature=1.0).get_pi_p(np.zeros((2, 2)))


def mcts(interactive=True):
    core.enable_numba_seeding()
    spec = {"mdp": dict(kind="square", shape=(2, 2), stay=False, features=np.ones((1, 4)), walls=None), "agents": [
        dict(name="a", n_moves=1, alg="mcts", alg_kwargs=dict(n_iter=8, n_steps=3, interactive=interactive, caching=c, return_states=True,
             return_other_agent_states=True, opponent_action_selection=o, opponent_policy_method=pm, VI_kwargs=v), selector=("max", {}), position=0,
             reward=np.array([1.0, 0, 2]), consumes=[0])
        for c, o, pm, v in ((False, "max", "solve", {}), (True, "softmax", "solve", {}), (False, "max", "random", {}))]}
    for a in spec["agents"]:
        for rw in ((np.array([0.0, 1, 0]), np.array([0, 1, 0])) if interactive else (np.array([0.0, 1, 0]),)):
            b = dict(a, name="b", position=3, reward=rw, consumes=[1], alg="null", alg_kwargs={})
            env = gen.build_env({"mdp": spec["mdp"], "agents": [a, b]})
            env.fit("a")
        if not interactive:
            break
