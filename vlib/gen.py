"""Generators of MDPs, environments and trajectories. Everything is drawn from the case's own generator."""
import numpy as np
from maMDP.mdp import MDP, SquareGridMDP, HexGridMDP
from maMDP.environments import Environment
from maMDP.agents import Agent
from maMDP.algorithms.base import Algorithm, Null
from maMDP.algorithms.dynamic_programming import ValueIteration
from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector
from . import ref

GRID = {"square": SquareGridMDP, "hex": HexGridMDP}


def coin(rng, p):
    return bool(rng.random() < p)


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def seed(rng):
    """seeds, the ones that look like "no seed" included"""
    u = rng.random()
    if u < 0.2:
        return 0
    if u < 0.3:
        return int(pick(rng, [1, 2, 2 ** 31 - 1, 2 ** 32 - 1]))
    return int(rng.integers(10 ** 6))


def shape(rng, max_cells=40, min_cells=1):
    """widths and heights, single rows and columns and (rarely) large grids included"""
    for _ in range(1000):
        u = rng.random()
        if u < 0.12:
            w, h = 1, int(rng.integers(1, max_cells + 1))
        elif u < 0.24:
            w, h = int(rng.integers(1, max_cells + 1)), 1
        elif u < 0.6:
            w, h = int(rng.integers(1, 7)), int(rng.integers(1, 7))
        else:
            w = int(rng.integers(1, max(2, int(2 * np.sqrt(max_cells)))))
            h = int(rng.integers(1, max(2, max_cells // w + 1)))
        if min_cells <= w * h <= max_cells:
            return (w, h)
    return (1, min_cells)


def features(rng, n_features, n_states, style=None):
    style = style or pick(rng, ["binary", "binary", "dense", "float", "signed", "zero", "sparse", "wide"])
    if style == "binary":
        f = (rng.random((n_features, n_states)) < 0.3).astype(float)
    elif style == "dense":
        f = (rng.random((n_features, n_states)) < 0.8).astype(float)
    elif style == "sparse":
        f = (rng.random((n_features, n_states)) < 0.08).astype(float)
    elif style == "float":
        f = np.round(rng.random((n_features, n_states)) * 3, 3) * (rng.random((n_features, n_states)) < 0.5)
    elif style == "signed":
        f = np.round(rng.normal(size=(n_features, n_states)), 2) * (rng.random((n_features, n_states)) < 0.6)
    elif style == "wide":       # amounts many orders of magnitude apart
        f = 10.0 ** rng.integers(-14, 4, (n_features, n_states)) * (rng.random((n_features, n_states)) < 0.5)
    else:
        f = np.zeros((n_features, n_states))
    return np.ascontiguousarray(f)


def walls(rng, n_states, p=None):
    if p is None:
        p = pick(rng, [0, 0.1, 0.25, 0.5])
        if coin(rng, 0.2):      # a single wall, often in a corner
            w = np.zeros(n_states)
            w[pick(rng, [0, n_states - 1, int(rng.integers(n_states))])] = 1
            return w
    return (rng.random(n_states) < p).astype(float)


def dir_sas(rng, S, A, p_impossible=0.3, total=True):
    """deterministic custom transitions"""
    sas = np.zeros((S, A, S))
    for s in range(S):
        for a in range(A):
            if rng.random() >= p_impossible:
                sas[s, a, rng.integers(S)] = 1
        if total and not sas[s].any():
            sas[s, rng.integers(A), rng.integers(S)] = 1
    return sas


def stoch_sas(rng, S, A, p_impossible=0.2, total=True):
    sas = np.zeros((S, A, S))
    for s in range(S):
        for a in range(A):
            if rng.random() >= p_impossible:
                sas[s, a] = stoch_row(rng, S)
        if total and not sas[s].any():
            sas[s, rng.integers(A)] = stoch_row(rng, S)
    if not ((sas > 0) & (sas < 1)).any() and S > 1:   # make sure that it is not deterministic by accident
        t = rng.choice(S, 2, replace=False)
        sas[0, 0] = 0
        sas[0, 0, t] = 0.5
    return sas


def stoch_row(rng, S):
    if rng.random() < 0.08:      # anything may happen
        row = rng.dirichlet(np.ones(S) * 4)
        return row / row.sum()
    k = int(rng.integers(1, min(S, 5) + 1))
    t = rng.choice(S, k, replace=False)
    row = np.zeros(S)
    u = rng.random()
    if u < 0.4:       # dyadic probabilities
        c = rng.multinomial(16, np.ones(k) / k) / 16
    elif u < 0.8:
        c = rng.dirichlet(np.ones(k))
    else:             # very uneven
        c = rng.dirichlet(np.ones(k) * 0.2)
    row[t] = c
    return row / row.sum()


def mdp_spec(rng, kinds=("square", "hex", "det", "stoch"), max_cells=30, n_features=None, wall_p=None, style=None, stay=None,
             min_cells=1, custom_walls=0.0, tail=True, size=None):
    kind = pick(rng, kinds)
    big = tail and coin(rng, 0.03)          # now and then much larger than usual
    if big:
        max_cells = min(150, 5 * max_cells)
        if coin(rng, 0.15):
            max_cells = 320
    nf = n_features if n_features is not None else int(rng.integers(1, 5)) if coin(rng, 0.93) else int(rng.integers(5, 14))
    if kind in GRID:
        sh = size or shape(rng, max_cells, min_cells)
        st = coin(rng, 0.4) if stay is None else stay
        ns = sh[0] * sh[1]
        if ns == 1:
            st = True
        w = walls(rng, ns, wall_p) if (wall_p is None or wall_p > 0) else None
        if w is not None and w.all():
            w[rng.integers(ns)] = 0
        return dict(kind=kind, shape=sh, stay=st, features=features(rng, nf, ns, style), walls=w, dtype=some_dtype(rng))
    ns = int(rng.integers(max(1, min_cells), max(2, min(max_cells, 40 if big else 14)) + 1))
    na = int(rng.integers(1, 12 if big else 6))
    if kind == "stoch" and ns == 1:
        ns = 2
    sas = dir_sas(rng, ns, na) if kind == "det" else stoch_sas(rng, ns, na)
    w = None
    if custom_walls and coin(rng, custom_walls):
        w = walls(rng, ns, float(pick(rng, [0.1, 0.25, 0.5])))
    return dict(kind=kind, sas=sas, features=features(rng, nf, ns, style), walls=w,
                seed=seed(rng) if coin(rng, 0.7) else None, dtype=some_dtype(rng))


def some_dtype(rng):
    """how the caller's arrays are stored (the values are the same)"""
    return pick(rng, [None, None, None, "i8", "b1", "F", "view"])


def as_dtype(x, dtype):
    if x is None or dtype is None:
        return None if x is None else x.copy()
    if dtype == "F":
        return np.asfortranarray(x)
    if dtype == "view":        # not contiguous
        return np.repeat(x, 2, axis=-1)[..., ::2]
    return x.astype(dtype) if np.array_equal(x.astype(dtype).astype(float), x) else x.copy()


def build_mdp(spec):
    dt = spec.get("dtype")
    if dt is not None:
        spec = dict(spec, features=as_dtype(spec["features"], dt), walls=as_dtype(spec["walls"], dt))
        if "sas" in spec:
            spec["sas"] = as_dtype(spec["sas"], dt)
    if spec["kind"] in GRID:
        return GRID[spec["kind"]](features=spec["features"].copy(order="K"), walls=None if spec["walls"] is None else spec["walls"].copy(),
                                  shape=spec["shape"], self_transitions=spec["stay"])
    return MDP(spec["features"].copy(order="K"), spec["sas"].copy(order="K"),
               walls=None if spec["walls"] is None else spec["walls"].copy(), seed=spec.get("seed"))


def spec_sas(spec):
    """transitions the specification stands for, computed without the code under test"""
    if spec["kind"] in GRID:
        sas = ref.table_to_sas(ref.move_table(spec["kind"], spec["shape"], spec["stay"]))
    else:
        sas = spec["sas"].copy()
    return sas if spec["walls"] is None else ref.walled(sas, spec["walls"])


def movable(sas):
    return np.where((sas > 0).any(axis=(1, 2)))[0]


class TablePlanner(Algorithm):
    """A planner written by a user of the library: fixed preferences per state, impossible actions excluded.
    It records every call, so it also shows what the environment asks of a planner."""

    def __init__(self, table_seed=0, fail_at=None, levels=4):
        super().__init__()
        self.name = "table"
        self.calls = []
        self.table_seed, self.fail_at, self.levels = table_seed, fail_at, levels

    def _fit(self, mdp, reward_function, position, n_moves):
        self.calls.append({"n_moves": None if n_moves is None else [list(i) for i in n_moves], "position": int(position),
                           "reward": np.array(reward_function), "features": mdp.features.copy()})
        if self.fail_at is not None and len(self.calls) >= self.fail_at:
            raise RuntimeError("planner failed on purpose")
        g = np.random.default_rng([self.table_seed, mdp.n_states, mdp.n_actions])
        q = g.integers(0, self.levels, (mdp.n_states, mdp.n_actions)).astype(float)
        q[~(mdp.sas > 0).any(axis=2)] = -np.inf
        return q.max(axis=1), q


def reward_weights(rng, n, wide=True):
    u = rng.random()
    if u < 0.4:
        return rng.integers(-3, 4, n).astype(float)
    if u < 0.6:
        return np.round(rng.normal(size=n) * 2, 2)
    if u < 0.75:
        return rng.integers(0, 6, n).astype(float)
    if u < 0.92 and wide:      # full precision, possibly many orders of magnitude apart
        return rng.normal(size=n) * 10.0 ** rng.integers(-7, 4, 1 if coin(rng, 0.5) else n)
    return rng.integers(-3, 4, n)       # integer weights


def selector_spec(rng):
    sd = seed(rng) if coin(rng, 0.5) else None
    if coin(rng, 0.6):
        return ("max", {} if sd is None else {"seed": sd})
    kw = {"temperature": float(pick(rng, [0.05, 0.5, 1, 3]))}
    if sd is not None:
        kw["seed"] = sd
    return ("softmax", kw)


def env_spec(rng, planners=("table", "null", "vi"), n_agents=None, max_agents=4, consume=True, kinds=("square", "hex", "det", "stoch"),
             max_cells=25, mcts=None, **kw):
    """environment in which every agent starts at a state from which it can move"""
    for _ in range(200):
        ms = mdp_spec(rng, kinds=kinds, max_cells=max_cells, **kw)
        sas = spec_sas(ms)
        free = movable(sas)
        if len(free):
            break
    nf = ms["features"].shape[0]
    na = n_agents if n_agents is not None else int(rng.integers(1, max_agents + 1))
    if n_agents is None and max_agents >= 3 and kw.get("tail", True) and coin(rng, 0.03):
        na = int(rng.integers(max_agents + 1, 9))
    agents = []
    names = [pick(rng, ["a%d", "Agent %d", "π%d", "%d", "z %d"]) % k for k in (rng.permutation(12)[:na] if coin(rng, 0.5) else range(na))]
    crowd = coin(rng, 0.3)
    spot = pick(rng, free)
    near = np.unique(np.concatenate([[spot], ref.next_of(sas, spot)]))
    near = np.array([s for s in near if s in set(free.tolist())])
    for i in range(na):
        alg = pick(rng, planners)
        if alg == "vi":
            akw = {"discount": float(pick(rng, [0.3, 0.8, 0.9]))} if coin(rng, 0.7) else {}
        elif alg == "table":
            akw = {"table_seed": int(rng.integers(1000)), "levels": int(pick(rng, [1, 2, 5]))}
        elif alg in ("mcts", "imcts"):
            akw = mcts_kwargs(rng, alg == "imcts", mcts)
        else:
            akw = {}
        cons = []
        if consume and coin(rng, 0.75):
            k = int(rng.integers(1, nf + na + 1))
            cons = [int(c) for c in rng.permutation(nf + na)[:k] if c != nf + i]
            if coin(rng, 0.05):
                cons = cons + [nf + i]      # its own marker
            if coin(rng, 0.05):
                cons = [c - nf - na if coin(rng, 0.5) else c for c in cons]      # counted from the end
            if coin(rng, 0.04):
                cons = cons + [pick(rng, cons)] if cons else cons                # listed twice
        agents.append(dict(name=names[i], n_moves=int(rng.integers(1, 5)), alg=alg, alg_kwargs=akw,
                           selector=selector_spec(rng), position=int(pick(rng, near if crowd else free)),
                           reward=reward_weights(rng, nf + na), consumes=cons))
    return dict(mdp=ms, agents=agents)


def mcts_kwargs(rng, interactive, extra=None):
    kw = dict(n_iter=int(rng.integers(1, 25)) if coin(rng, 0.97) else int(rng.integers(25, 130)), n_steps=int(rng.integers(1, 8)) if coin(rng, 0.97) else int(rng.integers(15, 45)), C=float(pick(rng, [0, 0.5, 1, 5])),
              caught_cost=float(pick(rng, [-50, -3, 0, -50, -3, 0, -0.125, 2.5])), interactive=interactive, caching=coin(rng, 0.5),
              reset_cache=coin(rng, 0.5), return_states=True, return_other_agent_states=True)
    if interactive:
        kw["opponent_policy_method"] = pick(rng, ["solve", "solve", "random"])
        kw["opponent_action_selection"] = pick(rng, ["max", "max", "softmax"])
        if coin(rng, 0.3):
            kw["softmax_temperature"] = float(pick(rng, [0.1, 3, 20]))
        if coin(rng, 0.2):
            kw["VI_kwargs"] = pick(rng, [dict(VI_tol=1e-6), dict(VI_discount=0.6), dict(VI_max_iter=200, VI_discount=0.5)])
    kw.update(extra or {})
    return kw


def alg_class(name):
    if name == "vi":
        return ValueIteration
    if name == "null":
        return Null
    if name == "table":
        return TablePlanner
    from maMDP.algorithms.mcts import MCTS
    return MCTS


def build_agent(a):
    sel = MaxActionSelector if a["selector"][0] == "max" else SoftmaxActionSelector
    return Agent(a["name"], n_moves=a["n_moves"], algorithm=alg_class(a["alg"]), algorithm_kwargs=dict(a["alg_kwargs"]),
                 action_selector=sel, action_kwargs=dict(a["selector"][1]))


def build_env(spec, mdp=None):
    mdp = mdp if mdp is not None else build_mdp(spec["mdp"])
    return Environment(mdp, {build_agent(a): (a["position"], a["reward"].copy(), list(a["consumes"])) for a in spec["agents"]})


def describe(spec):
    """small JSON-able description for traces and samples"""
    def m(ms):
        d = {k: v for k, v in ms.items() if k not in ("features", "sas", "walls")}
        d["n_features"] = ms["features"].shape[0]
        d["n_states"] = ms["features"].shape[1]
        d["walls"] = None if ms["walls"] is None else np.where(ms["walls"])[0].tolist()
        return d
    if "mdp" in spec:
        return {"mdp": m(spec["mdp"]), "agents": [{k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in a.items()}
                                                  for a in spec["agents"]]}
    return m(spec)


def walk(rng, sas, start, n):
    """random legal walk"""
    t = [int(start)]
    for _ in range(n):
        nx = ref.next_of(sas, t[-1])
        if not len(nx):
            break
        t.append(int(pick(rng, nx)))
    return t


def hostile_q(rng, S, A):
    """action values with ties, huge magnitudes, minus infinity and missing entries"""
    u = rng.random()
    if u < 0.3:
        q = rng.integers(-2, 3, (S, A)).astype(float)
    elif u < 0.55:
        q = rng.normal(size=(S, A)) * float(pick(rng, [1e-12, 1e-3, 1, 30, 1e4, 1e150, 1e300]))
    elif u < 0.7:
        q = rng.normal(size=(S, A)) + float(pick(rng, [-1e6, 1e6, 1e12, -1e12]))
    elif u < 0.85:
        q = np.full((S, A), float(pick(rng, [0, 1, -1e9, 1e308, -1e308])))
    else:
        q = rng.integers(0, 2, (S, A)) * float(pick(rng, [1, 1e-300, 745, 1000]))
    q = q.astype(float)
    v = rng.random()
    if v < 0.5:
        q[rng.random((S, A)) < 0.3] = -np.inf
    w = rng.random()
    if w < 0.5:
        q[rng.random((S, A)) < 0.2] = np.nan
    if coin(rng, 0.2):
        q[rng.integers(S)] = np.nan
    if coin(rng, 0.2):
        q[rng.integers(S)] = -np.inf
    if coin(rng, 0.1):
        keep = int(rng.integers(S))
        q[[s for s in range(S) if s != keep]] = np.nan
    if np.all(np.isnan(q)):
        q[0, 0] = 1.0
    return q
