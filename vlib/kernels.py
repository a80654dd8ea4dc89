"""Kernel calls for C28, run identically in differently built processes (compiled, bounds-checked, interpreted).

run(seed, i) generates the calls of batch i (the same in every process), performs them and returns a list of records
(name, outcome, modified) where outcome is ("ok", plain result) or ("raised", class name) and modified names the read-only
arguments the call changed.
"""
import importlib
import os
import pickle
import sys
import numpy as np
from . import gen, ref

MOD = {"dp": "maMDP.algorithms.dynamic_programming", "irl": "maMDP.algorithms.irl", "mcts": "maMDP.algorithms.mcts", "act": "maMDP.algorithms.action_selection",
       "sr": "maMDP.algorithms.successor_representation", "grid": "maMDP.grid_utils"}
_seed = None


def seed(s):
    """seeds whichever generator the kernels use in this process"""
    global _seed
    np.random.seed(s)
    if os.environ.get("NUMBA_DISABLE_JIT") == "1":
        return
    if _seed is None:
        from numba import njit

        @njit
        def f(k):
            np.random.seed(k)
        _seed = f
    _seed(s)


def kernel(mod, name):
    return getattr(importlib.import_module(MOD[mod]), name, None)


def plain(r):
    if isinstance(r, tuple) or isinstance(r, list):
        return [plain(x) for x in r]
    if isinstance(r, np.ndarray):
        return r.astype(float) if r.dtype.kind in "bifu" else r
    if r is None or isinstance(r, str):
        return r
    return float(r)


def outcome(f):
    try:
        return ("ok", plain(f()))
    except MemoryError:
        raise
    except Exception as e:
        n = type(e).__name__
        return ("raised", "TypeError" if n in ("TypingError", "UnsupportedError", "LoweringError") else n, str(e)[:300])


def sizes(rng):
    u = rng.random()
    S = 1 if u < 0.08 else 2 if u < 0.2 else int(rng.integers(2, 11))
    A = 1 if rng.random() < 0.15 else int(rng.integers(1, 7))
    nf = 1 if rng.random() < 0.3 else int(rng.integers(1, 5))
    return S, A, nf


def run(base, i, mcts=True):
    rng = np.random.default_rng([base, 28, i])
    out = []

    def call(name, f, args, frozen, kwargs=None, sd=None):
        if f is None:
            return
        before = [np.array(args[k]).copy() for k in frozen]
        if sd is not None:
            seed(sd)
        r = outcome(lambda: f(*args, **(kwargs or {})))
        mod = [k for k, b in zip(frozen, before) if not np.array_equal(b, args[k], equal_nan=True)]
        out.append((name, r, mod))

    S, A, nf = sizes(rng)
    u = rng.random()
    sas = gen.dir_sas(rng, S, A, total=gen.coin(rng, 0.6)) if u < 0.5 or S == 1 else gen.stoch_sas(rng, S, A, total=gen.coin(rng, 0.6))
    if gen.coin(rng, 0.4):
        sas = ref.walled(sas, gen.walls(rng, S))
    F = gen.features(rng, nf, S)
    scale = float(gen.pick(rng, [1, 1, 1e-6, 20]))
    rew = rng.normal(size=nf) * scale
    disc, tol, it = float(gen.pick(rng, [0.1, 0.5, 0.9])), float(gen.pick(rng, [1e-8, 1e-3])), int(gen.pick(rng, [1, 2, 7, 40]))
    V = rng.normal(size=S) * scale
    R = rng.normal(size=S) * scale
    s = int(rng.integers(S))
    soft = gen.coin(rng, 0.4)
    call("solve_value_iteration", kernel("dp", "solve_value_iteration"), (rew, F, it, disc, sas, tol, soft), (0, 1, 4))
    call("get_state_action_values", kernel("dp", "get_state_action_values"), (s, A, sas, R, disc, V), (2, 3, 5))
    call("delta_update", kernel("dp", "delta_update"), (float(rng.random()), float(V[0]), float(V[-1])), ())
    call("state_value_iterator", kernel("dp", "state_value_iterator"), (V.copy(), 0.0, R, disc, sas, soft), (2, 4))
    q = rng.normal(size=A) * float(gen.pick(rng, [1, 1e-9, 300, 1e200])) + float(gen.pick(rng, [0, 0, 1e9, -1e9]))
    if gen.coin(rng, 0.4):
        q[rng.random(A) < 0.4] = -np.inf
    call("softmax", kernel("act", "softmax"), (q, float(gen.pick(rng, [0.01, 0.5, 1, 50]))), (0,))
    x = rng.normal(size=(int(rng.integers(1, 6)), nf)) * scale
    call("demean", kernel("irl", "demean"), (x,), (0,))
    x2 = x.copy()
    if gen.coin(rng, 0.4):
        x2[rng.random(x2.shape) < 0.2] = -np.inf
    call("zscore", kernel("irl", "zscore_nb"), (x2.copy(),), ())
    pi = rng.dirichlet(np.ones(A), S)
    p0 = rng.dirichlet(np.ones(S))
    call("state_visitation_iterator", kernel("irl", "state_visitation_iterator"), (sas, int(rng.integers(0, 12)), pi, p0), (0, 2, 3))
    big = 60 if gen.coin(rng, 0.8) else 10 ** 6
    c = rng.integers(-big, big, (int(rng.integers(1, 7)), 2))
    d = rng.integers(-big, big, (int(rng.integers(1, 7)), 2))
    call("hex_dist", kernel("grid", "hex_dist"), (c, d), (0, 1))
    call("offset_distance", kernel("grid", "offset_distance"), (int(c[0, 0]), int(c[0, 1]), int(d[0, 0]), int(d[0, 1])), ())
    call("offset_to_cube", kernel("grid", "offset_to_cube"), (int(c[0, 0]), int(c[0, 1])), ())
    a3, b3 = rng.integers(-9, 9, 3).astype(float), rng.integers(-9, 9, 3).astype(float)
    call("cube_distance", kernel("grid", "cube_distance"), (a3, b3), (0, 1))
    k = int(rng.integers(1, 8))
    p = rng.dirichlet(np.ones(k) * float(gen.pick(rng, [0.2, 1, 5])))
    if gen.coin(rng, 0.3):
        p[rng.integers(k)] = 0
    if p.sum() > 0:
        for e in range(3):
            call("rand_choice_nb", kernel("mcts", "rand_choice_nb"), (np.arange(k), p), (0, 1), sd=int(rng.integers(2 ** 31)))
    call("get_actions_states", kernel("mcts", "get_actions_states"), (sas, s), (0,))
    N = rng.integers(0, 4, S).astype(float)
    call("get_MCTS_action_values", kernel("mcts", "get_MCTS_action_values"), (s, sas, V, N), (1, 2, 3))
    states = np.where((sas[s] > 0).any(axis=0))[0]
    C = float(gen.pick(rng, [0.0, 1.0, 5.0]))
    if len(states):
        call("UCB", kernel("mcts", "UCB"), (V, N, states, C, s), (0, 1, 2))
        call("MCTS_next_node", kernel("mcts", "MCTS_next_node"), (True, V, N + 1, states, C, s), (1, 2, 3))
        if len(np.unique(N[states])) and (N[states] == 0).sum() == 1:      # a single unvisited state: no choice
            call("MCTS_next_node", kernel("mcts", "MCTS_next_node"), (True, V, N, states, C, s), (1, 2, 3))
        call("MCTS_next_node_any", kernel("mcts", "MCTS_next_node"), (gen.coin(rng, 0.5), V, N, states, C, s), (1, 2, 3), sd=3)
        det = gen.dir_sas(rng, S, A)
        st = np.where((det[s] > 0).any(axis=0))[0]
        rw = rng.normal(size=nf)
        name = "get_opponent_next_state"
        if len(st):
            args = (gen.pick(rng, ["solve", "solve", "random"]), st, s, rw, F, det, np.zeros((1, 1)), "value_iteration",
                    gen.pick(rng, ["max", "softmax"]), float(gen.pick(rng, [0.5, 1.0])), it, 0.5, 1e-4)
            best = np.sort(np.where((det[s] > 0).any(axis=1), ref.optimal(det, rw @ F, 0.5)[1][s], -1e9))[::-1]
            clear = len(best) == 1 or best[0] - best[1] > 1e-3      # otherwise rounding may settle a tie differently
            call(name if args[0] == "solve" and args[8] == "max" and clear and it > 20 else name + "_random", kernel("mcts", name), args, (1, 3, 4, 5), sd=5)
    n = int(rng.integers(1, 5))
    call("check_agent_overlap", kernel("mcts", "check_agent_overlap"),
         (rng.random((n, n)) < 0.4, rng.integers(0, 3, n), -3.5, rng.random(n) < 0.8, tuple(float(v) for v in rng.normal(size=n))), (0, 1))
    if S * A <= 40:
        sr = outcome(lambda: kernel("sr", "get_sa_sr")(sas, 0.9)) if kernel("sr", "get_sa_sr") else None
        out.append(("get_sa_sr", sr, []))
        if sr and sr[0] == "ok":
            call("get_sr_q_values", kernel("sr", "get_sr_q_values"), (rew, F, np.array(sr[1]), sas, S, A), (0, 1, 2, 3))
    # whole operations at the public interface
    out += public(rng, mcts)
    return out


LARGE = 6      # batches on larger arrays, compared between one and several threads


def large(base, i):
    """calls on arrays large enough to be worth sharing between threads"""
    rng = np.random.default_rng([base, 29, i])
    out = []

    def call(name, f, args, frozen):
        if f is not None:
            before = [np.array(args[k]).copy() for k in frozen]
            r = outcome(lambda: f(*args))
            out.append((name, r, [k for k, b in zip(frozen, before) if not np.array_equal(b, args[k], equal_nan=True)]))

    S, A, nf = int(rng.integers(30, 70)), int(rng.integers(2, 5)), int(rng.integers(1, 4))
    sas = gen.stoch_sas(rng, S, A) if i % 2 else gen.dir_sas(rng, S, A)
    F = gen.features(rng, nf, S)
    rew = rng.normal(size=nf)
    R, V = rng.normal(size=S), rng.normal(size=S)
    pi, p0 = rng.dirichlet(np.ones(A), S), rng.dirichlet(np.ones(S))
    call("state_visitation_iterator", kernel("irl", "state_visitation_iterator"), (sas, 6, pi, p0), (0, 2, 3))
    for soft in (False, True):
        call("solve_value_iteration", kernel("dp", "solve_value_iteration"), (rew, F, 6, 0.8, sas, 1e-8, soft), (0, 1, 4))
        call("state_value_iterator", kernel("dp", "state_value_iterator"), (V.copy(), 0.0, R, 0.8, sas, soft), (2, 4))
    call("demean", kernel("irl", "demean"), (rng.normal(size=(60, 5)),), (0,))
    call("zscore", kernel("irl", "zscore_nb"), (rng.normal(size=(60, 5)),), ())
    c, d = rng.integers(-60, 60, (S, 2)), rng.integers(-60, 60, (S, 2))
    call("hex_dist", kernel("grid", "hex_dist"), (c, d), (0, 1))
    s2 = sas[:12, :2, :12].copy()
    s2[:, :, 0] += 1e-3
    s2 /= s2.sum(axis=2, keepdims=True)
    call("get_sa_sr", kernel("sr", "get_sa_sr"), (s2, 0.9), (0,))
    q = rng.normal(size=500)
    call("softmax", kernel("act", "softmax"), (q, 0.5), (0,))
    call("get_actions_states", kernel("mcts", "get_actions_states"), (sas, 0), (0,))
    from maMDP.algorithms.dynamic_programming import ValueIteration
    from maMDP.algorithms.irl import MaxCausalEntIRL
    m = gen.GRID["hex" if i % 2 else "square"](features=F[:, :30].copy(), shape=(6, 5))
    vi = ValueIteration(discount=0.5, max_iter=10)
    out.append(("public_value_iteration", outcome(lambda: (vi.fit(m, rew, 0), vi.values, vi.q_values)[1:]), []))
    out.append(("public_maxent", outcome(lambda: MaxCausalEntIRL(max_iter_irl=2, VI_max_iter=4, learning_rate=0.05, soft=True).fit(
        m, [[0, 1]], show_progress=False)), []))
    return out


def public(rng, mcts):
    from maMDP.algorithms.dynamic_programming import ValueIteration
    from maMDP.algorithms.action_selection import SoftmaxActionSelector
    from maMDP.algorithms.irl import MaxCausalEntIRL, HyptestIRL
    out = []
    spec = gen.mdp_spec(rng, max_cells=9)
    sas = gen.spec_sas(spec)
    free = gen.movable(sas)
    nf = spec["features"].shape[0]
    r = outcome(lambda: gen.build_mdp(spec).sas)
    out.append(("public_build", r, []))
    if r[0] != "ok" or not len(free):
        return out
    m = gen.build_mdp(spec)
    keep = m.features.copy(), m.sas.copy()
    changed = lambda: [k for k, a, b in (("features", keep[0], m.features), ("sas", keep[1], m.sas)) if not np.array_equal(a, b)]
    w = gen.reward_weights(rng, nf)
    w = w.astype(float)
    vi = ValueIteration(discount=0.5, max_iter=30)
    out.append(("public_value_iteration", outcome(lambda: (vi.fit(m, w, 0), vi.values, vi.q_values)[1:]), changed()))
    if vi.q_values is not None:
        sel = SoftmaxActionSelector(temperature=0.7)
        q = vi.q_values.copy()
        out.append(("public_softmax", outcome(lambda: sel.get_pi_p(vi.q_values)), ["q"] if not np.array_equal(q, vi.q_values) else []))
    tr = [gen.walk(rng, sas, gen.pick(rng, free), int(rng.integers(1, 5))) for _ in range(int(rng.integers(1, 3)))]
    out.append(("public_maxent", outcome(lambda: MaxCausalEntIRL(max_iter_irl=2, VI_max_iter=4, learning_rate=0.05, soft=True).fit(
        m, tr, show_progress=False)), changed()))
    if gen.coin(rng, 0.4):
        out.append(("public_hyptest", outcome(lambda: HyptestIRL(normalisation="z-score", VI_max_iter=5).fit(m, tr, show_progress=False)), changed()))
    if mcts:
        es = gen.env_spec(rng, planners=("imcts", "mcts"), max_agents=2, kinds=("square", "hex", "det"), max_cells=9,
                          mcts={"n_iter": 4, "n_steps": 4, "VI_kwargs": {"VI_max_iter": 5}})
        s2 = gen.spec_sas(es["mdp"])
        stuck = ~(s2 > 0).any(axis=(1, 2))
        if not (s2[:, :, stuck] > 0).any():
            env = gen.build_env(es)
            n = es["agents"][0]["name"]
            seed(int(rng.integers(2 ** 31)))
            f0, t0 = env.mdp.features.copy(), env.mdp.sas.copy()
            r = outcome(lambda: (env.fit(n), env.get_agent_q_values(n))[1])
            if r[0] == "ok":
                r = ("ok", np.isfinite(r[1]).astype(float))      # which actions were valued; the estimates are random
            ch = [] if np.array_equal(f0, env.mdp.features) and np.array_equal(t0, env.mdp.sas) else ["environment"]
            out.append(("public_tree_search", r, ch))
    return out


def main():
    """python -m vlib.kernels SEED FIRST STRIDE COUNT FILE MODE"""
    base, first, stride, count, path, mode = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], sys.argv[6]
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    res = {}
    if mode == "threaded_build":
        for i in range(LARGE):
            res[-1 - i] = [large(base, i) for _ in range(60)]
        count = 0
    elif mode == "interpreter":
        for i in range(first, LARGE, stride):
            res[-1 - i] = large(base, i)
    for i in range(first, count, stride):
        with open(path + ".at", "w") as f:
            f.write(str(i))
        res[i] = run(base, i)
    with open(path, "wb") as f:
        pickle.dump(res, f)


if __name__ == "__main__":
    main()
