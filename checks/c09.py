"""C09: value iteration returns the optimal values and action values."""
import numpy as np
from maMDP.algorithms.dynamic_programming import ValueIteration
from vlib import gen, ref

CASES = {"quick": 420, "thorough": 5000}
REQUIRE = ["plans", "plans_in_environment", "dead_states", "impossible_actions", "stochastic_plans", "truncated_plans", "refits", "negative_optima"]
RULE = ("case = one MDP (grid with walls, custom deterministic or non-deterministic, with dead ends), reward weights over several orders "
        "of magnitude and signs, discount 0.01-0.99, tolerance and iteration limit; every state and action value is compared with an "
        "independent policy-iteration solution; distinct = distinct (MDP, weights, discount) with a non-zero reward somewhere")
ASSUMPTIONS = ["error bound used: max(tol/(1-g), g^max_iter * |V*|) plus floating-point slack"]


def warmup(ctx):
    m = gen.GRID["hex"](features=np.ones((1, 4)), shape=(2, 2))
    ValueIteration().fit(m, np.array([1.0]), 0)


def judge(ctx, alg, sas, r, gamma, tol, max_iter):
    """compares a fitted planner with the independent solution"""
    V, Q = np.asarray(alg.values), np.asarray(alg.q_values)
    Vs, Qs = ref.optimal(sas, r, gamma)
    ok = ref.valid_mask(sas)
    ctx.check(V.shape == Vs.shape and Q.shape == Qs.shape, "wrong shape")
    scale = np.abs(r).max() / (1 - gamma)
    bound = max(tol / (1 - gamma), gamma ** max_iter * np.abs(Vs).max()) * (1 + 1e-9) + 1e-9 * scale + 1e-13
    ctx.check(np.all(np.isneginf(Q[~ok])), "impossible action has a value", where=np.argwhere(~ok & ~np.isneginf(Q))[:3])
    ctx.check(np.all(np.isfinite(Q[ok])) and np.all(np.isfinite(V)), "non-finite value")
    e = np.abs(V - Vs)
    ctx.check(e.max() <= bound, "state value is not optimal", state=int(e.argmax()), got=V[e.argmax()], want=Vs[e.argmax()], bound=bound)
    if ok.any():
        e = np.where(ok, np.abs(np.where(ok, Q, 0) - np.where(ok, Qs, 0)), 0)
        s, a = np.unravel_index(e.argmax(), e.shape)
        ctx.check(e.max() <= bound, "action value is not optimal", state=int(s), action=int(a), got=Q[s, a], want=Qs[s, a], bound=bound)
        # each action value is the expected next reward plus the discounted value (values may still move by the tolerance)
        slack = max(tol, gamma ** max_iter * 2 * np.abs(Vs).max() / max(gamma, 1e-3)) + 1e-9 * scale + 1e-13
        res = np.abs(np.where(ok, Q, 0) - np.where(ok, ref.bellman_q(sas, r, gamma, V), 0)).max()
        ctx.check(res <= slack, "action value is not reward plus discounted value", residual=res, slack=slack)
    dead_s = ~ok.any(axis=1)
    ctx.check(np.all(V[dead_s] == 0), "state without moves has a value", got=V[dead_s])
    return Vs, ok


def twin(rng, spec):
    """a world of single-action states next to its mirror image with negated features (changes cancel out in sums)"""
    S = int(rng.integers(1, 6))
    nf = spec["features"].shape[0]
    half = np.zeros((S, 1, S))
    half[np.arange(S), 0, rng.integers(0, S, S)] = 1
    sas = np.zeros((2 * S, 1, 2 * S))
    sas[:S, :, :S] = half
    sas[S:, :, S:] = half
    f = gen.features(rng, nf, S, gen.pick(rng, ["binary", "signed"]))
    return dict(kind="det", sas=sas, features=np.hstack([f, -f]), walls=None, seed=None)


def refits(ctx, rng, alg, spec, m, gamma, tol, max_iter):
    """one planner used again and again: on edited walls, other probabilities, other features, other weights, other settings"""
    nf, ns = m.n_features, m.n_states
    base = gen.spec_sas(dict(spec, walls=None))
    for _ in range(3):
        u = gen.pick(rng, ["walls", "probabilities", "features", "weights", "settings", "same"])
        if u == "walls":
            m.walls = gen.walls(rng, ns, float(gen.pick(rng, [0.1, 0.3])))
        elif u == "probabilities":
            from maMDP.mdp import MDP
            sas = np.array(m.sas)
            sas = sas * rng.uniform(0.2, 1.0, sas.shape)
            tot = sas.sum(axis=-1, keepdims=True)
            sas = np.divide(sas, tot, out=np.zeros_like(sas), where=tot > 0)
            m = MDP(np.array(m.features), sas)
            base = sas
        elif u == "features":
            m.features = gen.features(rng, nf, ns)
        elif u == "settings":
            gamma = alg.discount = float(gen.pick(rng, [0.1, 0.6, 0.9]))
        theta = gen.reward_weights(rng, nf) if u == "weights" or _ == 0 else theta
        alg.fit(m, np.array(theta), int(rng.integers(ns)))
        judge(ctx, alg, ref.walled(base, np.asarray(m.walls)), np.asarray(theta, float) @ np.asarray(m.features, float), gamma, tol, max_iter)
        ctx.n("refits")


def case(ctx, i):
    rng = ctx.rng
    dead = gen.coin(rng, 0.35)
    spec = gen.mdp_spec(rng, kinds=("square", "hex", "det", "stoch"), max_cells=36 if rng.random() < 0.9 else 100, custom_walls=0.35)
    if gen.coin(rng, 0.06):
        spec = twin(rng, spec)
        dead = False
    if dead and spec["kind"] in ("det", "stoch"):
        S, A, _ = spec["sas"].shape
        spec["sas"] = (gen.dir_sas if spec["kind"] == "det" else gen.stoch_sas)(rng, S, A, p_impossible=0.6, total=False)
    nf = spec["features"].shape[0]
    gamma = float(gen.pick(rng, [0.01, 0.3, 0.5, 0.9, 0.9, 0.95, 0.99]))
    tol = float(gen.pick(rng, [1e-8, 1e-8, 1e-4, 1e-10, 1e-2]))
    max_iter = int(gen.pick(rng, [500, 500, 3000, 3000, 50, 7, 2, 1]))
    theta = gen.reward_weights(rng, nf)
    if gen.coin(rng, 0.3):
        theta = theta * float(gen.pick(rng, [1e-4, 100, 1e5]))
    if gen.coin(rng, 0.25):
        theta = -np.abs(theta)
    ctx.desc = dict(gen.describe(spec), gamma=gamma, tol=tol, max_iter=max_iter, theta=theta)
    m = gen.build_mdp(spec)
    sas = gen.spec_sas(spec)
    if gen.coin(rng, 0.3) and len(gen.movable(sas)):
        from maMDP.environments import Environment
        na = int(rng.integers(1, 4))
        ags, pos = {}, []
        for k in range(na):
            a = dict(name="a%d" % k, n_moves=1, alg="vi", alg_kwargs=dict(discount=gamma, tol=tol, max_iter=max_iter), selector=("max", {}))
            pos.append(int(rng.integers(sas.shape[0])))
            w = np.concatenate([theta, gen.reward_weights(rng, na)])
            ags[gen.build_agent(a)] = (pos[k], w, [])
            if k == 0:
                w0 = w
        env = Environment(m, ags)
        env.fit("a0")
        alg = env.agents["a0"].algorithm
        rows = np.zeros((na, sas.shape[0]))
        rows[np.arange(na), pos] = 1
        r = np.asarray(w0, float) @ np.vstack([spec["features"], rows])
        ctx.n("plans_in_environment")
        ctx.check(env.get_agent_q_values("a0") is alg.q_values or np.array_equal(env.get_agent_q_values("a0"), alg.q_values), "queried action values differ")
    else:
        alg = ValueIteration(discount=gamma, tol=tol, max_iter=max_iter)
        alg.fit(m, np.array(theta), int(rng.integers(sas.shape[0])))
        r = np.asarray(theta, float) @ spec["features"]
    Vs, ok = judge(ctx, alg, sas, r, gamma, tol, max_iter)
    dead_s = ~ok.any(axis=1)
    if gen.coin(rng, 0.5):
        refits(ctx, rng, alg, spec, m, gamma, tol, max_iter)
    ctx.n("plans"); ctx.n("dead_states", int(dead_s.sum())); ctx.n("impossible_actions", int((~ok).sum()))
    ctx.n("state_values_compared", len(Vs))
    if spec["kind"] == "stoch":
        ctx.n("stochastic_plans")
    if max_iter < 50:
        ctx.n("truncated_plans")
    if (Vs < 0).any():
        ctx.n("negative_optima")
    if np.abs(r).max() > 0:
        ctx.sig(ctx.desc)
    ctx.sample(desc=ctx.desc, worst=float(np.abs(Vs).max()))
