"""C10: soft value iteration returns the soft-Bellman fixed point."""
import numpy as np
from maMDP.algorithms.dynamic_programming import solve_value_iteration
from vlib import gen, ref

CASES = {"quick": 500, "thorough": 6000}
REQUIRE = ["plans", "dead_states", "impossible_actions", "stochastic_plans", "truncated_plans", "inference_plans", "beyond_exponentials"]
RULE = ("case = one MDP (grid with walls, custom deterministic or non-deterministic, dead ends), reward weights of any size up to values of 1e5, discount, "
        "tolerance and iteration limit; the result is compared with an independent soft fixed point and its residual; also through the "
        "planner embedded in reward inference; distinct = distinct (MDP, weights, discount)")
ASSUMPTIONS = ["weights are scaled so that action values stay within +-1e5"]


def warmup(ctx):
    m = gen.GRID["hex"](features=np.ones((1, 4)), shape=(2, 2))
    solve_value_iteration(np.array([1.0]), m.features, 5, 0.9, m.sas, 1e-8, True)
    solve_value_iteration(np.array([1.0]), m.features, max_iter=5, discount=0.9, sas=m.sas, tol=1e-8, soft=True)


def case(ctx, i):
    rng = ctx.rng
    spec = gen.mdp_spec(rng, kinds=("square", "hex", "det", "stoch"), max_cells=30, custom_walls=0.35)
    if gen.coin(rng, 0.35) and spec["kind"] in ("det", "stoch"):
        S, A, _ = spec["sas"].shape
        spec["sas"] = (gen.dir_sas if spec["kind"] == "det" else gen.stoch_sas)(rng, S, A, p_impossible=0.6, total=False)
    sas = gen.spec_sas(spec)
    m = gen.build_mdp(spec)
    nf = spec["features"].shape[0]
    gamma = float(gen.pick(rng, [0.05, 0.5, 0.8, 0.9, 0.9, 0.95]))
    tol = float(gen.pick(rng, [1e-8, 1e-8, 1e-5, 1e-10]))
    max_iter = int(gen.pick(rng, [500, 500, 2000, 20, 3]))
    theta = gen.reward_weights(rng, nf).astype(float)
    r = theta @ spec["features"]
    top = float(gen.pick(rng, [250, 250, 1000, 1e5]))
    room = top * (1 - gamma) - np.log(sas.shape[1])
    if np.abs(r).max() > room:
        theta = theta * (room / np.abs(r).max())
        r = theta @ spec["features"]
    elif gen.coin(rng, 0.3) and np.abs(r).max() > 0:
        theta = theta * (room / np.abs(r).max()) * rng.random()
        r = theta @ spec["features"]
    ctx.desc = dict(gen.describe(spec), gamma=gamma, tol=tol, max_iter=max_iter, theta=theta)
    V, Q = solve_value_iteration(np.array(theta), m.features, max_iter, gamma, m.sas, tol, True)
    V, Q = np.asarray(V), np.asarray(Q)
    Vs, Qs = ref.soft_fixed_point(sas, r, gamma)
    ok = ref.valid_mask(sas)
    scale = np.abs(Vs).max() + np.abs(r).max() + 1
    bound = max(tol / (1 - gamma), gamma ** max_iter * np.abs(Vs).max()) * (1 + 1e-9) + 1e-9 * scale
    ctx.check(np.all(np.isneginf(Q[~ok])), "impossible action has a value")
    ctx.check(np.all(np.isfinite(Q[ok])) and np.all(np.isfinite(V)), "non-finite value", V=V)
    e = np.abs(V - Vs)
    ctx.check(e.max() <= bound, "state value is not the soft optimum", state=int(e.argmax()), got=V[e.argmax()], want=Vs[e.argmax()], bound=bound)
    if ok.any():
        e = np.where(ok, np.abs(np.where(ok, Q, 0) - np.where(ok, Qs, 0)), 0)
        s, a = np.unravel_index(e.argmax(), e.shape)
        ctx.check(e.max() <= bound, "action value is not the soft optimum", state=int(s), action=int(a), got=Q[s, a], want=Qs[s, a], bound=bound)
        alive = ok.any(axis=1)
        res = np.abs(ref.lse(Q[alive]) - V[alive]).max()
        ctx.check(res <= 1e-9 * scale, "state value is not the log-sum-exp of its possible actions", residual=res)
    dead = ~ok.any(axis=1)
    ctx.check(np.all(V[dead] == 0), "state without moves has a value", got=V[dead])
    if gen.coin(rng, 0.3):      # the planner inside reward inference is the same one
        from maMDP.algorithms.irl import MaxCausalEntIRL
        if len(gen.movable(sas)) == sas.shape[0]:
            irl = MaxCausalEntIRL(max_iter_irl=1, theta=theta.copy(), VI_discount=gamma, VI_max_iter=max_iter, tol=tol, soft=True)
            t = gen.walk(rng, sas, int(rng.integers(sas.shape[0])), 3)
            irl.fit(m, [t], show_progress=False)
            ctx.check(np.allclose(np.asarray(irl.q_values), Q, rtol=1e-9, atol=1e-9), "inference planned with different soft values")
            ctx.n("inference_plans")
    if np.abs(Vs).max() > 460:
        ctx.n("beyond_exponentials")
    ctx.n("plans"); ctx.n("dead_states", int(dead.sum())); ctx.n("impossible_actions", int((~ok).sum()))
    if spec["kind"] == "stoch":
        ctx.n("stochastic_plans")
    if max_iter <= 20:
        ctx.n("truncated_plans")
    ctx.sig(ctx.desc)
    ctx.sample(desc=ctx.desc, max_error=float(np.abs(V - Vs).max()), bound=bound)
