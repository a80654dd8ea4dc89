"""C22: the successor representation satisfies its recursion."""
import numpy as np
from maMDP.algorithms.successor_representation import get_sa_sr, get_sr_q_values
from vlib import gen, ref

CASES = {"quick": 700, "thorough": 7000}
REQUIRE = ["recursions", "q_values", "impossible_pairs", "walled_mdps"]
RULE = ("case = one deterministic MDP (grid with walls, custom with dead ends, 1-25 states), discount, features and weights; residual of "
        "the recursion and the action values against an independently built one-step matrix; distinct = distinct (MDP, discount)")


def warmup(ctx):
    sas = ref.table_to_sas(ref.move_table("square", (2, 2), False))
    sr = get_sa_sr(sas, 0.9)
    get_sr_q_values(np.array([1.0]), np.ones((1, 4)), sr, sas, 4, 4)
    get_sa_sr(sas)


def case(ctx, i):
    rng = ctx.rng
    spec = gen.mdp_spec(rng, kinds=("square", "hex", "det"), max_cells=25, custom_walls=0.35)
    if spec["kind"] == "det" and gen.coin(rng, 0.5):
        S, A, _ = spec["sas"].shape
        spec["sas"] = gen.dir_sas(rng, S, A, 0.6, total=False)
    m = gen.build_mdp(spec)
    sas = gen.spec_sas(spec)
    S, A, _ = sas.shape
    gamma = float(gen.pick(rng, [0.05, 0.5, 0.9, 0.95, 0.99]))
    ctx.desc = dict(gen.describe(spec), gamma=gamma)
    default = gen.coin(rng, 0.15)
    if default:
        gamma = 0.95
        M = np.asarray(get_sa_sr(m.sas))
    else:
        M = np.asarray(get_sa_sr(m.sas, gamma))
    ctx.check(M.shape == (S * A, S * A), "wrong shape", got=M.shape)
    T = np.zeros((S * A, S * A))
    for s in range(S):
        for a in range(A):
            if sas[s, a].any():
                t = int(np.argmax(sas[s, a]))
                T[s * A + a, t * A:(t + 1) * A] = 1 / A
            else:
                ctx.n("impossible_pairs")
    res = np.abs(M - (np.eye(S * A) + gamma * T @ M)).max()
    ctx.check(res < 1e-8 / (1 - gamma), "successor recursion broken", residual=res)
    ctx.check(M.min() > -1e-9 and np.all(M.sum(axis=1) < 1 / (1 - gamma) + 1e-6), "successor counts out of range")
    ctx.n("recursions")
    theta = gen.reward_weights(rng, spec["features"].shape[0]).astype(float)
    Q = np.asarray(get_sr_q_values(theta, m.features, M, m.sas, S, A))
    want = (M @ np.repeat(theta @ spec["features"], A)).reshape(S, A)
    ok = ref.valid_mask(sas)
    ctx.check(Q.shape == (S, A), "wrong shape of action values")
    ctx.check(np.all(np.isneginf(Q[~ok])), "impossible action has a value")
    unit = np.abs(M) @ np.repeat(np.abs(theta) @ np.abs(spec["features"]), A)       # scale of the rounding error of each value
    ctx.check(np.all(np.abs(np.where(ok, Q - want, 0)) <= 1e-9 * unit.reshape(S, A)), "action values differ", got=Q, want=want)
    ctx.n("q_values"); ctx.n("walled_mdps", int(spec["walls"] is not None and spec["walls"].any()))
    ctx.sig(ctx.desc)
    ctx.sample(desc=ctx.desc, residual=float(res))
