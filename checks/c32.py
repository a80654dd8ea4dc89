"""C32: a greedy planning agent earns the value it planned."""
import numpy as np
from vlib import gen, ref, warm

CASES = {"quick": 1500, "thorough": 15000}
REQUIRE = ["walks", "moves", "replanned", "not_replanned", "step_multi", "single_steps", "interactive", "tail_negligible", "other_agents", "walled",
           "finite_horizon_compared", "repositioned"]
RULE = ("case = one deterministic MDP, reward weights, discount; the agent is put somewhere, plans, and is moved n times with or without re-planning; "
        "the discounted reward of the states entered plus the discounted value of the last one is compared with the planned value, with the "
        "independent optimum and with the best sequence of n moves; distinct = distinct (MDP, weights, start, n) walks that earn something")
ASSUMPTIONS = ["discounts up to 0.9, so that the default number of planning iterations is enough", "nothing is consumed and only this agent moves"]


def warmup(ctx):
    warm.vi()


def best_of(sas, r, g, n, s):
    """largest discounted reward over n moves, by backward induction (deterministic or not)"""
    ok = ref.valid_mask(sas)
    H = np.zeros(sas.shape[0])
    for _ in range(n):
        q = np.where(ok, sas @ (r + g * H), -np.inf)
        H = np.where(ok.any(axis=1), q.max(axis=1), 0.0)      # stuck states are never entered here
    return H[s]


def case(ctx, i):
    rng = ctx.rng
    g = float(gen.pick(rng, [0.1, 0.5, 0.8, 0.9]))
    spec = gen.env_spec(rng, planners=("vi",), max_agents=3, consume=False, kinds=("square", "hex", "det"), max_cells=25)
    me = int(rng.integers(len(spec["agents"])))
    a = spec["agents"][me]
    name = a["name"]
    a["selector"] = ("max", a["selector"][1] if a["selector"][0] == "max" else {})
    a["alg_kwargs"] = {"discount": g} if g != 0.9 or gen.coin(rng, 0.5) else {}
    nf = spec["mdp"]["features"].shape[0]
    a["reward"][nf + me] = 0
    sas = gen.spec_sas(spec["mdp"])
    free = gen.movable(sas)
    # states that can be entered but not left end a walk; the agent could not be asked to go on
    stuck = ~(sas > 0).any(axis=(1, 2))
    if (sas[:, :, stuck] > 0).any():
        return
    env = gen.build_env(spec)
    ctx.desc = gen.describe(spec)
    if spec["mdp"]["walls"] is not None and spec["mdp"]["walls"].any():
        ctx.n("walled")
    if len(spec["agents"]) > 1:
        ctx.n("other_agents")
    for walk in range(3):
        if gen.coin(rng, 0.5):
            env.set_agent_position(name, int(gen.pick(rng, free)))
            ctx.n("repositioned")
        F = np.array(env.mdp.features)
        F[nf + me] = 0
        w = np.asarray(a["reward"], float)
        r = w @ F
        V, _ = ref.optimal(sas, r, g)
        s0 = int(env.agents[name].position)
        n = int(gen.pick(rng, [1, 2, 3, 5, 8, 15, 40, 120]))
        how = int(rng.integers(4))
        refit = gen.coin(rng, 0.5)
        env.fit(name)
        planned = float(env.agents[name].algorithm.values[s0])
        scale = 1e-6 * (1 + np.abs(r).max() / (1 - g)) / (1 - g)
        ctx.check(abs(planned - V[s0]) < scale, "planned value is not the optimal value", planned=planned, optimal=V[s0], start=s0)
        path = []
        if how == 0:
            for _ in range(n):
                if refit:
                    env.fit(name)
                path.append(int(env.step(name)))
            ctx.n("single_steps")
        elif how == 1:
            h = len(env.get_agent_position_history(name))
            env.step_multi(name, n_steps=n, refit=refit)
            path = [int(s) for s in env.get_agent_position_history(name)[h:]]
            ctx.n("step_multi")
        elif how == 2:
            left = n
            while left:
                k = min(left, int(rng.integers(1, 6)))
                path += [int(s) for s in env.step_multi(name, n_steps=k, refit=refit)]
                left -= k
            ctx.n("step_multi")
        else:
            h = len(env.get_agent_position_history(name))
            env.step_multi_interactive([name], n_moves=[[n]], refit=refit)
            path = [int(s) for s in env.get_agent_position_history(name)[h:]]
            ctx.n("interactive")
        ctx.n("replanned" if refit else "not_replanned")
        ctx.check(len(path) == n, "wrong number of moves", got=len(path), want=n)
        ret, disc, s = 0.0, 1.0, s0
        for t in path:
            ctx.check((sas[s, :, t] > 0).any(), "walk contains an impossible move", frm=s, to=t)
            ret += disc * r[t]
            disc *= g
            s = t
        ctx.check(abs(ret + disc * V[s] - planned) < 3 * scale, "realised return plus the remaining value is not the planned value", start=s0, path=path[:30],
                  moves=n, got=ret, tail=disc * V[s], planned=planned, refit=refit, discount=g)
        if disc * (np.abs(V).max()) < 1e-3:
            ctx.check(abs(ret - planned) < 1e-3 + 3 * scale, "realised return is not the planned value", got=ret, planned=planned)
            ctx.n("tail_negligible")
        if n <= 40:
            b = best_of(sas, r, g, n, s0)
            ctx.check(b - ret <= disc * (V[s] - V[free].min()) + 3 * scale, "another sequence of moves earns more than the tail explains", best=b, got=ret,
                      start=s0, moves=n)
            ctx.n("finite_horizon_compared")
        ctx.n("walks"); ctx.n("moves", n)
        if abs(ret) > 1e-9:
            ctx.sig(ctx.desc, s0, n, g)
        ctx.sample(start=s0, moves=n, refit=refit, earned=ret, planned=planned, discount=g, path=path[:12])
