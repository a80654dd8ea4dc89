"""C14: planning and inspecting never change the world."""
import numpy as np
from maMDP.algorithms.dynamic_programming import ValueIteration, solve_value_iteration
from vlib import gen, driver, worldcheck, warm

CASES = {"quick": 500, "thorough": 5000}
REQUIRE = ["op_fit", "op_query", "fits_checked", "other_plans_checked", "vi_replans", "soft_fits", "plots", "search_fits", "inspections"]
RULE = ("case = one random environment driven through random operations, two thirds of them planning or inspecting (policies, values, "
        "histories, plots, saving); every operation's snapshots are compared field by field; distinct = distinct (environment, operation "
        "sequence) with more than two operations")


def warmup(ctx):
    worldcheck.warmup(ctx)
    m = gen.GRID["square"](features=np.ones((1, 4)), shape=(2, 2))
    solve_value_iteration(np.array([1.0]), m.features, 5, 0.7, m.sas, 1e-6, True)


def quiet(ctx, ev):
    d = ev.driver
    pre, post = ev.pre, ev.post
    if ev.op not in ("fit", "query", "inspect"):
        return
    bad = pre.diff(post)
    ctx.check(not bad, "planning or inspecting changed the world", op=ev.op, args=ev.args, changed=bad)
    for n in d.names:
        if ev.op == "fit" and n == ev.agent:
            continue
        ctx.check(driver.same(pre.plan[n], post.plan[n]) and driver.same(pre.values[n], post.values[n]), "somebody else's plan changed",
                  planner=ev.agent, agent=n, op=ev.op)
        ctx.n("other_plans_checked")
    if ev.op == "fit":
        ctx.n("fits_checked")
        if d.online(ev.agent):
            ctx.n("search_fits")


def inspect(ctx, d, n):
    env, rng = d.env, ctx.rng
    m = env.mdp
    q, v = env.agents[n].algorithm.q_values, env.agents[n].algorithm.values
    env.get_agent_q_values(n); list(env.get_agent_position_history(n))
    if d.fresh.get(n) and q is not None:
        if env.agents[n].pi is not None:
            env.get_agent_pi(n); env.get_agent_pi_p(n)
        if gen.coin(rng, 0.5):
            env.agents[n].get_policy()
    kind = d.spec["mdp"]["kind"]
    if kind in gen.GRID and m.n_states <= 12 and gen.coin(rng, 0.15) and m.features.min() >= 0 and m.features.max() <= 1:
        import matplotlib.pyplot as plt
        ax = env.plot()
        h = env.get_agent_position_history(n)
        env.plot_trajectory(list(h), ax)
        if gen.coin(rng, 0.5):
            env.plot_sequence(list(h), ax)
        if v is not None and env.agents[n].algorithm.fit_complete and kind == "hex":
            env.plot_state_values(n)
        plt.close("all")
        ctx.n("plots")
    # planning directly on the environment's MDP, without the environment
    if gen.coin(rng, 0.4):
        rw = np.round(rng.normal(size=m.n_features), 2)
        keep = rw.copy()
        if gen.coin(rng, 0.6):
            ValueIteration(discount=0.7).fit(m, rw, 0)
        else:
            solve_value_iteration(rw, m.features, 200, 0.7, m.sas, 1e-6, True)
            ctx.n("soft_fits")
        ctx.check(np.array_equal(rw, keep), "planning changed the reward weights passed to it")
    ctx.n("inspections")
    d.emit("inspect", n, {}, None)


def case(ctx, i):
    rng = ctx.rng
    spec = worldcheck.spec_for(ctx, i)
    if i % 4 == 1:
        for a in spec["agents"]:
            if a["alg"] == "table":
                a["alg"], a["alg_kwargs"] = "vi", {}
    ctx.desc = gen.describe(spec)
    env = gen.build_env(spec)
    d = driver.Driver(ctx, spec, env, [quiet])
    search = any(a["alg"] in ("mcts", "imcts") for a in spec["agents"])
    for _ in range(int(rng.integers(2, 5 if search else 9))):
        d.run(int(rng.integers(1, 4)), dict(fit=5, step=2, step_multi=0.5, place=0.7, walls=0.3, reset=0.3, query=2, proba=0.5))
        n = gen.pick(rng, d.names)
        inspect(ctx, d, n)
        if d.by[n]["alg"] == "vi" and d.plannable(n):
            d.op_fit(n)
            v1, q1 = np.array(env.agents[n].algorithm.values), np.array(env.get_agent_q_values(n))
            for x in d.names:
                if x != n and gen.coin(rng, 0.3) and d.plannable(x):
                    d.op_fit(x)
            d.op_fit(n)
            ctx.check(np.array_equal(v1, env.agents[n].algorithm.values) and np.array_equal(q1, env.get_agent_q_values(n)),
                      "planning again in an unchanged world gives different values", agent=n)
            ctx.n("vi_replans")
    if len(d.trace) > 2:
        ctx.sig(ctx.desc, d.trace)
    ctx.sample(agents=len(spec["agents"]), kind=spec["mdp"]["kind"], operations=[t[:2] for t in d.trace if not str(t[0]).endswith("?")][:25])
