"""C08: reset restores the starting state after any history."""
import numpy as np
from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector
from vlib import gen, driver, worldcheck, core
from vlib.worldcheck import warmup

CASES = {"quick": 500, "thorough": 5000}
REQUIRE = ["resets_compared", "dirty_resets", "resets_after_consumption", "resets_after_wall_edits", "twin_operations", "twin_plans", "twin_consumption",
           "double_resets"]
RULE = ("case = one random environment driven through random operations with a reset at a random point; the reset environment is compared "
        "with a freshly built identical one (with the walls now in force), then both are driven through the same operations; distinct = "
        "distinct (environment, operation sequence) with more than two operations before the reset")

FIELDS = ("names", "pos", "hist", "consumed", "reward", "consumes", "n_moves", "features", "walls", "sas_crc", "adj_crc", "shape", "idx")


def fresh_like(d):
    env = gen.build_env(d.spec)
    if d.spec["mdp"]["kind"] != "stoch":
        env.mdp.walls = d.walls.copy()
    return env


def align(env, d, k):
    """gives every agent an identical, freshly seeded selector (random draws are not part of what a reset restores)"""
    for j, n in enumerate(d.names):
        r = d.rule(n)
        env.agents[n].action_selector = MaxActionSelector(seed=k + j) if r[0] == "max" else SoftmaxActionSelector(temperature=r[1], seed=k + j)


def both(ctx, envs, f, seed):
    out = []
    for e in envs:
        core.seed_all(seed)
        out.append(f(e))
    return out


def case(ctx, i):
    rng = ctx.rng
    spec = worldcheck.spec_for(ctx, i)
    ctx.desc = gen.describe(spec)
    env = gen.build_env(spec)
    d = driver.Driver(ctx, spec, env, [])
    search = any(a["alg"] in ("mcts", "imcts") for a in spec["agents"])
    for rep in range(int(rng.integers(1, 4))):
        d.run(int(rng.integers(0, 10 if search else 25)), dict(driver.Driver.OPS, reset=0.2, step=8))
        before = driver.Snap(env)
        wet = any(c.any() for c in before.consumed.values())
        env.reset()
        a = driver.Snap(env)
        twin = fresh_like(d)
        b = driver.Snap(twin)
        bad = a.diff(b, FIELDS)
        ctx.check(not bad, "a reset environment differs from a fresh one", differs=bad, got={f: getattr(a, f) for f in bad if f != "features"},
                  cells=np.argwhere(a.features != b.features) if a.features.shape == b.features.shape else None)
        ctx.n("resets_compared")
        if before.diff(a, ("pos", "features", "hist")):
            ctx.n("dirty_resets")
        if wet:
            ctx.n("resets_after_consumption")
        if not np.array_equal(d.walls, np.zeros_like(d.walls) if spec["mdp"]["walls"] is None else spec["mdp"]["walls"]):
            ctx.n("resets_after_wall_edits")
        env.reset()
        ctx.check(not driver.Snap(env).diff(a, FIELDS), "resetting twice changes something")
        ctx.n("double_resets")
        d.pre = driver.Snap(env)
        d.trace.append(["reset", None, {}])
        # the same future in both
        sas = d.sas
        if spec["mdp"]["kind"] == "stoch":
            twin = None
        envs = [env, twin] if twin is not None else [env]
        if twin is not None:
            k = int(rng.integers(10 ** 6))
            for e in envs:
                align(e, d, k)
            for _ in range(int(rng.integers(2, 8 if search else 14))):
                n = gen.pick(rng, d.names)
                if not d.plannable(n):
                    n2 = [x for x in d.names if d.plannable(x)]
                    if not n2:
                        break
                    n = gen.pick(rng, n2)
                op = gen.pick(rng, ["step", "step", "fit", "multi", "place"])
                seed = int(rng.integers(2 ** 31))
                ctx.log("twin", op, n)
                if op == "place":
                    s = int(gen.pick(rng, gen.movable(sas)))
                    for e in envs:
                        e.set_agent_position(n, s)
                elif op == "multi":
                    kw = dict(n_steps=int(rng.integers(0, 4)), refit=True, stop_on_caught=gen.coin(rng, 0.5))
                    r = both(ctx, envs, lambda e: e.step_multi(n, **kw), seed)
                    ctx.check(r[0] == r[1], "after a reset, a multi-step move goes differently", got=r)
                else:
                    def f(e):
                        e.fit(n)
                        q = np.array(e.get_agent_q_values(n))
                        return q, (e.step(n) if op == "step" else None)
                    (q1, s1), (q2, s2) = both(ctx, envs, f, seed)
                    ctx.check(np.array_equal(q1, q2, equal_nan=True), "after a reset, plans differ from those of a fresh environment", agent=n,
                              diff=np.argwhere(~((q1 == q2) | (np.isnan(q1) & np.isnan(q2)))))
                    ctx.check(s1 == s2, "after a reset, a step goes differently", agent=n, got=(s1, s2))
                    ctx.n("twin_plans")
                a, b = driver.Snap(env), driver.Snap(twin)
                bad = a.diff(b, FIELDS)
                ctx.check(not bad, "after a reset, the environment develops differently from a fresh one", differs=bad, op=op)
                ctx.n("twin_operations")
            if any(c.any() for c in driver.Snap(env).consumed.values()):
                ctx.n("twin_consumption")
            d.fresh = {}
            d.pre = driver.Snap(env)
    if len(d.trace) > 2:
        ctx.sig(ctx.desc, d.trace)
    ctx.sample(agents=len(spec["agents"]), kind=spec["mdp"]["kind"], operations=[t[:2] for t in d.trace if not str(t[0]).endswith("?")][:25])
