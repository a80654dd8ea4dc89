"""C13: probabilistic stepping is the exact one-step distribution."""
import numpy as np
from vlib import gen, ref, driver, worldcheck
from vlib.worldcheck import warmup

CASES = {"quick": 700, "thorough": 7000}
REQUIRE = ["op_proba", "distributions_checked", "several_routes", "linearity_checks", "chained", "unnormalised_inputs", "side_effect_checks", "op_swap"]
RULE = ("case = one random environment driven through random operations in which half are probabilistic steps from positions or random "
        "(also unnormalised, integer or chained) distributions; distinct = distinct (environment, operation sequence) with more than two operations")


def push(d, n, q, dist):
    P = np.array([ref.policy_row(d.rule(n), q[s]) if dist[s] > 0 else np.zeros(q.shape[1]) for s in range(len(dist))])
    return np.einsum("s,sa,sat->t", dist / dist.sum(), P, d.sas)


def exact(ctx, ev):
    d = ev.driver
    if ev.op != "proba":
        return
    n, pre, post = ev.agent, ev.pre, ev.post
    changed = [f for f in pre.diff(post) if f != "n_steps"]
    ctx.check(not changed, "a probabilistic step changed the world", changed=changed)
    ctx.n("side_effect_checks")
    dist = ev.args["kept"]
    if dist is None:
        dist = np.zeros(len(d.walls))
        dist[pre.pos[n]] = 1
    else:
        ctx.check(np.array_equal(ev.args["dist"], dist), "the supplied distribution was modified")
        if abs(dist.sum() - 1) > 1e-6:
            ctx.n("unnormalised_inputs")
    r = np.asarray(ev.result, float)
    q = post.plan[n]
    ctx.check(r.shape == dist.shape, "wrong shape")
    want = push(d, n, q, dist.astype(float))
    ctx.check(np.allclose(r, want, atol=1e-9, rtol=0), "not the one-step distribution", got=r, want=want, start=dist)
    ctx.check(abs(r.sum() - 1) < 1e-9 and (r >= 0).all(), "probabilities do not sum to 1", total=r.sum())
    if ((want > 0).sum() < (d.sas[dist > 0].sum(axis=1) > 0).sum()):
        ctx.n("several_routes")
    ctx.n("distributions_checked")


def case(ctx, i):
    rng = ctx.rng
    d = worldcheck.run(ctx, i, [exact], ops=dict(fit=1, step=3, proba=8, place=1, walls=0.4, reset=0.3, query=0.2, swap=0.6))
    # linear in the starting distribution, and chains
    off = [n for n in d.names if not d.online(n)]
    if not off:
        return
    n = gen.pick(rng, off)
    env = d.env
    env.fit(n)
    ok = np.array([d.can_move(s) for s in range(len(d.walls))])
    ks = np.where(ok)[0]
    if not len(ks):
        return
    q = np.array(env.get_agent_q_values(n))
    x, y = np.zeros(len(ok)), np.zeros(len(ok))
    x[gen.pick(rng, ks)] = 1
    y[rng.choice(ks, int(rng.integers(1, len(ks) + 1)), replace=False)] = rng.random()
    y /= y.sum()
    a = float(rng.random())
    rx, ry, rm = np.array(env.step_proba(n, x)), np.array(env.step_proba(n, y)), np.array(env.step_proba(n, a * x + (1 - a) * y))
    ctx.check(np.allclose(rm, a * rx + (1 - a) * ry, atol=1e-9, rtol=0), "not linear in the starting distribution")
    ctx.n("linearity_checks")
    dist = x
    for k in range(int(rng.integers(2, 8))):
        if not ok[dist > 0].all():
            break
        r = np.array(env.step_proba(n, dist))
        ctx.check(np.allclose(r, push(d, n, q, dist), atol=1e-9, rtol=0), "chained probabilistic step is wrong", step=k)
        ctx.n("chained")
        dist = r
