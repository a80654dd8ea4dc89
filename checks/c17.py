"""C17: tree search estimates only the current state's possible actions."""
import numpy as np
from vlib import gen, search, driver
from vlib.search import warmup

CASES = {"quick": 700, "thorough": 7000}
REQUIRE = ["searches", "rows_checked", "steps_after_planning", "refusals", "multi_route_actions", "negative_values"]
RULE = ("case = up to three searches of one agent in a changing world, each followed by a step, and by a refused step from an unplanned "
        "position; distinct = distinct recorded trajectories")


def judge(ctx, s):
    env, p = s.env, s.pos[s.me]
    ok = (s.sas[p] > 0).any(axis=1)
    want = np.full(s.q.shape, np.nan)
    for a in np.where(ok)[0]:
        t = int(np.argmax(s.sas[p, a]))
        want[p, a] = s.V[t] / (1 + s.N[t])
    ctx.check(np.array_equal(np.isnan(s.q), np.isnan(want)), "estimates are not defined for exactly the possible actions", position=p,
              got=np.argwhere(~np.isnan(s.q)), want=np.argwhere(~np.isnan(want)))
    ctx.check(np.allclose(s.q[p][ok], want[p][ok], rtol=1e-12, atol=1e-12), "an action's value is not the value per visit of the state it leads to", got=s.q[p],
              want=want[p])
    ctx.n("rows_checked")
    if (want[p][ok] < 0).any():
        ctx.n("negative_values")
    if len({int(np.argmax(s.sas[p, a])) for a in np.where(ok)[0]}) < ok.sum():
        ctx.n("multi_route_actions")
    best = np.where(ok & (s.q[p] == np.nanmax(s.q[p])))[0]
    goals = {int(np.argmax(s.sas[p, a])) for a in best}
    rng = s.rng
    got = env.step(s.me)
    ctx.check(int(got) in goals, "the step after planning is not a best possible action", origin=p, to=int(got), q=s.q[p])
    ctx.n("steps_after_planning")
    here = int(env.agents[s.me].position)
    others = [x for x in gen.movable(s.sas) if x != p]
    if others and (here == p or gen.coin(rng, 0.5)):
        env.set_agent_position(s.me, int(gen.pick(rng, others)))
        here = int(env.agents[s.me].position)
    if here != p:
        pre = driver.Snap(env)
        try:
            r = env.step(s.me)
        except Exception as e:
            ctx.check(isinstance(e, (ValueError, AttributeError)), "refused with an unexpected kind of error", error=repr(e))
        else:
            ctx.fail("a step from a position that was not planned for was not refused", position=here, planned=p, result=r)
        bad = driver.Snap(env).diff(pre)
        ctx.check(not bad, "a refused step changed something", changed=bad)
        ctx.n("refusals")


def case(ctx, i):
    search.case(ctx, i, judge)
