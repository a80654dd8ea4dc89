"""C19: planning moves are spread over turns without loss."""
import numpy as np
from maMDP.environments import get_n_moves_plan
from vlib import gen, ref, driver, warm

CASES = {"quick": 6000, "thorough": 60000}
REQUIRE = ["plans_spread", "plans_that_do_not_fit", "plans_checked_in_moves", "plans_checked_in_runs", "given_plans", "default_plans", "refusals",
           "list_steps", "several_turns", "unadjusted_runs", "no_plan_without_refit"]
RULE = ("case = random (current move, turns, moves, total) spread directly, and one environment whose agents use a recording planner, moved by "
        "multi-step moves and multi-agent runs with re-planning; every plan handed to a planner is compared with the rule; distinct = distinct "
        "argument combinations")


def warmup(ctx):
    warm.hexgrid()


def spread(ctx):
    rng = ctx.rng
    for _ in range(20):
        moves = int(rng.integers(1, 12))
        cur = int(rng.integers(moves))
        turns = int(rng.integers(1, 8))
        total = int(gen.pick(rng, [0, 1, int(rng.integers(1, 12)), int(rng.integers(1, 100))]))
        got = [int(x) for x in get_n_moves_plan(cur, turns, moves, total)]
        want = ref.spread_plan(cur, turns, moves, total)
        ctx.check(got == want, "moves are spread differently", current_move=cur, turns=turns, moves=moves, total=total, got=got, want=want)
        ctx.check(sum(got) == min(total, turns * moves - cur), "planned moves were lost or invented", got=got)
        ctx.n("plans_spread")
        ctx.sig(cur, turns, moves, total)
        if total > turns * moves - cur:
            ctx.n("plans_that_do_not_fit")
    try:
        r = get_n_moves_plan(moves + int(rng.integers(3)), turns, moves, total)
    except ValueError:
        ctx.n("refusals")
    else:
        ctx.fail("a current move beyond the turn was accepted", got=r)


def case(ctx, i):
    rng = ctx.rng
    spread(ctx)
    spec = gen.env_spec(rng, planners=("table",), kinds=("square", "hex", "det"), max_cells=9, max_agents=4, consume=False)
    names = [a["name"] for a in spec["agents"]]
    own = {a["name"]: a["n_moves"] for a in spec["agents"]}
    ctx.desc = gen.describe(spec)
    env = gen.build_env(spec)
    alg = {n: env.agents[n].algorithm for n in names}

    def calls(n):
        out = [c["n_moves"] for c in alg[n].calls]
        alg[n].calls.clear()
        return out

    for _ in range(int(rng.integers(1, 4))):
        if gen.coin(rng, 0.5):
            n = gen.pick(rng, names)
            order = [n] + [x for x in names if x != n]
            kw = dict(refit=True, stop_on_caught=False)
            per = [own[x] for x in order]
            steps = own[n]
            u = rng.random()
            if u < 0.3:
                steps = kw["n_steps"] = int(rng.integers(1, 6))
                per = [steps] + per[1:]
            elif u < 0.6:
                per = kw["n_steps"] = [int(rng.integers(1, 6)) for _ in order]
                steps = per[0]
                ctx.n("list_steps")
            turns = 1
            if gen.coin(rng, 0.7):
                turns = kw["n_turns_plan"] = int(rng.integers(1, 5))
            plan = [own[x] for x in order]
            if gen.coin(rng, 0.7):
                plan = kw["n_moves_plan"] = [int(rng.integers(1, 14)) for _ in order]
                if gen.coin(rng, 0.5):
                    kw["n_moves_plan"] = tuple(plan)
                ctx.n("given_plans")
            else:
                ctx.n("default_plans")
            keep = repr(kw)
            ctx.log("step_multi", n, kw)
            env.step_multi(n, **kw)
            ctx.check(repr(kw) == keep, "the given plan was modified")
            got = calls(n)
            want = [[ref.spread_plan(k if j == 0 else 0, turns, per[j], plan[j]) for j in range(len(order))] for k in range(steps)]
            ctx.check(got == want, "a plan made while moving does not follow the rule", agent=n, args=kw, per_turn=per, got=got, want=want)
            ctx.n("plans_checked_in_moves", len(got))
            ctx.sig(order, per, turns, plan)
            if turns > 1:
                ctx.n("several_turns")
        elif gen.coin(rng, 0.8):
            kw = dict(refit=True, stop_on_caught=False)
            order, whole = list(names), True
            if gen.coin(rng, 0.5):
                order = [names[k] for k in rng.permutation(len(names))]
                whole = not gen.coin(rng, 0.3)
                if not whole:
                    order = order[:int(rng.integers(1, len(order) + 1))]
                    ctx.n("partial_orders")
                kw["agent_names"] = list(order)
            turns = int(rng.integers(1, 4))
            if gen.coin(rng, 0.5):
                sched = kw["n_moves"] = [[int(rng.integers(0, 4)) for _ in range(turns)] for _ in order]
            else:
                kw["n_turns"] = turns
                sched = [[own[x]] * turns for x in order]
            plan = None
            if whole and gen.coin(rng, 0.6):
                kw["n_moves_plan"] = [int(rng.integers(1, 14)) for _ in order]
                plan = dict(zip(order, kw["n_moves_plan"]))
                if gen.coin(rng, 0.4):
                    kw["n_moves_plan"] = tuple(kw["n_moves_plan"])
            adjust = True
            if gen.coin(rng, 0.5):
                adjust = kw["adjust_planning_steps"] = gen.coin(rng, 0.5)
            if not adjust:
                ctx.n("unadjusted_runs")
            keep = repr(kw)
            ctx.log("interactive", kw)
            env.step_multi_interactive(**kw)
            ctx.check(repr(kw) == keep, "the given plan was modified")
            for j, n in enumerate(order):
                mine = [n] + [x for x in names if x != n]
                want = []
                for t in range(turns):
                    m = sched[j][t]
                    T = turns - t if adjust else turns
                    for k in range(m):
                        want.append([ref.spread_plan(k if x == n else 0, T, m if x == n else own[x], plan[x] if plan else own[x]) for x in mine])
                got = calls(n)
                ctx.check(got == want, "a plan made in a run does not follow the rule", agent=n, args=kw, order=order, got=got, want=want)
                ctx.n("plans_checked_in_runs", len(got))
            ctx.sig(order, sched, plan, adjust)
        else:
            n = gen.pick(rng, names)
            env.fit(n)
            calls(n)
            env.step_multi(n, n_steps=int(rng.integers(0, 4)), stop_on_caught=False)
            ctx.check(all(not calls(x) for x in names), "an agent re-planned although it was not asked to")
            ctx.n("no_plan_without_refit")
    ctx.sample(agents=len(names), last=ctx.trace[-1] if ctx.trace else None)
