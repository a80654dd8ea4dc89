"""C06: each step is one legal move of one agent, recorded exactly."""
import numpy as np
from vlib import gen, ref, driver, worldcheck
from vlib.worldcheck import warmup

CASES = {"quick": 700, "thorough": 7000}
REQUIRE = ["op_step", "op_step_multi", "op_interactive", "steps_checked", "policy_support_checks", "bystanders_checked", "op_place", "op_reset", "op_swap"]
RULE = ("case = one random environment (1-4 agents; grid, custom or non-deterministic MDP; greedy, softmax, seeded or not; table, null, value "
        "iteration and tree-search planners) driven through 5-45 random operations; every step is judged from the snapshots around it; "
        "distinct = distinct (environment, operation sequence) with more than two operations")


def legal(ctx, d, s, nxt, q, rule):
    can = (d.sas[s, :, nxt] > 0)
    ctx.check(can.any(), "moved to a state that cannot be reached in one move", origin=s, to=nxt)
    if q is not None:
        w = ref.policy_row(rule, q[s])
        ctx.check((can & (w > 0)).any(), "the policy never takes an action leading to the state entered", origin=s, to=nxt, q=q[s], p=w)
        ctx.n("policy_support_checks")


def steps(ctx, ev):
    d = ev.driver
    pre, post = ev.pre, ev.post
    if not hasattr(d, "started"):
        d.started = True
        ctx.check(pre.n_steps == 0, "the step counter of a new environment is not 0", got=pre.n_steps)
        for n in d.names:
            ctx.check(pre.hist[n] == [d.by[n]["position"]], "the history of a new environment is not the start alone", agent=n, got=pre.hist[n])
    if ev.op not in driver.STEP_OPS:
        for n in d.names:
            if ev.op != "reset":
                ctx.check(post.hist[n] == pre.hist[n], "position history changed although nobody stepped", op=ev.op, agent=n)
            if ev.op not in ("reset", "place") or (ev.op == "place" and n != ev.agent):
                ctx.check(post.pos[n] == pre.pos[n], "position changed although the agent did not step", op=ev.op, agent=n)
        if ev.op == "reset":
            for n in d.names:
                ctx.check(post.hist[n] == [d.by[n]["position"]], "history does not start with the start alone", agent=n, got=post.hist[n])
        if ev.op not in ("proba", "reset"):
            ctx.check(post.n_steps == pre.n_steps, "step counter changed without a step", op=ev.op)
        return
    movers = {}
    for n in d.names:
        h0, h1 = pre.hist[n], post.hist[n]
        ctx.check(h1[:len(h0)] == h0, "position history was rewritten", agent=n, before=h0, after=h1)
        movers[n] = h1[len(h0):]
    if ev.op in ("step", "step_multi"):
        for n in d.names:
            if n != ev.agent:
                ctx.check(post.pos[n] == pre.pos[n] and not movers[n], "an agent that was not asked to move moved", agent=n)
                ctx.n("bystanders_checked")
    total = sum(len(m) for m in movers.values())
    if ev.op == "step":
        ctx.check(len(movers[ev.agent]) == 1, "a step did not add exactly one state to the history", added=movers[ev.agent])
        ctx.check(isinstance(ev.result, (int, np.integer)) and int(ev.result) == post.pos[ev.agent], "the returned state is not the new position", got=ev.result,
                  position=post.pos[ev.agent])
    ctx.check(post.n_steps == pre.n_steps + total, "the step counter does not count the steps", before=pre.n_steps, after=post.n_steps, steps=total)
    for n, m in movers.items():
        s = pre.pos[n]
        if not m:
            ctx.check(post.pos[n] == s, "position changed without a step", agent=n)
            continue
        ctx.check(post.pos[n] == m[-1], "position is not the last state of the history", agent=n, position=post.pos[n], history=post.hist[n])
        q = pre.plan[n]
        if ev.refit:
            # the last plan made is the one the last step followed; fixed preferences never change
            q = post.plan[n] if (len(m) == 1 or d.by[n]["alg"] in ("table", "null")) else None
        for k, t in enumerate(m):
            last = post.plan[n] if (ev.refit and k == len(m) - 1) else q
            legal(ctx, d, s, t, last, d.rule(n))
            s = t
            ctx.n("steps_checked")


def case(ctx, i):
    worldcheck.run(ctx, i, [steps], ops=dict(driver.Driver.OPS, step=9, step_multi=3, swap=0.5))
