"""C20: turns are taken in order and capture stops play."""
import numpy as np
from vlib import gen, driver, worldcheck
from vlib.worldcheck import warmup

CASES = {"quick": 900, "thorough": 9000}
REQUIRE = ["op_step_multi", "op_interactive", "default_lengths", "captures_that_stop", "captures_played_through", "meetings_without_capture",
           "runs_cut_short", "partial_or_repeated_orders", "progress_bars", "zero_move_turns", "order_checks"]
RULE = ("case = one random environment with several agents (crowded, eating one another in half of the cases) driven through random multi-step "
        "moves and multi-agent runs with given or default orders, lengths, turns and stop settings; the order of all moves is reconstructed "
        "from wrapped step calls; distinct = distinct (environment, operation sequence) with more than two operations")


def watch(env, log):
    """records the order of individual steps, as seen at the public step method (None entries in the log are not used)"""
    orig = env.step

    def step(agent_name, *a, **k):
        r = orig(agent_name, *a, **k)
        log.append((agent_name, int(env.agents[agent_name].position)))
        return r
    env.step = step


def turns(ctx, ev):
    d = ev.driver
    pre, post = ev.pre, ev.post
    log, d.log[:] = list(d.log), []
    gained = {n: post.hist[n][len(pre.hist[n]):] for n in d.names}
    if ev.op not in ("step_multi", "interactive"):
        return
    pos = dict(pre.pos)
    if ev.op == "step_multi":
        n, want, stop = ev.agent, ev.args["want"], ev.args["stop_on_caught"]
        got = gained[n]
        caught_at = None
        for k, s in enumerate(got):
            pos[n] = s
            if d.caught(n, pos):
                if caught_at is None:
                    caught_at = k
                ctx.n("captures_played_through" if not stop else "captures_that_stop")
            elif any(x != n and pos[x] == s for x in d.names):
                ctx.n("meetings_without_capture")
        if stop and caught_at is not None:
            ctx.check(len(got) == caught_at + 1, "play went on after a capture", steps=got, captured_at=caught_at)
            ctx.check(ev.result is False, "a capture was not reported", result=ev.result)
        else:
            ctx.check(len(got) == want, "wrong number of steps", steps=got, wanted=want, caught_at=caught_at, stop=stop)
            ctx.check(isinstance(ev.result, list) and [int(s) for s in ev.result] == got, "returned states are not the visited states", result=ev.result,
                      steps=got)
        if "n_steps" not in ev.args:
            ctx.n("default_lengths")
        if want == 0:
            ctx.n("zero_move_turns")
    else:
        a = ev.args
        ctx.check(a["consistent"], "a run did not make exactly the given moves, turn by turn", gained=gained, schedule=a["sched"], order=a["order"],
                  stop=a["stop_on_caught"], replayed=ev.steps, start=pre.pos)
        full = sum(sum(x) for x in a["sched"])
        if len(ev.steps) < full:
            ctx.n("runs_cut_short"); ctx.n("captures_that_stop")
        if any(0 in x for x in a["sched"]):
            ctx.n("zero_move_turns")
    # the order in which single steps were made, where it can be observed
    if len(log) == len(ev.steps):
        ctx.check(log == [(n, s) for n, s in ev.steps], "moves were made in a different order", observed=log, expected=ev.steps)
        ctx.n("order_checks")


def case(ctx, i):
    rng = ctx.rng
    kw = {}
    if i % 2:
        kw = dict(max_cells=9)
    spec = worldcheck.spec_for(ctx, i, n_agents=int(rng.integers(1, 5)), **kw)
    if i % 2:      # make captures frequent
        nf = spec["mdp"]["features"].shape[0]
        na = len(spec["agents"])
        for j, a in enumerate(spec["agents"]):
            if gen.coin(rng, 0.6):
                a["consumes"] = sorted(set(a["consumes"]) | {nf + int(x) for x in rng.permutation(na)[:2] if x != j})
    ctx.desc = gen.describe(spec)
    env = gen.build_env(spec)
    d = driver.Driver(ctx, spec, env, [turns])
    d.log = []
    watch(env, d.log)
    search = any(a["alg"] in ("mcts", "imcts") for a in spec["agents"])
    d.run(int(rng.integers(5, 12 if search else 35)), dict(fit=1, step=1, step_multi=5, interactive=5, place=2, walls=0.3, reset=0.3))
    if len(d.trace) > 2:
        ctx.sig(ctx.desc, d.trace)
    ctx.sample(agents=len(spec["agents"]), kind=spec["mdp"]["kind"], operations=[t[:2] for t in d.trace if not str(t[0]).endswith("?")][:25])
