"""C05: each agent's map feature marks exactly that agent's position."""
import numpy as np
from vlib import gen, driver, worldcheck
from vlib.worldcheck import warmup

CASES = {"quick": 700, "thorough": 7000}
REQUIRE = ["rows_checked", "blank_rows_seen", "op_place", "op_step", "op_interactive", "op_reset", "agentless_mdp", "rebuilt_environments", "moves_checked"]
RULE = ("case = one random environment (1-5 agents; grid, custom or non-deterministic MDP) driven through 5-45 random operations (fit, "
        "step, multi-step, multi-agent runs, repositioning, wall edits, resets, queries); every operation's before/after snapshots are "
        "judged; distinct = distinct (environment, operation sequence) with more than two operations")


def rows_ok(ctx, ev):
    d = ev.driver
    nf, names = d.nf, d.names
    f = ev.post.features
    ctx.check(f.shape == (nf + len(names), f.shape[1]), "wrong number of features", got=f.shape)
    for j, n in enumerate(names):
        row, p = f[nf + j], ev.post.pos[n]
        ctx.check(ev.post.idx[n] == nf + j, "agent's feature index is wrong", agent=n, got=ev.post.idx[n])
        onehot = np.zeros(f.shape[1])
        onehot[p] = 1
        ctx.n("rows_checked")
        if np.array_equal(row, onehot):
            continue
        eater = any(nf + j in ev.post.eats[x] for x in names)
        ctx.check(not row.any() and eater, "agent's feature does not mark its position", agent=n, position=p, row=row, op=ev.op)
        # blank: it must have been blank before, or somebody who eats it entered its cell during this operation
        blank_before = not ev.pre.features[nf + j].any() and ev.pre.pos[n] == p
        if ev.op in driver.STEP_OPS:
            # in the order of the steps: an agent's own step marks it again, an eater entering its cell blanks it
            blank, at = not ev.pre.features[nf + j].any(), ev.pre.pos[n]
            for m, s in ev.steps:
                if m == n:
                    blank, at = nf + j in ev.pre.eats[n], s
                elif nf + j in ev.pre.eats[m] and s == at:
                    blank = True
            ctx.check(blank, "agent's feature vanished although nobody ate it", agent=n, op=ev.op)
        else:
            ctx.check(blank_before and ev.op not in ("reset",) and not (ev.op == "place" and ev.agent == n),
                      "agent's feature vanished although nobody ate it", agent=n, op=ev.op)
        ctx.n("blank_rows_seen")


def others_untouched(ctx, ev):
    d = ev.driver
    nf, names = d.nf, d.names
    if ev.op == "reset":
        return
    movers = {ev.agent} if ev.op == "place" else ({n for n, _ in ev.steps} if ev.op in driver.STEP_OPS else set())
    edible = {(c, s) for n, s in (ev.steps or []) for c in ev.pre.eats[n]} if ev.op in driver.STEP_OPS else set()
    own = {nf + names.index(n) for n in movers}
    for c, s in np.argwhere(ev.pre.features != ev.post.features):
        if int(c) in own:
            continue
        ctx.check((int(c), int(s)) in edible and ev.post.features[c, s] == 0, "moving changed a feature it has nothing to do with",
                  feature=int(c), state=int(s), op=ev.op, before=ev.pre.features[c, s], after=ev.post.features[c, s])
    if movers:
        ctx.n("moves_checked")


def case(ctx, i):
    rng = ctx.rng
    spec = worldcheck.spec_for(ctx, i, max_agents=5)
    ctx.desc = gen.describe(spec)
    mdp = gen.build_mdp(spec["mdp"])
    ctx.check(np.array_equal(mdp.features, spec["mdp"]["features"]), "features changed at construction")
    ctx.n("agentless_mdp")
    if gen.coin(rng, 0.3):       # the MDP may have been used by other agents before
        other = gen.env_spec(rng, planners=("null",))
        k = int(rng.integers(1, 4))
        ags = {}
        free = gen.movable(gen.spec_sas(spec["mdp"]))
        nf = spec["mdp"]["features"].shape[0]
        for j in range(k):
            ags[gen.build_agent(dict(other["agents"][0], name="old%d" % j))] = (int(gen.pick(rng, free)), np.zeros(nf + k), [])
        e0 = gen.Environment(mdp, ags)
        e0.fit("old0"); e0.step("old0")
        ctx.n("rebuilt_environments")
    env = gen.build_env(spec, mdp)
    d = driver.Driver(ctx, spec, env, [rows_ok, others_untouched])
    ctx.check(np.array_equal(env.mdp.features[:d.nf], spec["mdp"]["features"]), "attaching agents changed the environment's own features")
    d.emit("build", None, {}, None)
    d.run(int(rng.integers(5, 18 if i % 10 >= 8 else 45)), dict(driver.Driver.OPS, place=4))
    if len(d.trace) > 2:
        ctx.sig(ctx.desc, d.trace)
    ctx.sample(agents=len(spec["agents"]), kind=spec["mdp"]["kind"], operations=[t[:2] for t in d.trace if not str(t[0]).endswith("?")][:25])
