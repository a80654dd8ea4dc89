"""C07: consumption is conserved: removed features equal recorded features."""
import numpy as np
from vlib import gen, driver, worldcheck
from vlib.worldcheck import warmup

CASES = {"quick": 700, "thorough": 7000}
REQUIRE = ["steps_judged", "features_eaten", "agents_eaten", "nonpositive_left_alone", "ledger_checks", "op_place", "op_reset", "op_proba", "op_fit",
           "steps_onto_edible_of_others"]
RULE = ("case = one random environment with consumable features (binary, fractional and negative amounts, agents eating agents) driven "
        "through 5-45 random operations; every operation's snapshots are judged against a consumption ledger; distinct = distinct "
        "(environment, operation sequence) with more than two operations")


def eaten(ctx, ev):
    d = ev.driver
    pre, post = ev.pre, ev.post
    names, nf = d.names, d.nf
    if ev.op == "reset":
        d.ledger = {n: np.zeros(nf + len(names)) for n in names}
        return
    if not hasattr(d, "ledger"):
        d.ledger = {n: np.zeros(nf + len(names)) for n in names}
    if ev.op not in driver.STEP_OPS:
        for n in names:
            ctx.check(np.array_equal(pre.consumed[n], post.consumed[n]), "consumed counts changed without a step", op=ev.op, agent=n)
        ctx.check(np.array_equal(pre.features[:nf], post.features[:nf]), "a feature changed without a step", op=ev.op)
        if ev.op != "place":
            ctx.check(np.array_equal(pre.features, post.features), "an agent's feature changed without a move", op=ev.op)
        return
    f, cons = driver.expected_after_steps(ev)
    for n in names:
        ctx.check(np.array_equal(cons[n], post.consumed[n]), "recorded consumption differs from what was there to consume", agent=n,
                  expected=cons[n], got=post.consumed[n], steps=ev.steps, consumes=pre.consumes[n])
        d.ledger[n] += cons[n] - pre.consumed[n]
        ctx.check(np.array_equal(d.ledger[n], post.consumed[n]), "consumed counts do not add up since the last reset", agent=n)
    ctx.check(np.array_equal(f, post.features), "features after stepping are not the features before minus what was consumed", steps=ev.steps,
              cells=np.argwhere(f != post.features))
    # conservation: what is missing from the map is what has been recorded
    for c in range(nf):
        missing = int(((d.spec["mdp"]["features"][c] > 0) & (post.features[c] == 0)).sum())
        recorded = sum(post.consumed[n][c] for n in names)
        ctx.check(missing == recorded, "missing feature cells are not accounted for", feature=c, missing=missing, recorded=recorded)
        ctx.check(np.array_equal(post.features[c][post.features[c] != 0], d.spec["mdp"]["features"][c][post.features[c] != 0]), "a feature amount changed")
        ctx.n("ledger_checks")
    ctx.n("steps_judged", len(ev.steps))
    gain = sum(cons[n] - pre.consumed[n] for n in names)
    ctx.n("features_eaten", gain[:nf].sum()); ctx.n("agents_eaten", gain[nf:].sum())
    for n, s in ev.steps:
        if any(pre.features[c, s] < 0 for c in pre.eats[n] if c < nf):
            ctx.n("nonpositive_left_alone")
        if any(pre.features[c, s] > 0 for x in names if x != n for c in pre.eats[x] if c < nf and c not in pre.eats[n]):
            ctx.n("steps_onto_edible_of_others")


def case(ctx, i):
    style = [None, "binary", "dense", "signed", "float"][i % 5]
    worldcheck.run(ctx, i, [eaten], style=style, ops=dict(driver.Driver.OPS, step=9, step_multi=3, place=3))
