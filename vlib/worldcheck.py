"""Shared shape of the checks that run random operation histories on environments."""
import numpy as np
from . import gen, driver, warm


def warmup(ctx):
    warm.vi(); warm.softmax(); warm.mcts()


def spec_for(ctx, i, **kw):
    rng = ctx.rng
    u = i % 10
    if u < 5:       # cheap planners, larger histories, all kinds of MDP
        planners, kinds, cells = ("table", "null", "table"), ("square", "hex", "det", "stoch"), 30
    elif u < 8:
        planners, kinds, cells = ("vi", "null", "table"), ("square", "hex", "det", "stoch"), 20
    else:
        planners, kinds, cells = ("mcts", "imcts", "vi", "null"), ("square", "hex"), 14
    args = dict(planners=planners, kinds=kinds, max_cells=cells)
    args.update(kw)
    return gen.env_spec(rng, **args)


def run(ctx, i, monitors, spec=None, ops=None, n_ops=None, **kw):
    spec = spec if spec is not None else spec_for(ctx, i, **kw)
    ctx.desc = gen.describe(spec)
    env = gen.build_env(spec)
    d = driver.Driver(ctx, spec, env, monitors)
    search = any(a["alg"] in ("mcts", "imcts") for a in spec["agents"])
    n = n_ops or int(ctx.rng.integers(5, 18 if search else 45))
    d.run(n, ops)
    ctx.n("histories")
    if len(d.trace) > 2:
        ctx.sig(ctx.desc, [t for t in d.trace])
    ctx.sample(agents=len(spec["agents"]), kind=spec["mdp"]["kind"], operations=[t[:2] for t in d.trace if not str(t[0]).endswith("?")][:25])
    return d
