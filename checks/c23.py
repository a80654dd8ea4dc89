"""C23: feature-count learners count exactly what was observed."""
import numpy as np
from maMDP.algorithms.irl import MFFeatureMatching, SimpleActionIRL, SimpleActionFeatureDiffIRL
from vlib import gen, ref, warm

CASES = {"quick": 3000, "thorough": 30000}
REQUIRE = ["matching_fits", "mdp_lists", "revisited_states", "ignored_features", "action_fits", "contrast_fits", "accumulating_fits", "stay_moves",
           "walled_lines", "one_state_trajectories", "contrast_without_stay", "agent_features"]
RULE = ("case = random trajectories (revisits, staying, single states, different MDPs per trajectory, walls in the line of sight) given to each "
        "feature-count learner; estimates are compared with direct counts; distinct = distinct (MDP, trajectories)")


def warmup(ctx):
    warm.hexgrid()


def trajectories(rng, ms, k, n=None):
    out = []
    for j in range(k):
        sas = gen.spec_sas(ms[j])
        free = gen.movable(sas)
        if not len(free):
            return None
        out.append(gen.walk(rng, sas, gen.pick(rng, free), (int(rng.integers(0, 9)) if gen.coin(rng, 0.95) else int(rng.integers(9, 120))) if n is None else n))
    return out


def line(nxt, walls, s, a):
    """cells from s in direction a until the edge or a wall (staying goes nowhere)"""
    out = [s]
    while True:
        t = nxt[out[-1], a]
        if t < 0 or walls[t] or walls[out[-1]] or t == out[-1]:
            return out
        out.append(t)


def action_of(nxt, walls, s, t):
    return [a for a in range(nxt.shape[1]) if nxt[s, a] == t][0]


def unit(x):
    return x if (x == 0).all() else x / x.sum()


def close(a, b):
    return np.allclose(a, b, rtol=1e-9, atol=1e-9)


def case(ctx, i):
    rng = ctx.rng
    nf = int(rng.integers(1, 5))
    k = int(rng.integers(1, 6)) if gen.coin(rng, 0.92) else int(rng.integers(9, 21))
    # feature matching, any kind of MDP
    several = gen.coin(rng, 0.5)
    one = gen.mdp_spec(rng, n_features=nf, max_cells=20)
    if several:
        ms = [gen.mdp_spec(rng, n_features=nf, max_cells=20) for _ in range(k)]
        ctx.n("mdp_lists")
    else:
        ms = [one] * k
    tr = trajectories(rng, ms, k)
    if tr is not None:
        built = [gen.build_mdp(m) for m in ms] if several else gen.build_mdp(one)
        ign = [int(x) for x in rng.permutation(nf)[:int(rng.integers(0, nf + 1))]] if gen.coin(rng, 0.5) else []
        want = np.zeros(nf)
        for m, t in zip(ms, tr):
            for s in t[1:]:
                want += m["features"][:, s]
            if len(set(t[1:])) < len(t[1:]):
                ctx.n("revisited_states")
            if len(t) == 1:
                ctx.n("one_state_trajectories")
        want[ign] = 0
        if ign:
            ctx.n("ignored_features")
        ctx.desc = dict(mdps=[gen.describe(m) for m in ms], trajectories=tr, ignored=ign)
        l = MFFeatureMatching()
        got = np.array(l.fit(built, [list(t) for t in tr], ign) if ign or gen.coin(rng, 0.5) else l.fit(built, [list(t) for t in tr]))
        ctx.check(got.shape == (nf,) and close(got, want), "feature matching does not count the states entered", got=got, want=want)
        again = np.array(l.fit(built, [list(t) for t in tr], ign))
        ctx.check(close(again, want), "feature matching remembers earlier fits", got=again, want=want)
        ctx.n("matching_fits")
        ctx.sig(ctx.desc)
    # action-based learners, grids
    stay = gen.coin(rng, 0.6)
    k = int(rng.integers(1, 4))
    ms = [gen.mdp_spec(rng, kinds=("square", "hex"), n_features=nf, max_cells=20, stay=stay, style=gen.pick(rng, ["binary", "dense", "float"])) for _ in range(k)]
    if any(m["stay"] != stay for m in ms) or (len({m["kind"] for m in ms}) > 1 and gen.coin(rng, 0.5)):
        ms = [m for m in ms if m["stay"] == stay]
        if not ms:
            return
    k = len(ms)
    tr = trajectories(rng, ms, k)
    if tr is None:
        return
    built = [gen.build_mdp(m) for m in ms]
    feats = [m["features"] for m in ms]
    extra = 0
    if gen.coin(rng, 0.2):       # observed in an environment with an agent in it
        extra = 1
        feats = []
        for m, b in zip(ms, built):
            p = int(gen.pick(rng, gen.movable(gen.spec_sas(m))))
            b.add_agent_feature(p)
            row = np.zeros((1, m["features"].shape[1]))
            row[0, p] = 1
            feats.append(np.vstack([m["features"], row]))
        ctx.n("agent_features")
    plain, contrast = np.zeros(nf + extra), np.zeros(nf + extra)
    for m, t, f in zip(ms, tr, feats):
        nxt = ref.move_table(m["kind"], m["shape"], m["stay"])
        w = np.zeros(f.shape[1]) if m["walls"] is None else m["walls"]
        dirs = nxt.shape[1] - int(m["stay"])
        if not m["stay"]:
            ctx.n("contrast_without_stay")
        c, u, e = np.zeros(nf + extra), np.zeros(nf + extra), np.zeros(nf + extra)
        for s, s2 in zip(t[:-1], t[1:]):
            a = action_of(nxt, w, s, s2)
            e += f[:, line(nxt, w, s, a)].sum(axis=1)
            if a == dirs:
                ctx.n("stay_moves")
            for x in range(dirs):
                l = f[:, line(nxt, w, s, x)].sum(axis=1)
                if x == a:
                    c += l
                else:
                    u += l
                full = line(nxt, np.zeros_like(w), s, x)
                if len(full) > len(line(nxt, w, s, x)):
                    ctx.n("walled_lines")
        plain += unit(e)
        contrast += unit(c) - unit(u)
    ctx.desc = dict(mdps=[gen.describe(m) for m in ms], trajectories=tr)
    for cls, want, name in ((SimpleActionIRL, plain, "action_fits"), (SimpleActionFeatureDiffIRL, contrast, "contrast_fits")):
        l = cls()
        got = np.array(l.fit(built, [list(t) for t in tr]))
        ctx.check(close(got, want), "action-based estimate is not the features along the observed directions", learner=cls.__name__, got=got, want=want)
        ctx.n(name)
        got = np.array(l.fit(built, [list(t) for t in tr], reset=False))
        ctx.check(close(got, 2 * want), "estimates do not accumulate over calls", learner=cls.__name__, got=got, want=2 * want)
        got = np.array(l.fit(built, [list(t) for t in tr], reset=True))
        ctx.check(close(got, want), "a reset estimate starts from something", learner=cls.__name__, got=got, want=want)
        ctx.n("accumulating_fits")
    ctx.sig(ctx.desc)
    ctx.sample(trajectories=tr, plain=plain, contrast=contrast)
