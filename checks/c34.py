"""C34: hypothesis-testing inference weighs each observed move by its rule."""
import numpy as np
from maMDP.algorithms.irl import HyptestIRL
from vlib import gen, ref

CASES = {"quick": 700, "thorough": 8000}
REQUIRE = ["fits", "moves", "weights_compared", "raised_rates", "lowered_rates", "plain_rates", "continued_fits", "starting_weights", "mdp_lists", "soft_plans", "hard_plans",
           "ignored", "short_trajectories", "walled", "refusals", "later_moves"]
RULE = ("case = a learner with random settings fitted once to three times on random trajectories in one or several deterministic MDPs; the estimate after "
        "every move and every trajectory is compared with the rule applied to independently computed optimal (or soft-optimal) values; distinct = "
        "distinct (MDPs, trajectories, settings)")
ASSUMPTIONS = ["a feature's estimate is judged up to the first move at which the possible actions are equally good for it (spread below 1e-4), where a "
               "z-score means nothing, or at which evidence and estimate are equally strong within 1e-4, where either rate is right"]


def warmup(ctx):
    m = gen.GRID["hex"](features=np.eye(4)[:2].copy(), shape=(2, 2))
    for soft in (True, False):
        HyptestIRL(normalisation="z-score", VI_max_iter=3, soft=soft).fit(m, [[0, 1]], show_progress=False)


def plans(sas, F, gamma, soft, cache):
    """action values per feature, the feature alone being worth 1"""
    key = (sas.tobytes(), F.tobytes())
    if key not in cache:
        cache[key] = np.stack([(ref.soft_fixed_point if soft else ref.optimal)(sas, F[f], gamma)[1] for f in range(F.shape[0])], axis=2)
    return cache[key]


def case(ctx, i):
    rng = ctx.rng
    kind = gen.pick(rng, ["square", "hex", "det"])
    spec = gen.mdp_spec(rng, kinds=(kind,), max_cells=20, min_cells=3, style=gen.pick(rng, ["binary", "dense", "float", "signed", "sparse"]))
    many = gen.coin(rng, 0.4)
    soft = gen.coin(rng, 0.5)
    gamma = float(gen.pick(rng, [0.3, 0.7, 0.9]))
    decay = gen.pick(rng, [0, 1, 0.5, 2])
    lr, asym = float(gen.pick(rng, [0.05, 0.3, 1.0])), float(gen.pick(rng, [1.2, 2, 5]))
    nf = spec["features"].shape[0]
    kw = dict(learning_rate=lr, decay=decay, asymmetry=asym, tol=1e-11, VI_discount=gamma, VI_max_iter=2000, soft=soft, normalisation="z-score")
    est = np.zeros(nf)
    if gen.coin(rng, 0.4):
        est = np.round(rng.normal(size=nf), 2)
        kw["theta"] = est.copy() if gen.coin(rng, 0.7) else est.tolist()
        ctx.n("starting_weights")
    L = HyptestIRL(**kw)
    known = np.ones(nf, bool)
    cache = {}
    ctx.desc = dict(mdp=gen.describe(spec), settings=kw)
    for fit in range(int(gen.pick(rng, [1, 1, 2, 3]))):
        k = int(rng.integers(1, 5))
        ms, tr, T = [], [], []
        for j in range(k):
            sp = spec
            if many:
                sp = dict(spec, features=gen.features(rng, nf, spec["features"].shape[1], gen.pick(rng, ["binary", "float", "dense"])))
                if kind == "det":
                    S, A, _ = spec["sas"].shape
                    sp["sas"] = gen.dir_sas(rng, S, A)
                else:
                    sp["walls"] = gen.walls(rng, S_of(spec))
            sas = gen.spec_sas(sp)
            free = gen.movable(sas)
            if not len(free):
                sp = dict(sp, walls=None)
                sas = gen.spec_sas(sp)
                free = gen.movable(sas)
            t = gen.walk(rng, sas, gen.pick(rng, free), int(gen.pick(rng, [0, 1, 2, 4, 8])) if gen.coin(rng, 0.97) else int(rng.integers(9, 90)))
            ms.append(gen.build_mdp(sp)); tr.append(t); T.append((sas, sp["features"]))
            if sp["walls"] is not None and sp["walls"].any():
                ctx.n("walled")
        if not many:
            ms = [ms[0]] * k
        if not any(len(t) > 1 for t in tr):
            continue
        if any(len(t) == 1 for t in tr):
            ctx.n("short_trajectories")
        ign = [int(x) for x in rng.permutation(nf)[:int(rng.integers(1, nf + 1))]] if gen.coin(rng, 0.3) else []
        known[ign] = False
        arg = ms if many else ms[0]
        given = [list(t) if gen.coin(rng, 0.7) else np.array(t) for t in tr]
        got = L.fit(arg, given, show_progress=False, **({"ignore_features": tuple(ign) if gen.coin(rng, 0.5) else ign} if ign or gen.coin(rng, 0.3) else {}))
        ctx.trace.append(["fit", tr, ign])
        got, steps, ends = np.array(got, float), np.array(L.theta_array, float), np.array(L.trajectory_theta, float)
        total = sum(len(t) - 1 for t in tr)
        ctx.check(got.shape == (nf,) and steps.shape == (total, nf) and ends.shape == (k, nf), "wrong number of estimates", got=[got.shape, steps.shape, ends.shape])
        n = 0
        for j, t in enumerate(tr):
            sas, F = T[j]
            for s, t2 in zip(t[:-1], t[1:]):
                n += 1
                ok = ref.valid_mask(sas)[s]
                a = int(np.argmax(sas[s, :, t2] > 0))
                Q = plans(sas, F, gamma, soft, cache)[s][ok]
                mean, sd = Q.mean(axis=0), Q.std(axis=0)
                known &= sd > 1e-4 * (1 + np.abs(Q).max(axis=0))
                R = np.where(known, (plans(sas, F, gamma, soft, cache)[s, a] - mean) / np.where(known, sd, 1), 0)
                gap = np.abs(R) - np.abs(est)
                if decay:
                    known &= (np.abs(gap) > 1e-4) | (np.abs(R - est) < 1e-12)
                    rate = lr * np.where(gap < 0, asym, 1 / asym) * n ** -float(decay)
                    ctx.n("raised_rates", int((known & (gap < 0)).sum())); ctx.n("lowered_rates", int((known & (gap > 0)).sum()))
                else:
                    rate = lr
                    ctx.n("plain_rates")
                est = np.where(known, est + rate * (R - est), 0)
                ctx.check(np.allclose(steps[n - 1][known], est[known], rtol=1e-5, atol=1e-5), "estimate after a move is not what the rule gives", fit=fit, move=n,
                          got=steps[n - 1], want=est, judged=known, evidence=R)
                ctx.n("moves"); ctx.n("weights_compared", int(known.sum()))
                if n > 3:
                    ctx.n("later_moves", int(known.sum()))
            ctx.check(np.allclose(ends[j][known], est[known], rtol=1e-5, atol=1e-5), "estimate after a trajectory is not what the rule gives", fit=fit, trajectory=j,
                      got=ends[j], want=est, judged=known)
        ctx.check(np.allclose(got[known], est[known], rtol=1e-5, atol=1e-5) and np.allclose(np.array(L.theta, float)[known], est[known], rtol=1e-5, atol=1e-5),
                  "final estimate is not what the rule gives", got=got, want=est, judged=known)
        # keep the judged estimate exact for the next fit
        est = np.where(known, got, 0)
        ctx.n("fits"); ctx.n("soft_plans" if soft else "hard_plans")
        if fit:
            ctx.n("continued_fits")
        if many:
            ctx.n("mdp_lists")
        if ign:
            ctx.n("ignored")
        if known.any():
            ctx.sig(ctx.desc, ctx.trace)
        if gen.coin(rng, 0.3):
            refuse(ctx, kw, ms[0], T[0][0], many, ms, tr)
    ctx.sample(desc=ctx.desc, fits=ctx.trace, weights=est, judged=known)


def S_of(spec):
    return spec["features"].shape[1]


def refuse(ctx, kw, m, sas, many, ms, tr):
    """moves that are not possible, and lists that do not match"""
    far = np.argwhere(~(sas > 0).any(axis=1))
    if len(far):
        s, t = far[ctx.rng.integers(len(far))]
        try:
            r = HyptestIRL(**kw).fit(m, [[int(s), int(t)]], show_progress=False)
        except ValueError:
            ctx.n("refusals")
        else:
            ctx.fail("an impossible move was accepted as evidence", state=s, to=t, result=r)
    if many:
        try:
            r = HyptestIRL(**kw).fit(ms + ms[:1], tr, show_progress=False)
        except (AttributeError, ValueError):
            ctx.n("refusals")
        else:
            ctx.fail("mismatched numbers of MDPs and trajectories were accepted", result=r)
