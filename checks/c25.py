"""C25: MaxEnt reward inference depends only on the evidence."""
import numpy as np
from maMDP.algorithms.irl import MaxCausalEntIRL
from maMDP.algorithms import irl as irl_module
from vlib import gen, ref, warm

CASES = {"quick": 500, "thorough": 5000}
REQUIRE = ["fits", "reordered", "duplicated", "ignored", "permuted", "visit_counts", "updates_checked", "decayed", "undecayed", "hard_fits", "walled",
           "uneven_lengths", "starting_weights", "stochastic", "large_errors", "second_fits"]
RULE = ("case = random trajectories in one MDP with random settings: one fit compared with the exact update rule iteration by iteration, then "
        "with fits on reordered and duplicated trajectories, permuted features and ignored features; visit counts are compared with an exact "
        "sum over time; distinct = distinct (MDP, trajectories, settings)")
ASSUMPTIONS = ["plans (action values) used inside the inference are taken from the learner and judged separately by C10 and C09",
               "comparisons between fits use soft planning, a few iterations and a tolerance of 1e-6, or dyadic evidence"]


def warmup(ctx):
    m = gen.GRID["hex"](features=np.ones((2, 4)), shape=(2, 2))
    for soft in (True, False):
        MaxCausalEntIRL(max_iter_irl=1, VI_max_iter=3, soft=soft).fit(m, [[0, 1]], show_progress=False)
        MaxCausalEntIRL(max_iter_irl=1, VI_max_iter=3, soft=soft, theta=np.ones(2)).fit(m, [[0, 1]], show_progress=False)


def visits(sas, n, pi, p0):
    """sum over n time steps of the state distribution"""
    D, p = np.zeros(len(p0)), p0.copy()
    T = np.einsum("sa,sat->st", pi, sas)
    for _ in range(n):
        D += p
        p = p @ T
    return D


def policy(q, soft):
    return np.array([ref.policy_row(("softmax", 1.0) if soft else ("max",), r) for r in q])


def evidence(tr, S):
    v, p0 = np.zeros(S), np.zeros(S)
    for t in tr:
        for s in t:
            v[s] += 1 / len(t)
        p0[t[0]] += 1
    return v / len(tr), p0 / len(tr)


def case(ctx, i):
    rng = ctx.rng
    spec = gen.mdp_spec(rng, kinds=("square", "hex", "det", "stoch"), max_cells=14, style=gen.pick(rng, ["binary", "dense", "sparse", "float"]))
    size = 1.0
    if gen.coin(rng, 0.12):      # amounts far from 0 and 1
        size = float(gen.pick(rng, [8, 64, 1024, 0.125]))
        spec["features"] = spec["features"] * size
    sas = gen.spec_sas(spec)
    free = gen.movable(sas)
    if not len(free):
        return
    S, A, _ = sas.shape
    F = spec["features"]
    nf = F.shape[0]
    if spec["walls"] is not None and spec["walls"].any():
        ctx.n("walled")
    if spec["kind"] == "stoch":
        ctx.n("stochastic")
    mdp = gen.build_mdp(spec)
    dyadic = gen.coin(rng, 0.5)
    k = int(gen.pick(rng, [1, 2, 4, 8])) if dyadic else int(rng.integers(1, 6))
    tr = []
    for _ in range(k):
        n = int(gen.pick(rng, [1, 2, 4, 8])) - 1 if dyadic else int(rng.integers(0, 9))
        t = gen.walk(rng, sas, gen.pick(rng, free), n)
        if dyadic and len(t) not in (1, 2, 4, 8):
            t = t[:1]
        tr.append(t)
    if len({len(t) for t in tr}) > 1:
        ctx.n("uneven_lengths")
    soft = gen.coin(rng, 0.75)
    its = int(rng.integers(1, 5)) if gen.coin(rng, 0.95) else int(rng.integers(5, 40))
    vi = int(gen.pick(rng, [3, 10, 30]))
    lr = float(gen.pick(rng, [0.01, 0.05, 0.2])) * (0.3 if vi == 30 else 1) / max(size, 1) ** 2
    decay = gen.pick(rng, [0, 1, 0.5, 2])
    ctx.n("decayed" if decay else "undecayed")
    kw = dict(learning_rate=lr, decay=decay, max_iter_irl=its, VI_max_iter=vi, VI_discount=float(gen.pick(rng, [0.3, 0.9])), tol=1e-12, soft=soft)
    theta0 = np.zeros(nf)
    if gen.coin(rng, 0.5):
        theta0 = np.round(rng.normal(size=nf) * 0.5, 2) / max(size, 1)
        kw["theta"] = theta0.copy()
        ctx.n("starting_weights")
    ign = [int(x) for x in rng.permutation(nf)[:int(rng.integers(1, nf + 1))]] if gen.coin(rng, 0.4) else []
    ign = tuple(ign) if gen.coin(rng, 0.5) else ign
    ctx.desc = dict(mdp=gen.describe(spec), trajectories=tr, settings={x: y for x, y in kw.items()}, ignored=ign)
    ctx.sig(ctx.desc)

    def fit(trs, m=mdp, ignore=ign, **over):
        irl = MaxCausalEntIRL(**dict(kw, **over))
        th = irl.fit(m, [list(t) for t in trs], ignore_features=ignore, show_progress=False)
        return irl, np.array(th, float)

    # iteration by iteration against the rule
    v, p0 = evidence(tr, S)
    th = theta0.copy()
    th[list(ign)] = 0
    obs = F @ v
    errs = []
    for n in range(its):
        irl, got = fit(tr, max_iter_irl=n + 1)
        q = np.array(irl.q_values, float)
        pi = policy(q, soft)
        D = visits(sas, vi, pi, p0)
        ctx.check(not hasattr(irl, "D_") or np.allclose(irl.D_, D, rtol=1e-8, atol=1e-8), "expected visits are not the sum of the state distributions over time", got=getattr(irl, "D_", None), want=D)
        ctx.n("visit_counts")
        err = obs - F @ D
        err[list(ign)] = 0
        new = th + lr * (n + 1) ** -float(decay) * err
        ctx.check(np.allclose(got, new, rtol=1e-7, atol=1e-7), "an update is not the decayed rate times observed minus expected", iteration=n, got=got,
                  want=new, before=th)
        ctx.check(not np.any(got[list(ign)]), "an ignored feature got weight", got=got)
        ctx.n("updates_checked")
        if ign:
            ctx.n("ignored")
        if np.abs(err).max() > 100:
            ctx.n("large_errors")
        errs.append(err)
        th = got
        if np.mean(np.abs(err)) < 1e-12:
            break
    final = th
    ctx.n("fits")
    # a second fit on the same learner starts from the weights it has, at the full rate; a reset brings the first fit back
    if gen.coin(rng, 0.4):
        irl, got = fit(tr, max_iter_irl=1)
        irl2, one = fit(tr, max_iter_irl=1, theta=got.copy())
        again = np.array(irl.fit(mdp, [list(t) for t in tr], ignore_features=ign, show_progress=False), float)
        ctx.check(np.allclose(again, one, rtol=1e-7, atol=1e-7), "a second fit does not continue from the weights of the first at the given rate",
                  got=again, want=one, first=got)
        irl.reset()
        b = np.array(irl.fit(mdp, [list(t) for t in tr], ignore_features=ign, show_progress=False), float)
        ctx.check(np.allclose(b, got, rtol=1e-7, atol=1e-7), "a fit after a reset differs from the first fit", got=b, want=got)
        ctx.n("second_fits")
    if not soft:
        ctx.n("hard_fits")
    # the same evidence in other forms
    if soft or dyadic:
        _, b = fit([tr[j] for j in rng.permutation(k)])
        ctx.check(np.allclose(b, final, rtol=1e-6, atol=1e-6), "the order of the trajectories matters", got=b, want=final)
        ctx.n("reordered")
        _, b = fit(tr + tr if gen.coin(rng, 0.5) else [t for t in tr for _ in range(2)])
        ctx.check(np.allclose(b, final, rtol=1e-6, atol=1e-6), "duplicating all trajectories matters", got=b, want=final)
        ctx.n("duplicated")
    if soft:
        p = rng.permutation(nf)
        m2 = gen.build_mdp(dict(spec, features=np.ascontiguousarray(F[p])))
        over = {"theta": theta0[p].copy()} if "theta" in kw else {}
        _, b = fit(tr, m=m2, ignore=[int(np.where(p == x)[0][0]) for x in ign], **over)
        ctx.check(np.allclose(b, final[p], rtol=1e-6, atol=1e-6), "permuting the features does not permute the weights", got=b, want=final[p])
        ctx.n("permuted")
    # visit counts on their own, with any stochastic policy
    pi = rng.dirichlet(np.ones(A), S)
    if gen.coin(rng, 0.3):
        pi = np.eye(A)[rng.integers(A, size=S)]
    p0 = rng.dirichlet(np.ones(S))
    n = int(rng.integers(0, 20))
    keep = (pi.copy(), p0.copy())
    count = getattr(irl_module, "state_visitation_iterator", None)
    D = count(mdp.sas, n, pi, p0) if count is not None else None      # (also observed through the learner above)
    ctx.check(D is None or np.allclose(D, visits(sas, n, pi, p0), rtol=1e-9, atol=1e-9), "expected visits are not the sum of the state distributions over time", steps=n)
    ctx.check(np.array_equal(pi, keep[0]) and np.array_equal(p0, keep[1]), "inputs were modified")
    ctx.n("visit_counts")
    ctx.sample(trajectories=tr, settings=kw, weights=final)
