"""C29: learners can be reset and leave their inputs untouched."""
import copy
import numpy as np
from maMDP.algorithms.irl import MaxCausalEntIRL, HyptestIRL, MFFeatureMatching, SimpleActionIRL, SimpleActionFeatureDiffIRL
from maMDP.algorithms.policy_learning import TDGeneralPolicyLearner
from checks import c25
from vlib import gen, ref, warm

CASES = {"quick": 1000, "thorough": 10000}
LEARNERS = ["mce", "hyptest", "matching", "action", "contrast", "td"]
REQUIRE = ["refits_" + l for l in LEARNERS] + ["initial_estimates", "input_checksums", "earlier_results", "siblings", "walled", "with_agents",
                                              "other_data_between", "several_mdps", "supplied_starts"]
RULE = ("case = one learner with random settings and (mostly) a caller-supplied initial estimate, taken through a random history of fits on two data sets "
        "and resets: every fit that follows a reset is compared with the first fit on the same data, and all caller data with copies made at the start; "
        "distinct = distinct (learner, settings, data, history)")
ASSUMPTIONS = ["hypothesis testing is used with z-score normalisation (the other option is not implemented)"]


def warmup(ctx):
    warm.hexgrid()
    m = gen.GRID["hex"](features=np.ones((2, 4)), shape=(2, 2))
    for soft in (True, False):
        MaxCausalEntIRL(max_iter_irl=1, VI_max_iter=3, soft=soft, theta=np.ones(2)).fit(m, [[0, 1]], show_progress=False)
        HyptestIRL(normalisation="z-score", VI_max_iter=3, soft=soft).fit(m, [[0, 1]], show_progress=False)


def eq(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-12, atol=1e-12, equal_nan=True)


def data(rng, kinds, nf, k, several, stay, agents):
    """(list of MDPs or one MDP, trajectories)"""
    spec = gen.mdp_spec(rng, kinds=kinds, max_cells=12, n_features=nf, stay=stay, style=gen.pick(rng, ["binary", "dense", "float"]))
    if gen.coin(rng, 0.1):      # tiny amounts
        spec["features"] = spec["features"] * 1e-4
    specs = [spec] * k
    if several:      # one MDP per trajectory: same transitions, different features
        specs = [dict(spec, features=gen.features(rng, nf, spec["features"].shape[1], "dense")) for _ in range(k)]
    free = gen.movable(gen.spec_sas(spec))
    if not len(free):
        return None
    tr = [gen.walk(rng, gen.spec_sas(spec), gen.pick(rng, free), int(rng.integers(1, 8))) for _ in range(k)]
    ms = [gen.build_mdp(s) for s in specs] if several else gen.build_mdp(spec)
    if agents:
        for m in (ms if several else [ms]):
            m.add_agent_feature(int(gen.pick(rng, free)))
    return spec, ms, tr


def make(rng, name, n, A):
    est = None
    if name == "mce":
        kw = dict(learning_rate=float(gen.pick(rng, [0.02, 0.1])), decay=gen.pick(rng, [0, 1, 0.5]), max_iter_irl=int(rng.integers(1, 5)),
                  VI_max_iter=int(gen.pick(rng, [3, 12])), soft=gen.coin(rng, 0.6))
        if gen.coin(rng, 0.75):
            est = np.round(rng.normal(size=n), 2)
            kw["theta"] = est
        return (lambda: MaxCausalEntIRL(**kw)), est, kw
    if name == "hyptest":
        kw = dict(learning_rate=float(gen.pick(rng, [0.05, 0.3])), decay=gen.pick(rng, [0, 1, 0.5]), asymmetry=float(gen.pick(rng, [1.5, 2, 4])),
                  VI_max_iter=int(gen.pick(rng, [3, 12, 60])), soft=gen.coin(rng, 0.5), normalisation="z-score")
        if gen.coin(rng, 0.75):
            est = np.round(rng.normal(size=n), 2)
            kw["theta"] = est
        return (lambda: HyptestIRL(**kw)), est, kw
    if name == "td":
        kw = dict(learning_rate=float(gen.pick(rng, [0.05, 0.3])), decay=gen.pick(rng, [0, 0.5, 1]), kernel=gen.coin(rng, 0.4))
        if gen.coin(rng, 0.75):
            est = np.round(rng.normal(size=A), 2)
            kw["Q"] = est
        return (lambda: TDGeneralPolicyLearner(**kw)), est, kw
    return {"matching": MFFeatureMatching, "action": SimpleActionIRL, "contrast": SimpleActionFeatureDiffIRL}[name], None, {}


def run_fit(name, L, ms, tr, ign):
    """fits; returns the array the caller is handed"""
    if name in ("mce", "hyptest"):
        return L.fit(ms, tr, ignore_features=ign, show_progress=False)
    if name == "matching":
        return L.fit(ms, tr, ign)
    if name in ("action", "contrast"):
        return L.fit(ms if isinstance(ms, list) else [ms] * len(tr), tr)
    L.fit(ms, tr)
    return L.get_q_values(0)


def case(ctx, i):
    rng = ctx.rng
    name = LEARNERS[i % len(LEARNERS)]
    nf = int(rng.integers(1, 4))
    several = name != "mce" and gen.coin(rng, 0.5)
    kinds = ("square", "hex") if name in ("action", "contrast") else ("square", "hex", "det", "stoch") if name in ("matching", "td", "mce") else ("square", "hex", "det")
    kinds = (gen.pick(rng, kinds),)
    stay = gen.coin(rng, 0.5)
    agents = gen.coin(rng, 0.3)
    sets = []
    for _ in range(2):
        for _ in range(30):
            d = data(rng, kinds, nf, int(rng.integers(1, 4)), several, stay, agents)
            if d is not None and (not sets or (d[1][0] if several else d[1]).n_actions == (sets[0][1][0] if several else sets[0][1]).n_actions):
                break
            d = None
        if d is None:
            return
        sets.append(d)
    n = nf + int(agents)
    A = (sets[0][1][0] if several else sets[0][1]).n_actions
    new, est, kw = make(rng, name, n, A)
    ign = [int(x) for x in rng.permutation(n)[:int(rng.integers(1, n + 1))]] if name in ("mce", "matching", "hyptest") and gen.coin(rng, 0.4) else []
    ctx.desc = dict(learner=name, settings=kw, ignored=ign, data=[dict(mdp=gen.describe(d[0]), trajectories=d[2]) for d in sets])
    if sets[0][0]["walls"] is not None and sets[0][0]["walls"].any():
        ctx.n("walled")
    if agents:
        ctx.n("with_agents")
    if several:
        ctx.n("several_mdps")
    est0 = None if est is None else est.copy()
    if est is not None:
        ctx.n("initial_estimates")
    ign0 = list(ign)
    keep = [([(m.features.copy(), m.sas.copy(), m.walls.copy()) for m in (d[1] if several else [d[1]])], copy.deepcopy(d[2])) for d in sets]
    if gen.coin(rng, 0.3):
        for d in sets:
            d[2][:] = [np.array(t) for t in d[2]]
    if name == "mce" and est is not None:      # the first update starts from the supplied estimate
        one = MaxCausalEntIRL(**dict(kw, max_iter_irl=1, decay=0))
        got = np.array(run_fit(name, one, sets[0][1], sets[0][2], ign), dtype=float)
        m = sets[0][1]
        v, p0 = c25.evidence(sets[0][2], m.n_states)
        D = c25.visits(m.sas, kw["VI_max_iter"], c25.policy(np.array(one.q_values, float), kw["soft"]), p0)
        want = est0 + kw["learning_rate"] * (m.features @ (v - D))
        want[ign] = 0
        ctx.check(np.allclose(got, want, rtol=1e-7, atol=1e-7), "the estimate does not start from the initial estimate", got=got, want=want, initial=est0)
        ctx.n("supplied_starts")
    L = new()
    sib = new() if gen.coin(rng, 0.4) else None      # another learner given the same initial estimate
    first, returned, clean, history = {}, [], True, []
    old_results = []

    def untouched(after):
        ctx.check(est is None or np.array_equal(est, est0), "caller's initial estimate was changed", after=after, history=history, got=est, want=est0)
        ctx.check(ign == ign0, "caller's list of ignored features was changed", after=after)
        for d, (ks, kt) in zip(sets, keep):
            for m, (f, s, w) in zip(d[1] if several else [d[1]], ks):
                ctx.check(np.array_equal(m.features, f) and np.array_equal(m.sas, s) and np.array_equal(m.walls, w), "an MDP was changed", after=after, history=history)
            ctx.check(len(kt) == len(d[2]) and all(list(map(int, a)) == b for a, b in zip(d[2], kt)), "trajectories were changed", after=after, got=d[2], want=kt)
        ctx.n("input_checksums")
        for arr, val in old_results:
            ctx.check(eq(arr, val), "a result returned before the reset was changed", after=after, history=history, got=arr, want=val)
            ctx.n("earlier_results")

    for step in range(int(rng.integers(3, 8))):
        k = int(rng.integers(2))
        u = rng.random()
        if step and u < 0.45 and not clean:
            old_results += [(a, np.array(a, dtype=float).copy()) for a in returned]
            returned = []
            if hasattr(L, "reset"):
                L.reset()
            clean = True
            history.append("reset")
            untouched("reset")
            continue
        history.append("fit %d" % k)
        if not clean and k not in [int(h[-1]) for h in history[:-1] if h.startswith("fit")][-1:]:
            ctx.n("other_data_between")
        r = run_fit(name, L, sets[k][1], sets[k][2], ign)
        if clean or name in ("matching", "action", "contrast"):
            if name in ("matching", "action", "contrast"):      # each fit starts afresh, so earlier results belong to an earlier estimate
                old_results += [(a, np.array(a, dtype=float).copy()) for a in returned]
                returned = []
            val = np.array(r, dtype=float).copy()
            if k in first:
                ctx.check(eq(val, first[k]), "fit after a reset differs from the first fit on the same data", data=k, history=history, got=val, want=first[k])
                ctx.n("refits_" + name)
            first.setdefault(k, val)
            if clean:
                fresh = np.array(run_fit(name, new(), sets[k][1], sets[k][2], ign), dtype=float)
                ctx.check(eq(fresh, val), "reset learner and new learner disagree", data=k, history=history, got=val, want=fresh)
                ctx.n("refits_" + name)
        returned.append(r)
        clean = False
        untouched("fit")
        if sib is not None and gen.coin(rng, 0.5):
            val = np.array(run_fit(name, sib, sets[k][1], sets[k][2], ign), dtype=float).copy()
            want = np.array(run_fit(name, new(), sets[k][1], sets[k][2], ign), dtype=float)
            ctx.check(eq(val, want), "a learner was influenced by another one with the same initial estimate", got=val, want=want, history=history)
            ctx.n("siblings")
            sib = None
            untouched("another learner's fit")
    ctx.sig(ctx.desc, history)
    ctx.sample(learner=name, settings=kw, history=history, first=first)
