"""C24: the policy learner follows its learning rule exactly."""
import numpy as np
from maMDP.algorithms.policy_learning import TDGeneralPolicyLearner
from vlib import gen, ref, warm

CASES = {"quick": 3000, "thorough": 30000}
REQUIRE = ["fits", "updates", "kernel_fits", "decayed_fits", "undecayed_fits", "starting_preferences", "empty_trajectories", "repeated_fits", "mdp_lists",
           "one_state_trajectories", "all_states_alike", "nondeterministic"]
RULE = ("case = random trajectories (empty and single-state ones included; one or several MDPs of any kind) fitted once, repeatedly and after "
        "resets with random rate, decay, kernel and starting preferences; preferences are compared with the rule; distinct = distinct "
        "(trajectories, settings)")


def warmup(ctx):
    warm.hexgrid()


def rule(Q, acts, lr, decay, kernel, ls):
    Q = Q.copy()
    A = len(Q)
    for n, a in enumerate(acts, 1):
        if kernel:
            d = np.abs(np.arange(A) - a) * (360 / A)
            d = np.minimum(d, 360 - d)
            o = np.exp(-(d ** 2 / 2 * ls ** 2))
        else:
            o = (np.arange(A) == a).astype(float)
        Q = Q + lr * n ** -float(decay) * (o - Q)
    return Q


def case(ctx, i):
    rng = ctx.rng
    kinds = gen.pick(rng, [("square",), ("hex",), ("det",), ("stoch",)])
    base = gen.mdp_spec(rng, kinds=kinds, max_cells=16)
    sas0 = gen.spec_sas(base)
    A = sas0.shape[1]
    k = int(rng.integers(1, 6))
    several = gen.coin(rng, 0.5)
    ms = [base]
    if several:
        ms = []
        for _ in range(k):
            for _ in range(50):
                m = gen.mdp_spec(rng, kinds=kinds, max_cells=16, stay=base.get("stay"))
                if gen.spec_sas(m).shape[1] == A:
                    break
            else:
                m = base
            ms.append(m)
        ctx.n("mdp_lists")
    else:
        ms = [base] * k
    tr, acts = [], []
    for m in ms:
        sas = gen.spec_sas(m)
        free = gen.movable(sas)
        u = rng.random()
        if u < 0.15 or not len(free):
            tr.append([])
            ctx.n("empty_trajectories")
            continue
        t = gen.walk(rng, sas, gen.pick(rng, free), 0 if u < 0.25 else int(rng.integers(1, 9)) if u < 0.95 else int(rng.integers(9, 120)))
        tr.append(t)
        if len(t) == 1:
            ctx.n("one_state_trajectories")
        for s, s2 in zip(t[:-1], t[1:]):
            acts.append(int(np.argmax(sas[s, :, s2])))      # the (first) most likely action producing the move
    if m["kind"] == "stoch":
        ctx.n("nondeterministic")
    lr = float(gen.pick(rng, [0.05, 0.3, 0.9, 1.0]))
    decay = gen.pick(rng, [0, 0.5, 1, 2])
    kernel, ls = gen.coin(rng, 0.4), float(gen.pick(rng, [0.005, 0.02, 0.1]))
    Q0 = np.round(rng.normal(size=A), 2) if gen.coin(rng, 0.4) else None
    kw = dict(learning_rate=lr, decay=decay, kernel=kernel, ls=ls)
    if Q0 is not None:
        kw["Q"] = Q0.copy()
        ctx.n("starting_preferences")
    ctx.desc = dict(mdps=[gen.describe(m) for m in ms], trajectories=tr, **kw)
    L = TDGeneralPolicyLearner(**kw)
    mdp = [gen.build_mdp(m) for m in ms] if several else gen.build_mdp(base)
    cur = np.zeros(A) if Q0 is None else Q0.astype(float)
    for rep in range(int(rng.integers(1, 4))):
        L.fit(mdp, [list(t) for t in tr])
        cur = rule(cur, acts, lr, decay, kernel, ls)
        S = (mdp[0] if several else mdp).n_states
        for s in {0, S - 1, int(rng.integers(S))}:
            q = np.array(L.get_q_values(s), float)
            ctx.check(q.shape == (A,) and np.allclose(q, cur, rtol=1e-9, atol=1e-12), "preferences do not follow the learning rule", got=q, want=cur, fit=rep,
                      actions=acts)
            ctx.n("all_states_alike")
        ctx.n("fits"); ctx.n("updates", len(acts))
        if rep:
            ctx.n("repeated_fits")
        if gen.coin(rng, 0.3):
            L.reset()
            cur = np.zeros(A) if Q0 is None else Q0.astype(float)
    ctx.n("kernel_fits" if kernel else "plain_fits")
    ctx.n("decayed_fits" if decay else "undecayed_fits")
    if acts:
        ctx.sig(tr, kw)
    ctx.sample(trajectories=tr, settings=kw, preferences=cur)
