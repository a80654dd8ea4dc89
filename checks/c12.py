"""C12: chosen actions are drawn from the policy, reproducibly when seeded."""
import numpy as np
from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector
from vlib import gen, ref

CASES = {"quick": 900, "thorough": 9000}
REQUIRE = ["choices_checked", "goodness_of_fit_tests", "seeded_twins", "global_state_checks", "unestimated_states", "mdp_twins", "null_draws", "one_state_at_a_time", "rare_actions"]
RULE = ("case = one array of action values and selector: every choice is checked against the policy's support, 3000 draws of one row (15000 where an action is rare) are "
        "tested for goodness of fit, and seeded twins are compared draw by draw under different global generator states; distinct = "
        "distinct (selector, row) with at least two possible actions")


def warmup(ctx):
    SoftmaxActionSelector().get_pi_p(np.zeros((2, 2)))


def make(rule, seed):
    return MaxActionSelector(seed=seed) if rule[0] == "max" else SoftmaxActionSelector(temperature=rule[1], seed=seed)


def gstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def case(ctx, i):
    rng = ctx.rng
    rule = ("max",) if gen.coin(rng, 0.5) else ("softmax", float(gen.pick(rng, [0.05, 0.5, 1, 4])))
    S, A = int(rng.integers(1, 15)), int(rng.integers(1, 8))
    if gen.coin(rng, 0.02):
        S, A = int(rng.integers(1, 300)), int(rng.integers(1, 70))
    q = gen.hostile_q(rng, S, A)
    ctx.desc = dict(rule=rule, q=q)
    seed = gen.seed(rng) if gen.coin(rng, 0.5) else None
    sel = make(rule, seed)
    before = q.copy()
    for _ in range(3):
        pi = np.asarray(sel.get_pi(q))
        ctx.check(np.array_equal(q, before, equal_nan=True), "the supplied values were modified")
        ctx.check(pi.shape == (S,), "wrong shape", got=pi.shape)
        for s in range(S):
            if np.isnan(q[s]).all():
                ctx.check(pi[s] == -1, "a state without estimates got an action", state=s, got=pi[s])
                ctx.n("unestimated_states")
            elif np.isfinite(q[s]).any():
                w = ref.policy_row(rule, q[s])
                ctx.check(pi[s] == int(pi[s]) and 0 <= pi[s] < A and w[int(pi[s])] > 0, "chose an action with zero probability", state=s,
                          got=pi[s], p=w, q=q[s])
                ctx.n("choices_checked")
    # frequencies: many copies of one row in one call
    if i % 2 == 0:
        A = int(rng.integers(2, 7))
        row = np.round(rng.normal(size=A), 1) if gen.coin(rng, 0.5) else rng.integers(0, 3, A).astype(float)
        if gen.coin(rng, 0.4):
            row[rng.integers(A)] = gen.pick(rng, [-np.inf, np.nan])
        if np.isfinite(row).any():
            p = ref.policy_row(rule, row)
            sel = make(rule, gen.seed(rng) if gen.coin(rng, 0.5) else None)
            k = 3000
            if i % 10 == 0:      # the same one state (or a few) at a time
                k, per = 1200, int(gen.pick(rng, [1, 1, 2, 3]))
                draws = np.concatenate([np.asarray(sel.get_pi(np.tile(row, (per, 1)))).astype(int) for _ in range(k // per)])
                ctx.n("one_state_at_a_time")
            else:
                draws = np.asarray(sel.get_pi(np.tile(row, (k, 1)))).astype(int)
            ctx.check(np.all((draws >= 0) & (draws < A)), "action out of range")
            counts = np.bincount(draws, minlength=A)
            ctx.check(ref.chi2_ok(counts, p), "choice frequencies do not match the policy", row=row, p=p, counts=counts)
            ctx.n("goodness_of_fit_tests")
            if (p > 0).sum() > 1:
                ctx.sig(rule, row)
    if i % 15 == 7:      # rare actions are chosen as rarely as the policy says, not never
        t, A2 = float(gen.pick(rng, [0.5, 1, 2])), int(rng.integers(2, 6))
        row = np.full(A2, -t * float(rng.uniform(5.4, 6.2)))
        row[int(rng.integers(A2))] = 0
        p = ref.policy_row(("softmax", t), row)
        draws = np.asarray(make(("softmax", t), gen.seed(rng) if gen.coin(rng, 0.5) else None).get_pi(np.tile(row, (15000, 1)))).astype(int)
        counts = np.bincount(draws, minlength=A2)
        ctx.check(ref.chi2_ok(counts, p), "choice frequencies do not match the policy (rare actions)", row=row, p=p, counts=counts)
        ctx.n("rare_actions", int(counts.sum() - counts.max()))
    # seeded twins under different global generator states
    s0 = gen.seed(rng)
    qs = [gen.hostile_q(rng, S, A) for _ in range(4)]
    qs = [np.where(np.isfinite(x).any(axis=1, keepdims=True) | np.isnan(x).all(axis=1, keepdims=True), x, 1.0) for x in qs]
    one = make(rule, s0)
    early = make(rule, s0) if gen.coin(rng, 0.5) else None
    a = [np.array(one.get_pi(x)) for x in qs]
    np.random.seed(int(rng.integers(10 ** 6)))
    np.random.random(int(rng.integers(50)))
    g = gstate()
    two = early or make(rule, s0)
    b = []
    for x in qs:
        b.append(np.array(two.get_pi(x)))
        two.get_pi_p(x)
    ctx.check(gstate() == g, "a seeded selector disturbed the global generator")
    ctx.check(all(np.array_equal(x, y) for x, y in zip(a, b)), "same seed, different choices", first=a, second=b)
    ctx.n("seeded_twins"); ctx.n("global_state_checks")
    if i % 3 == 0:     # seeded MDPs
        sp = gen.mdp_spec(rng, kinds=("stoch",))
        sp["seed"] = s0
        m1 = gen.build_mdp(sp)
        m2 = gen.build_mdp(sp) if gen.coin(rng, 0.5) else None
        pairs = [(s, a_) for s in range(sp["sas"].shape[0]) for a_ in range(sp["sas"].shape[1]) if sp["sas"][s, a_].any()]
        pairs = [gen.pick(rng, pairs) for _ in range(40)]
        x = [int(m1.get_next_state(*pr)) for pr in pairs]
        np.random.seed(int(rng.integers(10 ** 6)))
        g = gstate()
        m2 = m2 or gen.build_mdp(sp)
        y = [int(m2.get_next_state(*pr)) for pr in pairs]
        ctx.check(gstate() == g, "a seeded MDP disturbed the global generator")
        ctx.check(x == y, "same MDP seed, different transitions", first=x, second=y)
        ctx.n("mdp_twins")
    if i % 50 == 0:    # an agent without preferences spreads over exactly the possible actions
        sp = gen.env_spec(rng, planners=("null",), n_agents=1, consume=False, kinds=("square", "hex", "det"))
        env = gen.build_env(sp)
        nm, s = sp["agents"][0]["name"], sp["agents"][0]["position"]
        env.fit(nm)
        sas = gen.spec_sas(sp["mdp"])
        ok = ref.valid_mask(sas)[s]
        p = (ok / ok.sum()) @ sas[s]
        counts = np.zeros(sas.shape[0])
        for _ in range(300):
            env.set_agent_position(nm, s)
            counts[env.step(nm)] += 1
        ctx.check(ref.chi2_ok(counts, p), "an agent without preferences does not spread over its possible moves", counts=counts, p=p)
        ctx.n("null_draws", 300)
    ctx.sample(rule=rule, seed=seed, q=q[:2])
