"""C11: action probabilities follow the selection rule for any values."""
import numpy as np
from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector
from vlib import gen, ref

CASES = {"quick": 5000, "thorough": 60000}
REQUIRE = ["rows_max", "rows_softmax", "rows_with_ties", "rows_unestimated", "rows_with_missing", "rows_with_impossible", "rows_huge", "rows_from_planners", "integer_values"]
RULE = ("case = one array of action values (1-30 states, 1-9 actions; ties, magnitudes 1e-300 to 1e308, minus infinity, missing) and one "
        "selector; every row is compared with an extended-precision evaluation of the rule; distinct = distinct arrays with more than "
        "one action and some finite value")


def warmup(ctx):
    SoftmaxActionSelector().get_pi_p(np.zeros((2, 2)))


def case(ctx, i):
    rng = ctx.rng
    S, A = int(rng.integers(1, 31)), int(rng.integers(1, 10))
    if gen.coin(rng, 0.02):
        S, A = int(rng.integers(1, 300)), int(rng.integers(1, 70))
    q = gen.hostile_q(rng, S, A)
    if gen.coin(rng, 0.15):
        q = q.T.copy().T if gen.coin(rng, 0.5) else np.asfortranarray(q)
    if gen.coin(rng, 0.06):
        q = rng.integers(-3, 4, size=(S, A)) * int(gen.pick(rng, [1, 1, 100, 10 ** 9]))
        q = q.astype(gen.pick(rng, [np.int64, np.int64, np.int32])) if np.abs(q).max() < 2 ** 31 else q
        ctx.n("integer_values")
    soft = gen.coin(rng, 0.6)
    if soft:
        temp = float(gen.pick(rng, [1, 1, 0.01, 0.1, 0.7, 5, 100, 1e6, 1e-3, 1e-4]))
        sel, rule = SoftmaxActionSelector(temperature=temp, seed=None if gen.coin(rng, 0.5) else 3), ("softmax", temp)
    else:
        sel, rule = MaxActionSelector(seed=None if gen.coin(rng, 0.5) else 3), ("max",)
    if gen.coin(rng, 0.3):     # earlier use must not matter
        sel.get_pi_p(gen.hostile_q(rng, int(rng.integers(1, 9)), int(rng.integers(1, 9))))
    given = q.copy()
    before = q.astype(float)
    p = np.asarray(sel.get_pi_p(q))
    ctx.desc = dict(rule=rule, q=before)
    ctx.check(q.dtype == given.dtype and np.array_equal(q, given, equal_nan=q.dtype.kind == 'f'), "the supplied values were modified")
    ctx.check(p.shape == (S, A), "wrong shape", got=p.shape)
    for s in range(S):
        row = before[s]
        if np.isnan(row).all():
            ctx.check(np.isnan(p[s]).all(), "a state without estimates has a policy", state=s, got=p[s])
            ctx.n("rows_unestimated")
            continue
        if not np.isfinite(row).any():
            continue
        no = ~np.isfinite(row)
        ctx.check(np.all(p[s] >= 0) and np.isfinite(p[s]).all(), "negative or undefined probability", state=s, got=p[s], q=row)
        ctx.check(abs(p[s].sum() - 1) < 1e-9, "probabilities do not sum to 1", state=s, got=p[s], q=row)
        ctx.check(np.all(p[s][no] == 0), "impossible or missing action has probability", state=s, got=p[s], q=row)
        want = ref.policy_row(rule, row)
        if rule[0] == "max":
            ctx.check(np.allclose(p[s], want, rtol=1e-12, atol=0), "max rule broken", state=s, got=p[s], want=want, q=row)
        else:
            # the exponent carries the rounding of value/temperature; compare with that error
            f = row[np.isfinite(row)]
            err = 1e-9 + 1e-15 * min(1e6, np.abs(f).max() / rule[1])
            ctx.check(np.allclose(p[s], want, rtol=err, atol=1e-12), "softmax rule broken", state=s, got=p[s], want=want, q=row)
        ctx.n("rows_" + rule[0])
        ctx.n("rows_with_missing", int(np.isnan(row).any())); ctx.n("rows_with_impossible", int(np.isneginf(row).any()))
        ctx.n("rows_with_ties", int((row == np.nanmax(row)).sum() > 1)); ctx.n("rows_huge", int(np.abs(row[np.isfinite(row)]).max() > 1e100))
    if i % 100 == 0:     # the policy attached to an agent after planning follows the same rule
        spec = gen.env_spec(rng, planners=("table", "null"), n_agents=1)
        env = gen.build_env(spec)
        a = spec["agents"][0]
        env.fit(a["name"])
        Q, P = env.get_agent_q_values(a["name"]), env.get_agent_pi_p(a["name"])
        rr = ("max",) if a["selector"][0] == "max" else ("softmax", a["selector"][1]["temperature"])
        for s in range(Q.shape[0]):
            if np.isfinite(Q[s]).any():
                ctx.check(np.allclose(P[s], ref.policy_row(rr, Q[s]), rtol=1e-9, atol=1e-12), "agent policy breaks the rule", state=s)
                ctx.n("rows_from_planners")
    if A > 1 and np.isfinite(before).any():
        ctx.sig(rule, before.tobytes().hex())
    ctx.sample(rule=rule, q=before[:3], p=p[:3])
