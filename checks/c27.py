"""C27: invalid requests are rejected without any effect."""
import numpy as np
import warnings
from vlib import gen, ref, warm
from vlib.driver import Driver, Snap
from maMDP.mdp import MDP, SquareGridMDP, HexGridMDP
from maMDP.environments import Environment, get_n_moves_plan
from maMDP.agents import Agent
from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector
from maMDP.algorithms.dynamic_programming import ValueIteration

CASES = {"quick": 400, "thorough": 5000}
REQUIRE = ["refused_env", "refused_mdp", "refused_constructor", "refused_values", "refused_unfitted", "failing_planner", "still_working", "refused_midway", "planner_swaps"]
RULE = ("case = one environment driven through a random history with invalid requests (unknown names, bad positions, malformed walls, features, "
        "plans, requests before fitting, failing planners) injected at random points, plus a batch of malformed constructors and action values; "
        "distinct = distinct (environment, injected request, point) combinations")
ASSUMPTIONS = ["requests whose error type is not documented only have to be refused with some exception"]
ANY = Exception


def warmup(ctx):
    warm.vi(); warm.softmax()


def refused(ctx, what, f, kinds):
    try:
        r = f()
    except kinds:
        ctx.n("refusals")
    except Exception as e:
        ctx.fail("refused with an error of another kind", request=what, error=repr(e)[:200], expected=str(kinds))
    else:
        ctx.fail("invalid request was accepted", request=what, result=repr(r)[:200])


def bad_walls(rng, S):
    u = int(rng.integers(6))
    if u == 0:
        return np.zeros((S, 1)), AttributeError
    if u == 1:
        return np.zeros(S + 1), AttributeError
    if u == 2:
        return np.zeros(max(0, S - 1)), AttributeError
    w = np.zeros(S)
    w[rng.integers(S)] = float(gen.pick(rng, [2, -1, 0.5, np.nan, np.inf]))
    if u == 3:
        w[rng.integers(S)] = -3
    return w, ValueError


def bad_sas(rng, S, A):
    u = int(rng.integers(6))
    if u == 0:
        return np.zeros((S, S)), (TypeError, AttributeError)
    if u == 1:
        return np.zeros((S, A, S + 1)), (TypeError, AttributeError)
    if u == 2:
        return [[[0.0] * S] * A] * S, TypeError
    s = gen.dir_sas(rng, S, A)
    s[rng.integers(S), rng.integers(A), rng.integers(S)] = float(gen.pick(rng, [-0.25, 1.5, -1, 2, 1.0000001, -1e-9]))
    return s, AttributeError


def bad_features(rng, nf, S):
    u = int(rng.integers(4))
    if u == 0:
        return [[0.0] * S] * nf, TypeError
    if u == 1:
        return np.zeros((nf, S + int(gen.pick(rng, [-1, 1, 7])) if S > 1 else S + 1)), AttributeError
    if u == 2:
        return None, TypeError
    return np.zeros((S, nf)) if nf != S else np.zeros((nf, S + 2)), AttributeError


def bad_position(rng, S):
    return gen.pick(rng, [(-1, ValueError), (S, ValueError), (S + 5, ValueError), (-S, ValueError), (0.5, ANY), (S - 0.5, ANY), (None, ANY), ("x", ANY),
                          (np.int64(S), ValueError), (-10 ** 12, ValueError), (10 ** 12, ValueError)])


def bad_agents(rng, nf, S, na):
    """agents of which one (not always the first) is malformed"""
    ag = []
    bad = int(rng.integers(na))
    kinds = ANY
    for k in range(na):
        pos, rew, cons = int(rng.integers(S)), np.zeros(nf + na), []
        if k == bad:
            u = int(rng.integers(9))
            if u == 0:
                rew, kinds = np.zeros(nf + na + int(gen.pick(rng, [-1, 1, 3]))), AttributeError
            elif u == 1:
                rew, kinds = np.zeros((nf + na, 1)), AttributeError
            elif u == 2:
                rew, kinds = gen.pick(rng, [3.0, "r", None, (0.0,) * (nf + na)]), TypeError
            elif u == 3:
                pos, kinds = gen.pick(rng, [1.5, "0", None, [0], 0.0]), TypeError
            elif u == 4:
                pos, kinds = gen.pick(rng, [-1, S, S + 3, -S]), ValueError
            elif u == 5:
                cons, kinds = [nf + na], ValueError
            elif u == 6:
                cons, kinds = [0, nf + na + 4], ValueError
            elif u == 7:
                cons, kinds = [-(nf + na) - 1], ValueError
            else:
                rew, kinds = [0.0] * (nf + na + 1), AttributeError
        ag.append((pos, rew, cons))
    if na > 1 and gen.coin(rng, 0.15):        # nothing wrong except that two agents share a name
        return {Agent("b%d" % (k % (na - 1))): (int(rng.integers(S)), np.zeros(nf + na), []) for k in range(na)}, ANY
    return {Agent("b%d" % k): v for k, v in enumerate(ag)}, kinds


def mdp_snap(m):
    return dict(features=m.features.copy(), walls=m.walls.copy(), sas=m.sas.copy(), adj=np.array(m.adjacency), n=(m.n_states, m.n_actions, m.n_features, m.n_agents),
                det=m._deterministic if hasattr(m, "_deterministic") else None)


def same_mdp(a, b):
    return all(np.array_equal(a[k], b[k]) if isinstance(a[k], np.ndarray) else a[k] == b[k] for k in a)


def constructors(ctx):
    rng = ctx.rng
    S, A, nf = int(rng.integers(1, 8)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    sas, kinds = bad_sas(rng, S, A)
    refused(ctx, "MDP with malformed transitions", lambda: MDP(np.zeros((nf, S)), sas), kinds)
    f, kinds = bad_features(rng, nf, S)
    refused(ctx, "MDP with malformed features", lambda: MDP(f, gen.dir_sas(rng, S, A)), kinds)
    w, kinds = bad_walls(rng, S)
    refused(ctx, "MDP with malformed walls", lambda: MDP(np.zeros((nf, S)), gen.dir_sas(rng, S, A), walls=w), kinds)
    sh = gen.shape(rng, 12)
    G = gen.pick(rng, [SquareGridMDP, HexGridMDP])
    n = sh[0] * sh[1]
    f, kinds = bad_features(rng, nf, n)
    refused(ctx, "grid with malformed features", lambda: G(features=f, shape=sh), kinds)
    w, kinds = bad_walls(rng, n)
    refused(ctx, "grid with malformed walls", lambda: G(features=np.zeros((nf, n)), walls=w, shape=sh), kinds)
    refused(ctx, "agent name", lambda: Agent(gen.pick(rng, [3, None, ["a"], b"x"])), TypeError)
    refused(ctx, "algorithm arguments", lambda: Agent("a", algorithm_kwargs=gen.pick(rng, [[1], None, 3, "x"])), TypeError)
    refused(ctx, "selector arguments", lambda: Agent("a", action_kwargs=gen.pick(rng, [[1], None, 3, "x"])), TypeError)
    refused(ctx, "temperature", lambda: SoftmaxActionSelector(temperature=gen.pick(rng, [0, -1, -1e-9, 0.0, -np.inf])), ValueError)
    m = int(rng.integers(1, 5))
    refused(ctx, "plan beyond the turn", lambda: get_n_moves_plan(m + int(rng.integers(3)), 2, m, 4), ValueError)
    mdp = gen.build_mdp(gen.mdp_spec(rng, max_cells=9))
    na = int(rng.integers(1, 4))
    if gen.coin(rng, 0.3):          # agents from an earlier environment are still on the map
        Environment(mdp, {Agent("old"): (0, np.zeros(mdp.n_features + 1), [])})
    pre = mdp_snap(mdp)
    agents, kinds = bad_agents(rng, mdp.n_features - mdp.n_agents, mdp.n_states, na)
    refused(ctx, "environment with a malformed agent", lambda: Environment(mdp, agents), kinds)
    ctx.check(same_mdp(pre, mdp_snap(mdp)), "refused environment changed the MDP", agents=[v for v in agents.values()], before=pre["features"], after=mdp.features)
    nfree = mdp.n_features - mdp.n_agents
    env = Environment(mdp, {Agent("ok"): (0, np.zeros(nfree + 1), [])})
    ctx.check(mdp.n_features == nfree + 1 and mdp.features[-1, 0] == 1 and mdp.features[-1].sum() == 1, "valid environment no longer works on the MDP")
    ctx.n("refused_constructor", 11)


def values(ctx):
    rng = ctx.rng
    sel = gen.pick(rng, [MaxActionSelector(), SoftmaxActionSelector(temperature=0.5)])
    S, A = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    for q, kind in (([[0.0] * A] * S, TypeError), (None, TypeError), (np.zeros(S), AttributeError), (np.zeros((S, A, 1)), AttributeError),
                    (np.full((S, A), np.nan), ValueError)):
        refused(ctx, "malformed action values (policy)", lambda: sel.get_pi(q), kind)
        refused(ctx, "malformed action values (probabilities)", lambda: sel.get_pi_p(q), kind)
    ctx.check(np.isfinite(sel.get_pi_p(np.zeros((S, A)))).all() and len(sel.get_pi(np.zeros((S, A)))) == S, "selector no longer works")
    mdp = gen.build_mdp(gen.mdp_spec(rng, max_cells=8))
    pre = mdp_snap(mdp)
    nf = mdp.n_features
    vi = ValueIteration()
    for rew, kind in ((np.zeros(nf + 1), AttributeError), (np.zeros((nf, 1)), AttributeError), (3.0, TypeError), ("r", TypeError), (None, TypeError)):
        refused(ctx, "planner with a malformed reward function", lambda: vi.fit(mdp, rew, 0), kind)
        ctx.check(not vi.fit_complete and vi.q_values is None, "refused fit counts as a fit")
    refused(ctx, "discount", lambda: ValueIteration(discount=gen.pick(rng, [1.0, 1.5, 0.0, -0.2])).fit(mdp, np.zeros(nf), 0), ANY)
    vi.fit(mdp, np.zeros(nf), 0)
    ctx.check(vi.fit_complete and same_mdp(pre, mdp_snap(mdp)), "planner no longer works or the MDP changed")
    ctx.n("refused_values", 15)


def env_request(ctx, drv):
    """one invalid request against the live environment; returns (name, function, kinds)"""
    rng, env = ctx.rng, drv.env
    m = env.mdp
    S = m.n_states
    n = gen.pick(rng, drv.names)
    ghost = gen.pick(rng, ["nobody", "", n + " ", n.upper() + "_", 0, None])
    pick = int(rng.integers(15))
    if pick == 0:
        f = gen.pick(rng, ["fit", "step", "step_multi", "step_proba", "get_agent_position_history", "get_agent_q_values", "get_agent_pi", "get_agent_pi_p"])
        return "%s of an unknown agent" % f, lambda: getattr(env, f)(ghost), ValueError
    if pick == 1:
        return "position of an unknown agent", lambda: env.set_agent_position(ghost, 0), ValueError
    if pick == 2:
        order = list(drv.names) + [ghost]
        rng.shuffle(order)
        return "interactive turn with an unknown agent", lambda: env.step_multi_interactive([str(o) for o in order] if ghost is not None and ghost != 0 else drv.names + ["?"], refit=True), ValueError
    if pick in (3, 4):
        p, kinds = bad_position(rng, S)
        return "position %r" % (p,), lambda: env.set_agent_position(n, p), kinds
    if pick in (5, 6):
        w, kinds = bad_walls(rng, S)
        def f():
            m.walls = w
        return "walls", f, kinds
    if pick == 7 and hasattr(m, "add_wall_xy"):
        x, y = gen.pick(rng, [((m.shape[0],), (0,)), ((0,), (m.shape[1] + 2,)), ((0, m.shape[0] + 1), (0,)), ((0,), (0, m.shape[1] + 1))])
        return "wall outside the grid", lambda: m.add_wall_xy(x, y), ANY
    if pick == 8 and hasattr(m, "add_wall_xy"):
        x, y = gen.pick(rng, [(0, (0,)), ((0,), 0), (np.array([0]), (0,)), ("0", (0,))])
        return "wall coordinates of the wrong type", lambda: m.add_wall_xy(x, y), TypeError
    if pick == 9:
        fe, kinds = bad_features(rng, m.n_features, S)
        def f():
            m.features = fe
        return "features", f, kinds
    if pick == 10:
        plan = gen.pick(rng, [[1] * (len(drv.names) + 1), [2] * (len(drv.names) - 1), [0] * len(drv.names), [1] * (len(drv.names) - 1) + [-1],
                              (1,) * (len(drv.names) - 1) + (0,)])
        if gen.coin(rng, 0.5):
            return "plan %r" % (plan,), lambda: env.step_multi(n, n_moves_plan=plan, refit=True), ValueError
        return "plan %r" % (plan,), lambda: env.step_multi_interactive(n_moves_plan=plan, refit=True), ANY
    if pick == 11:
        p = int(env.agents[n].position)
        ok = (drv.sas[p] > 0).any(axis=1)
        imp = np.where(~ok)[0]
        if len(imp):
            a = int(gen.pick(rng, imp))
            return "impossible action", lambda: m.get_next_state(p, a), ValueError
        return "negative action", lambda: m.get_next_state(p, -1), ANY
    if pick == 12 and hasattr(m, "_state_pair_to_action"):
        far = [t for t in range(S) if not (drv.sas[:, :, t] > 0)[env.agents[n].position].any()]
        if far:
            t = int(gen.pick(rng, far)); s = int(env.agents[n].position)
            return "action between states that are not adjacent", lambda: m._state_pair_to_action(s, t), AttributeError
    if pick == 13:
        if env.agents[n].algorithm.fit_complete:
            d = gen.pick(rng, [np.ones(S + 1), np.ones(S - 1) if S > 1 else np.ones(3)])
            return "distribution of the wrong length", lambda: env.step_proba(n, d), ANY
    k = int(rng.integers(m.n_features))
    idx = [k, m.n_features + 2]
    return "consuming features that do not exist", lambda: m.consume_features(idx, int(env.agents[n].position)), ANY


def unfitted(ctx, drv):
    env = drv.env
    n = gen.pick(ctx.rng, drv.names)
    if env.agents[n].algorithm.fit_complete:
        if gen.coin(ctx.rng, 0.6):
            return None
        env.agents[n].algorithm = gen.build_agent(drv.by[n]).algorithm      # a new planner that has not been fitted
        drv.fresh.pop(n, None)
        drv.pre = Snap(env)
        ctx.n("planner_swaps")
    f = gen.pick(ctx.rng, ["step", "step_proba", "get_agent_pi", "get_agent_pi_p", "step_multi", "plot_state_values"])
    if f == "step_multi":
        return "step_multi before fitting", lambda: env.step_multi(n, n_steps=2), AttributeError
    return "%s before fitting" % f, lambda: getattr(env, f)(n), AttributeError


def inject(ctx, drv, what, f, kinds, kind):
    pre = Snap(drv.env)
    drv.trace.append(["invalid", what]); ctx.trace = drv.trace[-25:]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        refused(ctx, what, f, kinds)
    d = pre.diff(Snap(drv.env))
    ctx.check(not d, "refused request had an effect", request=what, changed=d, before={k: getattr(pre, k) for k in d},
              after={k: getattr(Snap(drv.env), k) for k in d})
    ctx.n(kind)
    ctx.sig(ctx.desc, what, pre.hist)


def failing(ctx, drv, n):
    """a planner that raises, or returns something that is not a plan, at its next call"""
    rng, env = ctx.rng, drv.env
    alg = env.agents[n].algorithm
    plan = Snap(env)
    mode = int(rng.integers(4))
    old = alg._fit
    S, A = env.mdp.n_states, env.mdp.n_actions
    if mode == 0:
        def bad(*a, **k):
            old(*a, **k)
            raise RuntimeError("planner failed on purpose")
    elif mode == 1:
        bad = lambda *a, **k: (np.zeros(S + 1), np.zeros((S, A)))
    elif mode == 2:
        bad = lambda *a, **k: (np.zeros(S), np.zeros((S, A + 1)))
    else:
        bad = lambda *a, **k: (np.zeros(S), np.zeros((S, A)).tolist())
    alg._fit = bad
    try:
        u = int(rng.integers(3))
        f = (lambda: env.fit(n), lambda: env.step_multi(n, n_steps=3, refit=True),
             lambda: env.step_multi_interactive([n], n_moves=[[2]], refit=True))[u]
        inject(ctx, drv, "fit with a failing planner (%d, %d)" % (mode, u), f, ANY, "failing_planner")
    finally:
        del alg._fit
    post = Snap(env)
    ctx.check(plan.plan[n] is None or np.array_equal(plan.plan[n], post.plan[n], equal_nan=True), "failed fit left a different plan in force")
    if len(drv.trace) > 2:
        ctx.n("refused_midway")


def case(ctx, i):
    rng = ctx.rng
    constructors(ctx)
    values(ctx)
    spec = gen.env_spec(rng, planners=("table", "null", "vi"), max_agents=3, max_cells=16)
    ctx.desc = gen.describe(spec)
    env = gen.build_env(spec)
    drv = Driver(ctx, spec, env, [])
    for _ in range(int(rng.integers(2, 9))):
        if gen.coin(rng, 0.6):
            u = unfitted(ctx, drv)
            if u:
                inject(ctx, drv, *u, "refused_unfitted")
        drv.run(int(rng.integers(0, 4)))
        for _ in range(2):
            what, f, kinds = env_request(ctx, drv)
            inject(ctx, drv, what, f, kinds, "refused_mdp" if what.startswith(("wall", "feat", "consuming")) else "refused_env")
        n = gen.pick(rng, drv.names)
        if gen.coin(rng, 0.4) and drv.plannable(n):
            failing(ctx, drv, n)
            drv.op_fit(n)
            drv.op_step(n)
            ctx.n("still_working")
    ctx.sample(desc=ctx.desc, injected=[t for t in drv.trace if t[0] == "invalid"][:6])
