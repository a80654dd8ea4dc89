"""C33: tree search expands unvisited states first, then follows its bound."""
import numpy as np
from vlib import gen, ref, search, core
from vlib.search import warmup

CASES = {"quick": 700, "thorough": 7000}
REQUIRE = ["searches", "tree_moves", "expansions", "bound_moves", "bound_moves_with_a_worse_alternative", "random_phase_moves", "one_move_plans",
           "fully_expanded_trajectories", "long_searches"]
RULE = ("case = up to three searches of one agent (interactive or not) with many short trajectories; visit counts and values before each "
        "trajectory are recomputed from the earlier ones, and every move in the tree is judged against the unvisited-first rule and the "
        "bound; one-move plans are judged on the preferred action; distinct = distinct recorded trajectories")


def judge(ctx, s):
    S = s.sas.shape[0]
    V, N = np.zeros(S), np.zeros(S)
    C = s.kw["C"]
    for k, t in enumerate(s.visited):
        node, expand = s.pos[s.me], True
        for x in t:
            if not expand:
                ctx.n("random_phase_moves")
                break
            st = ref.next_of(s.sas, node)
            ctx.check(x in st, "a simulated move is not a legal move", origin=node, to=x)
            if (N[st] == 0).any():
                ctx.check(N[x] == 0, "moved to a visited state although some next state was unvisited", origin=node, to=x, visits=N[st], states=st,
                          trajectory=k)
                expand = False
                ctx.n("expansions")
            else:
                u = V / (1 + N) + C * np.sqrt(2 * np.log(max(N[node], 1)) / (1 + N))
                slack = 1e-9 * (1 + np.abs(u[st]).max())
                ctx.check(u[x] >= u[st].max() - slack, "did not follow the upper confidence bound", origin=node, to=x, states=st, bounds=u[st],
                          visits=N[st], trajectory=k)
                ctx.n("bound_moves")
                if (u[st] < u[st].max() - 1e-6).any():
                    ctx.n("bound_moves_with_a_worse_alternative")
            ctx.n("tree_moves")
            node = x
        if expand:
            ctx.n("fully_expanded_trajectories")
        r = s.replay(k)
        if r["missing"] is not None or any(r["left"].values()):
            ctx.n("irregular_trajectories")
            return        # a matter of C15
        for x in t:
            V[x] += r["value"]
            N[x] += 1


def one_move(ctx, i):
    rng = ctx.rng
    spec, j = search.spec_for(ctx, i, interactive=False, mcts=dict(n_iter=150, n_steps=1, C=float(gen.pick(rng, [0, 0.5, 1]))), style="binary",
                              min_cells=3)
    a = spec["agents"][j]
    nf = spec["mdp"]["features"].shape[0]
    a["reward"] = np.concatenate([rng.integers(0, 4, nf), np.zeros(len(spec["agents"]))]).astype(float)
    ctx.desc = gen.describe(spec)
    s = search.Search(ctx, spec, j)
    p = a["position"]
    st = ref.next_of(s.sas, p)
    r = a["reward"][:nf] @ spec["mdp"]["features"]
    best = st[r[st] == r[st].max()]
    if len(best) != 1:
        return
    s.run(gen.pick(rng, [None, [[1]] + [[0]] * (len(s.names) - 1)]))
    q = s.q[p]
    acts = np.where(q == np.nanmax(q))[0]
    goals = {int(np.argmax(s.sas[p, x])) for x in acts}
    ctx.check(goals == {int(best[0])}, "with a one-move plan the preferred action does not lead to the best next state", q=q, rewards=r[st], states=st,
              visits=s.N[st])
    ctx.n("one_move_plans")


def case(ctx, i):
    rng = ctx.rng
    n = int(rng.integers(1, 60))
    if i % 25 == 9:
        n = int(rng.integers(100, 400))
        ctx.n("long_searches")
    search.case(ctx, i, judge, mcts=dict(n_iter=n, n_steps=int(rng.integers(1, 5))), max_agents=3,
                style=[None, "dense", "binary", "float"][i % 4])
    if i % 2 == 0:
        one_move(ctx, i)
