"""C18: simulated opponents act on the simulated world, cached or not."""
import numpy as np
from vlib import gen, ref, search
from vlib.search import warmup

CASES = {"quick": 500, "thorough": 6000}
REQUIRE = ["searches", "greedy_opponent_moves", "moves_with_a_worse_alternative", "cached_moves", "kept_cache_searches", "softmax_moves", "random_moves",
           "wall_edits_between_searches", "softmax_frequency_tests", "random_frequency_tests", "zero_temperature_moves", "moves_after_something_was_eaten", "moving_target_moves", "reweighed_between_searches"]
RULE = ("case = up to four interactive searches of one agent (solved or random, greedy or softmax opponents; caching off, within or across "
        "searches) in a world that changes in between (positions, consumption, walls, reward weights); every simulated opponent move is judged against exact "
        "policy iteration in the world as simulated at that moment; softmax and random opponents' choices over 500 trajectories in an unchanging world are "
        "tested for goodness of fit; distinct = distinct recorded trajectories")
ASSUMPTIONS = ["a greedy move counts as optimal if it is within four times the solver's tolerance-implied error of the best move"]


def judge(ctx, s):
    kw = s.kw
    vi = kw.get("VI_kwargs", {})
    g, tol = vi.get("VI_discount", 0.9), vi.get("VI_tol", 1e-4)
    slack = 4 * tol / (1 - g) + 1e-9
    solved = {}
    for k in range(len(s.visited)):
        r = s.replay(k)
        if r["missing"] is not None or any(r["left"].values()):
            ctx.n("irregular_trajectories")
            continue      # a matter of C15
        for n, a, b, f in r["moves"]:
            if n == s.me:
                continue
            can = s.sas[a, :, b] > 0
            ctx.check(can.any(), "an opponent made an impossible move", agent=n, origin=a, to=b)
            if kw["opponent_policy_method"] == "random":
                ctx.n("random_moves")
                continue
            if kw["opponent_action_selection"] != "max" and kw.get("softmax_temperature") == 0:
                ctx.n("zero_temperature_moves")
            elif kw["opponent_action_selection"] != "max":
                ctx.n("softmax_moves")
                continue
            w = np.asarray(s.by[n]["reward"], float)
            rw = w @ f
            key = rw.tobytes()
            if key not in solved:
                solved[key] = ref.optimal(s.sas, rw, g)[1]
            q = solved[key][a]
            got = q[can].max()
            ctx.check(got >= q.max() - slack, "a simulated opponent did not move optimally for the world as simulated", agent=n, origin=a, to=b, q=q,
                      slack=slack, trajectory=k, visited=s.visited[k], others=s.others[k], start=s.pos, caching=(kw["caching"], kw["reset_cache"]))
            ctx.n("greedy_opponent_moves")
            fin = q[np.isfinite(q)]
            if (fin < q.max() - slack).any():
                ctx.n("moves_with_a_worse_alternative")
                if kw["caching"]:
                    ctx.n("cached_moves")
                if (f[:s.nf] != s.features[:s.nf]).any():
                    ctx.n("moves_after_something_was_eaten")
                if (f[s.nf:] != s.features[s.nf:]).any() and w[s.nf:].any():
                    ctx.n("moving_target_moves")
    if kw["caching"] and not kw["reset_cache"]:
        ctx.n("kept_cache_searches")


def draws(ctx, i):
    """in a world nobody changes, softmax and random opponents' first moves over many trajectories follow their rule"""
    rng = ctx.rng
    soft = i % 2 == 0
    temp = float(gen.pick(rng, [0.1, 0.5, 1, 3, 20]))
    g = float(gen.pick(rng, [0.9, 0.6]))
    spec, j = search.spec_for(ctx, i, interactive=True, max_agents=3, style=gen.pick(rng, [None, "dense", "binary"]),
                              mcts=dict(n_iter=500, opponent_policy_method="solve" if soft else "random", opponent_action_selection="softmax",
                                        softmax_temperature=temp, VI_kwargs=dict(VI_tol=1e-9, VI_discount=g, VI_max_iter=2000)))
    nf = spec["mdp"]["features"].shape[0]
    for a in spec["agents"]:
        a["consumes"] = []
        a["reward"] = np.r_[np.round(rng.normal(size=nf) * gen.pick(rng, [0.1, 1, 1]), 2), np.zeros(len(spec["agents"]))]
    s = search.Search(ctx, spec, j)
    ctx.desc = gen.describe(spec)
    s.run([[1]] * len(s.names))
    S = s.sas.shape[0]
    for k, n in enumerate(s.order[1:]):
        at = s.pos[n]
        can = (s.sas[at] > 0).any(axis=1)
        q = ref.optimal(s.sas, np.asarray(s.by[n]["reward"], float) @ s.features, g)[1][at]
        pa = ref.softmax_row(q, temp) if soft else can / can.sum()
        p = pa @ s.sas[at]
        counts = np.zeros(S)
        for t in s.others:
            counts[t[k][0]] += 1
        ctx.check(ref.chi2_ok(counts, p), "simulated opponents do not choose with the frequencies of their rule", agent=n, soft=soft, temperature=temp,
                  counts=counts, p=p)
        ctx.n("softmax_frequency_tests" if soft else "random_frequency_tests")
    ctx.sig("draws", ctx.desc)


def case(ctx, i):
    rng = ctx.rng
    if i % 20 == 7 or i % 20 == 16:
        return draws(ctx, i)
    extra = {}
    if i % 8:
        extra = dict(opponent_policy_method="solve", opponent_action_selection="max" if i % 8 > 1 else "softmax")
    if gen.coin(rng, 0.6):
        extra.update(caching=True, reset_cache=gen.coin(rng, 0.3))
    if extra.get("opponent_action_selection") == "softmax" and gen.coin(rng, 0.4):
        extra["softmax_temperature"] = 0.0
    if gen.coin(rng, 0.3):
        extra["VI_kwargs"] = gen.pick(rng, [dict(VI_tol=1e-7), dict(VI_discount=0.7), dict(VI_discount=0.5, VI_tol=1e-6, VI_max_iter=300)])
    search.case(ctx, i, judge, searches=4, interactive=True, mcts=extra, style=[None, "binary", "sparse", "dense"][i % 4])
