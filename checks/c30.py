"""C30: queries about moves agree with the transitions."""
import numpy as np
from maMDP.algorithms import irl, mcts
from vlib import gen, ref

CASES = {"quick": 500, "thorough": 5000}
REQUIRE = ["adjacency_queries", "valid_action_queries", "action_queries", "trajectories_converted", "refused_pairs", "after_wall_edit", "kernel_queries"]
RULE = ("case = one MDP (grid, custom deterministic, custom non-deterministic) with its initial walls and after 0-3 random wall edits; "
        "all states, sampled pairs and random legal trajectories are queried; distinct = distinct (MDP, walls) with a possible move")


def warmup(ctx):
    gen.GRID["hex"](features=np.zeros((1, 4)), shape=(2, 2))


def probe(ctx, m, sas):
    rng = ctx.rng
    # internal names: where one is gone, the others (and the learners, C23 and C24) still show the behaviour
    pair = getattr(m, "_state_pair_to_action", None)
    convert = getattr(m, "_trajectory_to_state_action", None)
    pair2 = getattr(irl, "state_pair_to_action", None)
    listing = getattr(mcts, "get_actions_states", None)
    for f, names in ((pair, ("action_queries",)), (convert, ("trajectories_converted",)), (listing, ("kernel_queries",)),
                     (pair or convert or pair2, ("refused_pairs",))):
        if f is None:
            for c in names:
                ctx.n(c)
    S, A, _ = sas.shape
    for s in range(S) if S <= 40 else rng.integers(S, size=40):
        s = int(s)
        got = set(int(v) for v in np.asarray(m.state_valid_actions(s)).ravel())
        ctx.check(got == set(np.where((sas[s] > 0).any(axis=1))[0].tolist()), "possible actions are wrong", state=s, got=sorted(got))
        ctx.n("valid_action_queries")
    for _ in range(60):
        s = int(rng.integers(S))
        near = ref.next_of(sas, s)
        t = int(gen.pick(rng, near)) if len(near) and gen.coin(rng, 0.6) else int(rng.integers(S))
        con = sas[s, :, t]
        ctx.check(bool(m.is_adjacent(s, t)) == bool((con > 0).any()), "adjacency query is wrong", state=s, to=t)
        ctx.n("adjacency_queries")
        if (con > 0).any() and pair2 is not None:
            a = pair2(m, s, t)
            ctx.check(a == int(a) and con[int(a)] == con.max(), "connecting action is not a most likely one", state=s, to=t, got=a, p=con)
        if listing is not None:
            _, acts, states = listing(m.sas, s)
            acts, states = [int(v) for v in acts], [int(v) for v in states]
            ctx.check(set(acts) == set(np.where((sas[s] > 0).any(axis=1))[0].tolist()), "search lists the wrong possible actions", state=s, got=acts)
            ctx.check(set(states) == set(near.tolist()), "search lists the wrong next states", state=s, got=states)
            ctx.n("kernel_queries")
        if (con > 0).any() and pair is not None:
            best = pair(s, t)
            ctx.check(len(best) == 1 and con[int(best[0])] == con.max(), "connecting action is not a most likely one", state=s, to=t,
                      got=best, p=con)
            allp = pair(s, t, return_max=False)
            ctx.check(sorted(int(v) for v in allp) == np.where(con > 0)[0].tolist(), "list of connecting actions is wrong", state=s, to=t, got=allp)
            ctx.n("action_queries")
        elif not (con > 0).any():
            for f in [lambda: pair(s, t), lambda: pair(s, t, return_max=False)] * (pair is not None) + \
                    [lambda: convert([s, t])] * (convert is not None) + [lambda: pair2(m, s, t)] * (pair2 is not None):
                try:
                    r = f()
                except AttributeError:
                    ctx.n("refused_pairs")
                else:
                    ctx.fail("non-adjacent states were not refused", state=s, to=t, result=r)
    for _ in range(4):
        free = gen.movable(sas)
        if not len(free) or convert is None:
            break
        t = gen.walk(rng, sas, gen.pick(rng, free), int(rng.integers(0, 15)))
        sa = np.asarray(convert(list(t)))
        ctx.check(sa.shape == (len(t) - 1, 2), "wrong number of state-action pairs", got=sa.shape, trajectory=t)
        for k in range(len(t) - 1):
            s, a = int(sa[k, 0]), int(sa[k, 1])
            ctx.check(s == t[k] and sa[k, 0] == s and sa[k, 1] == a, "pair names the wrong state", k=k, pair=sa[k], trajectory=t)
            con = sas[t[k], :, t[k + 1]]
            ctx.check(0 <= a < len(con) and con[a] == con.max(), "pair names an action that is not a most likely one", k=k, pair=sa[k],
                      trajectory=t, p=con)
        ctx.n("trajectories_converted")


def case(ctx, i):
    rng = ctx.rng
    spec = gen.mdp_spec(rng, kinds=("square", "hex", "det", "stoch"), max_cells=60)
    m = gen.build_mdp(spec)
    ctx.desc = gen.describe(spec)
    base = gen.spec_sas(dict(spec, walls=None))
    w = np.zeros(base.shape[0]) if spec["walls"] is None else spec["walls"]
    probe(ctx, m, ref.walled(base, w))
    ctx.sig(ctx.desc, w)
    for _ in range(int(rng.integers(0, 4))):
        w = gen.walls(rng, base.shape[0])
        m.walls = w.copy()
        sas = ref.walled(base, w)
        ctx.trace.append(["walls", np.where(w)[0]])
        probe(ctx, m, sas)
        ctx.n("after_wall_edit")
        if (sas > 0).any():
            ctx.sig(ctx.desc, w)
    ctx.sample(desc=ctx.desc)
