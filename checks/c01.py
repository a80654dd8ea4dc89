"""C01: grid moves are exactly the geometric neighbour moves."""
import numpy as np
from vlib import gen, ref

CASES = {"quick": 260, "thorough": 2600}
REQUIRE = ["transitions_compared", "walk_moves", "undo_moves", "stay_moves", "edge_refusals"]
RULE = ("case = one grid (type, width, height, stay setting): all small shapes in order, then three of 650-770 cells, then random shapes up to 400 (rarely 900) "
        "cells; every (cell, action) is compared with the geometric table and random walks are driven through the public next-state "
        "call; distinct = distinct (type, shape, stay); all are non-trivial (at least one cell and action)")
ASSUMPTIONS = ["directions: square 0=(0,+1) 1=(+1,0) 2=(0,-1) 3=(-1,0); hexagonal 0 up, then clockwise in the plotted geometry"]
SMALL = [(k, (w, h), st) for w in range(1, 6) for h in range(1, 6) for k in ("square", "hex") for st in (False, True)]


def warmup(ctx):
    gen.GRID["hex"](features=np.zeros((1, 4)), shape=(2, 2))


def case(ctx, i):
    rng = ctx.rng
    if i < len(SMALL):
        kind, shape, stay = SMALL[i]
    else:
        kind, stay = gen.pick(rng, ["square", "hex"]), gen.coin(rng, 0.5)
        big = 400 if rng.random() < 0.85 else (900 if ctx.tier == "thorough" else 500)
        shape = gen.shape(rng, max_cells=big)
        if i - len(SMALL) in (0, 1, 2):      # a few large ones
            kind, shape = ("hex", "square", "hex")[i - len(SMALL)], [(25, 26), (24, 32), (33, 22)][int(rng.integers(3))]
    ctx.desc = dict(kind=kind, shape=shape, stay=stay)
    n = shape[0] * shape[1]
    mdp = gen.GRID[kind](features=gen.features(rng, 1, n), shape=shape, self_transitions=stay)
    nxt = ref.move_table(kind, shape, stay)
    sas = np.asarray(mdp.sas)
    ctx.check(mdp.n_states == n and mdp.n_actions == nxt.shape[1] and sas.shape == (n, nxt.shape[1], n),
              "wrong number of states or actions", n_states=mdp.n_states, n_actions=mdp.n_actions, shape=sas.shape)
    want = ref.table_to_sas(nxt)
    if not np.array_equal(sas, want):
        s, a, t = [int(v) for v in np.argwhere(sas != want)[0]]
        ctx.fail("transition differs from the geometry", state=s, xy=divmod(s, shape[1]), action=a, to=t, got=sas[s, a, t], want=want[s, a, t])
    ctx.n("transitions_compared", sas.size)
    adj = (want.sum(axis=1) > 0).astype(int)
    ctx.check(np.array_equal(np.asarray(mdp.adjacency) > 0, adj > 0), "adjacency differs from the geometric neighbours")
    # drive walks through the public call, undoing moves with the opposite action
    half = 2 if kind == "square" else 3
    for _ in range(6):
        s = int(rng.integers(n))
        for _ in range(25):
            ok = np.where(nxt[s] >= 0)[0]
            bad = np.where(nxt[s] < 0)[0]
            if len(bad):
                b = int(gen.pick(rng, bad))
                try:
                    r = mdp.get_next_state(s, b)
                except (ValueError, IndexError):
                    ctx.n("edge_refusals")
                else:
                    ctx.fail("a move off the grid led somewhere", state=s, action=b, result=r)
            if not len(ok):
                break
            a = int(gen.pick(rng, ok))
            t = int(mdp.get_next_state(s, a))
            ctx.check(t == nxt[s, a], "move led to the wrong cell", state=s, action=a, got=t, want=nxt[s, a])
            ctx.check(bool(mdp.is_adjacent(s, t)), "move between cells reported as not adjacent", state=s, to=t)
            ctx.n("walk_moves")
            if stay and a == nxt.shape[1] - 1:
                ctx.check(t == s, "stay moved the agent", state=s, got=t)
                ctx.n("stay_moves")
            else:
                back = int(mdp.get_next_state(t, (a + half) % (2 * half)))
                ctx.check(back == s, "opposite action does not undo the move", state=s, action=a, via=t, got=back)
                ctx.n("undo_moves")
            s = t
    ctx.sig(kind, shape, stay)
    ctx.sample(kind=kind, shape=shape, stay=stay, moves=int((nxt >= 0).sum()))
