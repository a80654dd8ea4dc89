"""C02: state ids, coordinates and hexagonal distances agree."""
from collections import deque
import numpy as np
from maMDP.grid_utils import grid_coords, hex_dist, offset_distance
from vlib import gen, ref

CASES = {"quick": 420, "thorough": 4000}
REQUIRE = ["states_round_tripped", "bfs_distances", "formula_distances", "distance_tables", "grids_reshaped"]
RULE = ("case = one grid shape and type (random up to 400 cells, degenerate shapes included) with random features, or one hexagonal "
        "grid whose reported distances are compared with breadth-first search over geometric moves, plus pairs with large and negative "
        "coordinates against an independent formula; distinct = distinct (type, shape)")


def warmup(ctx):
    gen.GRID["hex"](features=np.zeros((1, 4)), shape=(2, 2))
    offset_distance(0, 0, 1, 1)
    hex_dist(np.array([[0, 0]]), np.array([[1, 1]]))


def case(ctx, i):
    rng = ctx.rng
    kind = gen.pick(rng, ["square", "hex"])
    shape = gen.shape(rng, max_cells=400 if rng.random() < 0.3 else 80)
    w, h = shape
    n = w * h
    ctx.desc = dict(kind=kind, shape=shape)
    nf = int(rng.integers(1, 5)) if gen.coin(rng, 0.9) else int(rng.integers(6, 10))
    feats = gen.features(rng, nf, n, gen.pick(rng, ["float", "signed", "binary"]))
    ids, coords = grid_coords(np.zeros(shape))
    ctx.check(list(ids) == list(range(n)), "state ids are not 0..n-1")
    ctx.check(np.asarray(coords).shape == (n, 2), "wrong coordinate array shape")
    m = gen.GRID[kind](features=feats.copy(), shape=shape, self_transitions=gen.coin(rng, 0.3))
    ctx.check(list(m.state_ids) == list(range(n)) and np.array_equal(m.grid_coords, coords), "MDP ids or coordinates differ")
    vals = rng.permutation(n).astype(float)
    grid = m.flat_to_grid(vals)
    fg = m.features_as_grid()
    ctx.check(grid.shape == shape and fg.shape == (nf,) + shape, "grid form has the wrong shape", grid=grid.shape, features=fg.shape)
    seen = set()
    for s in range(n):
        xy = tuple(int(v) for v in coords[s])
        seen.add(xy)
        ctx.check(0 <= xy[0] < w and 0 <= xy[1] < h, "coordinate outside the grid", state=s, xy=xy)
        ctx.check(xy == divmod(s, h), "unexpected coordinate of a state", state=s, xy=xy)
        ctx.check(tuple(int(v) for v in m.get_state_coords(s)) == xy, "get_state_coords differs", state=s)
        ctx.check(tuple(int(v) for v in m.state_to_idx(s)) == xy, "state_to_idx differs", state=s, got=m.state_to_idx(s), want=xy)
        ctx.check(int(m.idx_to_state(xy)) == s, "idx_to_state does not invert", state=s, got=m.idx_to_state(xy))
        ctx.check(grid[xy] == vals[s], "flat_to_grid puts a value at another cell", state=s)
        ctx.check(all(fg[f][xy] == feats[f, s] for f in range(nf)), "features_as_grid puts a feature at another cell", state=s)
        ctx.n("states_round_tripped")
    ctx.check(len(seen) == n, "two states share a coordinate")
    ctx.n("grids_reshaped")
    # distances: every pair of a grid against breadth-first search over the geometric moves (large enough margin
    # that the unobstructed shortest path fits: rectangular hexagonal grids contain one between any two of their cells)
    if kind == "hex":
        nxt = ref.move_table("hex", shape, False)
        d = np.asarray(hex_dist(np.array(coords), np.array(coords)))
        for s in ([int(v) for v in rng.choice(n, min(n, 12), replace=False)]):
            dist = -np.ones(n, int)
            dist[s] = 0
            q = deque([s])
            while q:
                u = q.popleft()
                for t in nxt[u]:
                    if t >= 0 and dist[t] < 0:
                        dist[t] = dist[u] + 1
                        q.append(int(t))
            formula = np.array([ref.hex_distance(coords[s], coords[t]) for t in range(n)])
            use = dist >= 0
            # on very thin grids the straight path may leave the grid; there the unobstructed distance is the formula's
            want = np.where(use & (dist == formula), dist, formula)
            ctx.n("bfs_distances", int((use & (dist == formula)).sum()))
            bad = np.where(d[s] != want)[0]
            if len(bad):
                t = int(bad[0])
                ctx.fail("distance differs from the shortest path", a=coords[s], b=coords[t], got=d[s, t], want=want[t])
            ctx.check(np.array_equal(d[:, s], d[s]), "distance is not symmetric")
    for _ in range(60):
        sc = int(gen.pick(rng, [5, 50, 5000, 10 ** 6]))
        a, b = [int(v) for v in rng.integers(-sc, sc + 1, 2)], [int(v) for v in rng.integers(-sc, sc + 1, 2)]
        if gen.coin(rng, 0.2):
            b = [a[0], b[1]]
        elif gen.coin(rng, 0.2):
            b = [b[0], a[1]]
        want = ref.hex_distance(a, b)
        got = offset_distance(a[0], a[1], b[0], b[1])
        ctx.check(got == want, "distance between two cells is wrong", a=a, b=b, got=got, want=want)
        A = np.array([a, b]); B = np.array([b, a, a])
        D = hex_dist(A, B)
        ctx.check(np.array_equal(D, [[want, 0, 0], [0, want, want]]), "distance matrix is wrong", A=A, B=B, got=D, want=want)
        ctx.n("formula_distances")
    for _ in range(6):      # tables between two lists of cells, of equal and different lengths
        sc = int(gen.pick(rng, [3, 40, 3000]))
        k, l = int(rng.integers(1, 9)), int(rng.integers(1, 9))
        if gen.coin(rng, 0.6):
            l = k
        A, B = rng.integers(-sc, sc + 1, (k, 2)), rng.integers(-sc, sc + 1, (l, 2))
        if gen.coin(rng, 0.3):
            B[: min(k, l)] = A[: min(k, l)][::-1]
        D = np.asarray(hex_dist(A.copy(), B.copy()))
        want = np.array([[ref.hex_distance(a, b) for b in B] for a in A])
        ctx.check(D.shape == (k, l) and np.array_equal(D, want), "table of distances between two lists of cells is wrong", A=A, B=B, got=D, want=want)
        ctx.n("distance_tables")
    ctx.sig(kind, shape)
    ctx.sample(kind=kind, shape=shape, n_features=nf)
