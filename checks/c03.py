"""C03: walls block exactly the walled states after any edit history."""
import numpy as np
from vlib import gen, ref

CASES = {"quick": 600, "thorough": 6000}
REQUIRE = ["edits_set", "edits_add_xy", "edits_reset", "edits_alias_probe", "edits_init", "state_comparisons", "histories_with_agents"]
RULE = ("case = one MDP (grid or custom, optionally with agents acting in it) and a random history of 3-14 wall edits (construct with "
        "walls, replace, add by coordinates, remove all, mutate the caller's own array afterwards, take the wall map of another MDP), "
        "compared after every edit with a shadow wall map; distinct = distinct (MDP, edit sequence) with at least one wall placed")


def warmup(ctx):
    gen.GRID["hex"](features=np.zeros((1, 4)), shape=(2, 2))


def compare(ctx, m, base, shadow, what):
    want = ref.walled(base, shadow)
    got = np.asarray(m.sas)
    if not np.array_equal(got, want):
        s, a, t = [int(v) for v in np.argwhere(got != want)[0]]
        ctx.fail("transition disagrees with the wall map after " + what, state=s, action=a, to=t, got=got[s, a, t], want=want[s, a, t],
                 walls=np.where(shadow)[0])
    ctx.check(np.array_equal(np.asarray(m.walls).astype(float), shadow), "reported wall map differs after " + what,
              got=np.where(np.asarray(m.walls))[0], want=np.where(shadow)[0])
    ctx.check(np.array_equal(np.asarray(m.adjacency) > 0, want.sum(axis=1) > 0), "adjacency disagrees with the walls after " + what)
    S = len(shadow)
    for s in ctx.rng.integers(S, size=min(S, 5)):
        s = int(s)
        ctx.check(set(np.asarray(m.state_valid_actions(s)).tolist()) == set(np.where((want[s] > 0).any(axis=1))[0].tolist()),
                  "possible actions disagree with the walls after " + what, state=s)
        t = int(ctx.rng.integers(S))
        ctx.check(bool(m.is_adjacent(s, t)) == bool((want[s, :, t] > 0).any()), "adjacency query disagrees after " + what, state=s, to=t)
    ctx.n("state_comparisons", S)


def case(ctx, i):
    rng = ctx.rng
    spec = gen.mdp_spec(rng, kinds=("square", "hex", "square", "hex", "det", "stoch"), max_cells=60 if rng.random() < 0.9 else 150, wall_p=0)
    if spec["kind"] not in gen.GRID:
        spec["walls"] = None
    grid = spec["kind"] in gen.GRID
    base = gen.spec_sas(spec)
    S = base.shape[0]
    shadow = np.zeros(S)
    trace = []
    ctx.desc = gen.describe(spec)
    dtype = gen.pick(rng, [float, int, np.int64, bool]) if gen.coin(rng, 0.5) else float
    mine = None
    handed = [spec["features"].copy(), None if grid else spec["sas"].copy()]      # the caller's own arrays
    if gen.coin(rng, 0.5):
        mine = gen.walls(rng, S).astype(dtype)
        spec["walls"] = mine
        m = (gen.GRID[spec["kind"]](features=handed[0], walls=mine, shape=spec["shape"], self_transitions=spec["stay"]) if grid
             else gen.MDP(handed[0], handed[1], walls=mine, seed=spec.get("seed")))
        shadow = mine.astype(float).copy()
        ctx.n("edits_init")
        trace.append(["init", np.where(shadow)[0].tolist()])
        compare(ctx, m, base, shadow, "construction with walls")
    else:
        m = gen.build_mdp(spec) if grid else gen.MDP(handed[0], handed[1], seed=spec.get("seed"))
        compare(ctx, m, base, shadow, "construction")
    sib_walls = gen.walls(rng, S)
    sib_spec = dict(spec, walls=sib_walls)
    sib = gen.build_mdp(sib_spec)
    sib_shadow = sib_walls.copy()
    env = None
    if gen.coin(rng, 0.3) and spec["kind"] != "stoch" and len(gen.movable(m.sas)):
        from maMDP.environments import Environment
        ag = dict(name="x", n_moves=1, alg="table", alg_kwargs={}, selector=("max", {}))
        pos = int(gen.pick(rng, gen.movable(m.sas)))
        env = Environment(m, {gen.build_agent(ag): (pos, np.zeros(spec["features"].shape[0] + 1), [0])})
        ctx.n("histories_with_agents")
    if env is None and gen.coin(rng, 0.2):      # positions shown by the caller, without any environment
        for _ in range(int(rng.integers(1, 4))):
            m.add_agent_feature(int(rng.integers(S)))
    for _ in range(int(rng.integers(3, 15))):
        ops = ["set", "alias", "sibling"] + (["add"] * 4 + ["reset"] if grid else []) + (["act"] if env else [])
        op = gen.pick(rng, ops)
        if op == "set":
            mine = gen.walls(rng, S).astype(dtype)
            before = mine.copy()
            m.walls = mine
            shadow = before.astype(float)
            ctx.check(np.array_equal(mine, before), "setting walls changed the caller's array")
            ctx.n("edits_set")
        elif op == "add":
            w, h = spec["shape"]
            def rng1(k):
                if gen.coin(rng, 0.4):
                    return (int(rng.integers(k)),)
                lo = int(rng.integers(k)); hi = int(rng.integers(lo, k + 1))
                return (lo, hi)
            x, y = rng1(w), rng1(h)
            if gen.coin(rng, 0.3):
                x, y = list(x), list(y)
            trace.append(["add", list(x), list(y)])
            m.add_wall_xy(x, y)
            xs = range(*x) if len(x) == 2 else x
            ys = range(*y) if len(y) == 2 else y
            for xx in xs:
                for yy in ys:
                    shadow[xx * h + yy] = 1
            ctx.n("edits_add_xy")
        elif op == "reset":
            m.reset_walls()
            shadow = np.zeros(S)
            ctx.n("edits_reset")
        elif op == "alias":      # the caller changes the array it passed in earlier, and the map it was given
            if mine is not None:
                mine[:] = 1 - mine
            if handed[1] is not None:
                handed[1][:] = np.roll(handed[1], 1, axis=2)
            ctx.n("edits_alias_probe")
        elif op == "sibling":    # another MDP is given this one's map, then edited
            sib.walls = m.walls
            sib_shadow = shadow.copy()
            compare(ctx, sib, base, sib_shadow, "sharing a wall map")
            if grid and gen.coin(rng, 0.6):
                s = int(rng.integers(S))
                sib.add_wall_xy((s // spec["shape"][1],), (s % spec["shape"][1],))
                sib_shadow[s] = 1
            elif grid:
                sib.reset_walls(); sib_shadow[:] = 0
            else:
                sib.walls = np.zeros(S); sib_shadow[:] = 0
        elif op == "act":
            a = env.agents["x"]
            if (ref.walled(base, shadow)[a.position] > 0).any():
                env.fit("x"); env.step("x")
            if gen.coin(rng, 0.3):
                env.reset()
        if op != "add":
            trace.append([op, np.where(shadow)[0].tolist()])
        ctx.trace = list(trace)
        compare(ctx, m, base, shadow, "edit '%s'" % op)
        compare(ctx, sib, base, sib_shadow, "an edit of another MDP ('%s')" % op)
        ctx.check(env is None or env.mdp.walls is m.walls or np.array_equal(env.mdp.walls, m.walls), "environment sees other walls")
    if any(t[0] in ("init", "set", "add") for t in trace):
        ctx.sig(ctx.desc, trace)
    ctx.sample(desc=ctx.desc, edits=trace)
