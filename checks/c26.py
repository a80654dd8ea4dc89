"""C26: plots place everything at its own cell (judged on the rendered picture and on the arrows and numbers drawn)."""
import itertools
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib import colors as mcolors
from matplotlib.patches import FancyArrow, FancyArrowPatch
from matplotlib.text import Annotation, Text
from vlib import core, gen, ref
from vlib.driver import Driver

CASES = {"quick": 130, "thorough": 1600}
REQUIRE = ["feature_cells", "long_sequences", "wall_cells", "agents_seen", "arrows", "numbers", "value_cells", "hex_neighbours", "after_moves", "hidden_cells",
           "square_plots", "hex_plots", "long_grids", "default_colours", "own_figures"]
RULE = ("case = one grid environment with random features, walls, agents, drawn after 0-6 random operations: the rendered pixels of every cell, the "
        "arrows and numbers of a random trajectory and the pixels of a value plot are judged; distinct = distinct (environment, positions) pictures")
ASSUMPTIONS = ["feature intensities within 0..1 (what the colour mapping can show)", "grids up to 23 cells wide or high, so that a cell is many pixels"]

COL = ["#d62728", "#2ca02c", "#1f77b4"]
WALL = "#595959"
CORNERS = ((1, 1), (1, -1), (-1, 1), (-1, -1))
AGENT = ["#ff00ff", "#00ffff", "#ffff00", "#000000"]
DIRS = {"square": ref.SQUARE_DIRS, "hex": [(d[0] * 1.5, d[1] * np.sqrt(3) / 2) for d in ref.HEX_DIRS]}


def warmup(ctx):
    gen.GRID["hex"](features=np.zeros((1, 4)), shape=(2, 2))
    from vlib import warm
    warm.vi()


def picture(ax):
    fig = ax.figure
    fig.canvas.draw()
    return np.asarray(fig.canvas.buffer_rgba())[..., :3].astype(int)


def pixel(ax, img, p):
    x, y = ax.transData.transform(p)
    r, c = img.shape[0] - 1 - int(np.floor(y)), int(np.floor(x))
    if not (0 <= r < img.shape[0] and 0 <= c < img.shape[1]):
        return None
    return img[r, c]


def blend(layers):
    c = np.ones(3)
    for rgb, a in layers:
        c = (1 - a) * c + a * rgb
    return c * 255


def near(got, want, tol=6):
    return got is not None and np.abs(got - want).max() <= tol


def geometry(ctx, m, kind, shape, stay):
    """positions of the cells in the plot; neighbours must lie in the direction of their action, at one common distance"""
    S = shape[0] * shape[1]
    pos = np.array([[float(v) for v in m.state_to_position(s)] for s in range(S)])
    ctx.check(np.isfinite(pos).all() and len(set(map(tuple, np.round(pos, 6)))) == S, "cells share a position", pos=pos)
    nxt = ref.move_table(kind, shape, stay)
    scale = None
    for s in range(S):
        for a, d in enumerate(DIRS[kind]):
            t = nxt[s, a]
            if t < 0:
                continue
            v = pos[t] - pos[s]
            k = np.hypot(*v) / np.hypot(*d)
            scale = k if scale is None else scale
            ctx.check(abs(k - scale) < 1e-5 * scale, "neighbouring cells are not drawn at equal distances", state=s, to=t, distance=np.hypot(*v))
            ctx.check(np.abs(v / k - np.array(d)).max() < 1e-5, "neighbour is not drawn in the direction of its action", state=s, action=a, to=t, v=v)
            ctx.n("%s_neighbours" % kind)
    return pos, (scale if scale is not None else 1.0)


def mark(artist):
    if isinstance(artist, FancyArrow):
        return (artist._x, artist._y), (artist._x + artist._dx, artist._y + artist._dy)
    if isinstance(artist, Annotation):
        return tuple(artist.xyann), tuple(artist.xy)
    if isinstance(artist, FancyArrowPatch) and artist._posA_posB is not None:
        return tuple(artist._posA_posB[0]), tuple(artist._posA_posB[1])
    return None


def fresh_axes(shape):
    side = 7 if max(shape) <= 14 else 12
    fig = plt.figure(figsize=(side, side), dpi=100)
    return fig.add_subplot(111)


def case(ctx, i):
    rng = ctx.rng
    kind = gen.pick(rng, ["square", "hex", "hex"])
    spec = gen.env_spec(rng, planners=("table", "vi"), max_agents=3, kinds=(kind,), max_cells=60, style="binary", tail=False)
    ms = spec["mdp"]
    wide = None
    if i % 9 == 4:      # long grids
        wide = (int(rng.integers(12, 24)), int(rng.integers(1, 4)))
        wide = wide if gen.coin(rng, 0.6) else wide[::-1]
        ctx.n("long_grids")
        spec = gen.env_spec(rng, planners=("table", "vi"), max_agents=3, kinds=(kind,), style="binary", tail=False, size=wide)
        ms = spec["mdp"]
    while wide is None and max(ms["shape"]) > 14:
        spec = gen.env_spec(rng, planners=("table", "vi"), max_agents=3, kinds=(kind,), max_cells=60, style="binary", tail=False)
        ms = spec["mdp"]
    nf = min(3, ms["features"].shape[0])
    if nf < ms["features"].shape[0]:
        drop = ms["features"].shape[0] - nf
        ms["features"] = ms["features"][:nf].copy()
        for a in spec["agents"]:
            a["reward"] = a["reward"][drop:]
            a["consumes"] = [c for c in a["consumes"] if 0 <= c < nf]
    if gen.coin(rng, 0.5):
        ms["features"] = ms["features"] * np.array(rng.choice([0.5, 1.0], ms["features"].shape))
    ctx.desc = gen.describe(spec)
    env = gen.build_env(spec)
    m = env.mdp
    S = m.n_states
    if gen.coin(rng, 0.7):
        drv = Driver(ctx, spec, env, [])
        drv.run(int(rng.integers(1, 7)))
        ctx.n("after_moves")
    try:
        features = np.array(m.features[:nf])
        walls = np.array(m.walls)
        position = {n: int(a.position) for n, a in env.agents.items()}
        names = list(env.agents)
        # -- the environment ----------------------------------------------------------------------------------------
        alphas = [float(gen.pick(rng, [0.4, 0.7, 1.0])) for _ in range(nf)] if gen.coin(rng, 0.6) else None
        own_ax = gen.coin(rng, 0.8)
        plain = gen.coin(rng, 0.2)      # default colours: equal cells look equal, empty cells are blank, others are not
        looks = {}
        ctx.n("default_colours", int(plain))
        ax = env.plot(colours=None if plain else COL[:nf], alphas=alphas, agent_colours=dict(zip(names, AGENT)),
                      agent_markers={n: "s" for n in names if gen.coin(rng, 0.7)}, agent_plotting_kwargs={"s": 20},
                      mdp_plotting_kwargs={} if own_ax else {"figsize": (7, 7), "dpi": 100}, ax=fresh_axes(ms["shape"]) if own_ax else None)
        pos, scale = geometry(ctx, m, kind, ms["shape"], ms["stay"])
        img = picture(ax)
        aset = [np.array(mcolors.to_rgb(c)) * 255 for c in AGENT]
        off = np.array([0.31, 0.27]) * scale * (1.2 if kind == "hex" else 1)
        for s in range(S):
            layers = [(np.array(mcolors.to_rgb(COL[f])), (0.5 if alphas is None else alphas[f]) * features[f, s]) for f in range(nf) if features[f, s] > 0]
            if walls[s]:
                layers.append((np.array(mcolors.to_rgb(WALL)), 1.0))
            want = [blend(o) for o in itertools.permutations(layers)]
            for corner in CORNERS:
                got = pixel(ax, img, pos[s] + off * corner)
                if plain and not walls[s] and layers:
                    look = looks.setdefault(tuple(features[:, s]), got)
                    ctx.check(got is not None and near(got, look), "cells with the same features look different", state=s, got=got, other=look)
                    ctx.check(not near(got, np.full(3, 255), 1), "features of a cell are not shown", state=s, got=got, features=features[:, s])
                    continue
                ctx.check(any(near(got, w) for w in want), "cell does not show its own features and walls", state=s, at=pos[s] + off * corner, got=got,
                          want=want[:3], features=features[:, s], wall=walls[s])
            ctx.n("feature_cells", len(layers) - int(bool(walls[s])))
            ctx.n("wall_cells", int(bool(walls[s])))
            here = [k for k, n in enumerate(names) if position[n] == s]
            mid = pixel(ax, img, pos[s])
            shown = [k for k in range(len(names)) if near(mid, aset[k])]
            if here:
                ctx.check(len(shown) == 1 and shown[0] in here, "agent is not drawn at its position", state=s, agents=here, pixel=mid)
                ctx.n("agents_seen")
            else:
                ctx.check(not shown, "agent is drawn where it is not", state=s, drawn=shown, pixel=mid)
        ctx.n(kind + "_plots")
        ctx.sig(ctx.desc, position, walls, features.sum())
        # -- a trajectory and a numbered sequence on top --------------------------------------------------------------
        sas = ref.walled(ref.table_to_sas(ref.move_table(kind, ms["shape"], ms["stay"])), walls)
        free = gen.movable(sas)
        traj = gen.walk(rng, sas, gen.pick(rng, free), int(rng.integers(1, 9))) if len(free) and gen.coin(rng, 0.7) else \
            [int(s) for s in rng.integers(S, size=int(rng.integers(1, 7)))]
        if gen.coin(rng, 0.04):
            traj = [int(s) for s in rng.integers(S, size=int(rng.integers(99, 130)))]
            ctx.n("long_sequences")
        traj = traj if gen.coin(rng, 0.5) else np.array(traj)
        target = env if gen.coin(rng, 0.5) else m
        old = set(map(id, ax.get_children()))
        target.plot_trajectory(traj, ax)
        new = [a for a in ax.get_children() if id(a) not in old]
        arrows = [mark(a) for a in new]
        if any(a is None for a in arrows):
            raise core.Inconclusive("trajectory is drawn with unknown artists: %r" % new)
        arrows = [a for a in arrows if not np.allclose(a[0], a[1])]      # an arrow of no length can be left out
        want = [(pos[int(a)], pos[int(b)]) for a, b in zip(traj[:-1], traj[1:]) if a != b]
        ctx.check(len(arrows) == len(want) and all(np.allclose(g, w, atol=1e-6) for g, w in zip(arrows, want)),
                  "arrows do not follow the trajectory", trajectory=traj, arrows=arrows, want=want)
        ctx.n("arrows", len(arrows))
        old = set(map(id, ax.get_children()))
        target.plot_sequence(traj, ax)
        new = [a for a in ax.get_children() if id(a) not in old]
        seen = {}
        for a in new:
            if not isinstance(a, Text):
                raise core.Inconclusive("sequence is drawn with unknown artists: %r" % new)
            d = np.hypot(*(pos - np.array(a.get_position(), dtype=float)).T)
            seen[a.get_text()] = int(d.argmin())
            ctx.check(d.min() < 0.8 * scale, "number is not drawn in any cell", text=a.get_text(), at=a.get_position())
        ctx.check(seen == {str(k + 1): int(s) for k, s in enumerate(traj)} and len(new) == len(traj), "numbers do not follow the sequence",
                  trajectory=traj, got=seen)
        ctx.n("numbers", len(new))
        # -- values ---------------------------------------------------------------------------------------------------
        fitted = [n for n in names if env.agents[n].algorithm.fit_complete and np.isfinite(env.agents[n].algorithm.values).all()
                  and np.ptp(env.agents[n].algorithm.values) > 0]
        hide = []
        kw = {}
        if kind == "hex" and S > 2 and gen.coin(rng, 0.5):
            hide = [int(s) for s in rng.permutation(S)[:int(rng.integers(1, S // 2 + 1))]]
            kw["hide_idx"] = [(s // ms["shape"][1], s % ms["shape"][1]) for s in hide]
        ax = fresh_axes(ms["shape"])
        if fitted and gen.coin(rng, 0.5):
            n = gen.pick(rng, fitted)
            values = np.array(env.agents[n].algorithm.values)
            ax = env.plot_state_values(n, ax=ax, **kw)
        elif max(ms["shape"]) <= 14 and S > 1 and gen.coin(rng, 0.2):
            values = rng.normal(size=S)
            plt.close(ax.figure)
            with matplotlib.rc_context({"figure.figsize": (7, 7), "figure.dpi": 100}):
                ax = m.plot_state_values(values.copy(), **kw)
            ctx.n("own_figures")
        else:
            values = rng.permutation(S) * float(gen.pick(rng, [1, 0.01, -3])) + float(rng.normal())
            if S == 1:
                return
            ax = m.plot_state_values(values.copy(), ax=ax, **kw)
        pos2, scale2 = geometry(ctx, m, kind, ms["shape"], ms["stay"])
        img = picture(ax)
        cmap = plt.get_cmap("viridis")
        lo, hi = values.min(), values.max()
        for s in range(S):
            got = [pixel(ax, img, pos2[s] + off * c) for c in CORNERS]
            if s in hide:
                x0, x1 = sorted(ax.get_xlim()); y0, y1 = sorted(ax.get_ylim())
                if x0 <= pos2[s][0] <= x1 and y0 <= pos2[s][1] <= y1:
                    ctx.check(near(pixel(ax, img, pos2[s]), np.full(3, 255)), "hidden cell is drawn", state=s, got=got)
                ctx.n("hidden_cells")
                continue
            w = np.array(cmap((values[s] - lo) / (hi - lo))[:3]) * 255
            ctx.check(all(near(g, w, 10) for g in got), "cell does not show its own value", state=s, got=got, want=w, value=values[s], range=[lo, hi])
            ctx.n("value_cells")
        ctx.sample(desc=ctx.desc, trajectory=traj, positions=position)
    finally:
        plt.close("all")
