"""C21: saving and loading an environment preserves it."""
import copy, json, os
import numpy as np
from maMDP.env_io import hex_env_to_dict, hex_env_to_json, hex_environment_from_dict, hex_environment_from_json
from maMDP.mdp import HexGridMDP
from vlib import gen, driver, warm, core

CASES = {"quick": 1200, "thorough": 12000}
REQUIRE = ["round_trips", "json_strings", "json_files", "played_environments", "empty_features", "walled", "stay", "nondefault_settings", "seeded_selectors",
           "coordinates", "single_cells", "named_order", "plans_compared", "loaded_play", "second_saves", "numpy_positions"]
RULE = ("case = one random hexagonal environment (any shape, walls, present/absent features, 1-5 value-iteration agents with any settings), played "
        "for a while, saved as dictionary, JSON string or file, loaded and compared field by field, plan by plan and move by move; distinct = "
        "distinct saved dictionaries")


def warmup(ctx):
    warm.vi(); warm.softmax()


def settings(a):
    """what an agent's planner and selector do, read off their public attributes"""
    alg, sel = a.algorithm, a.action_selector
    out = [type(alg).__name__, alg.discount, alg.tol, alg.max_iter, type(sel).__name__, getattr(sel, "temperature", None)]
    return out + [dict(a.algorithm_kwargs), dict(a.action_kwargs)]


def compare(ctx, env, new, nf):
    a, b = driver.Snap(env), driver.Snap(new)
    ctx.check(isinstance(new.mdp, HexGridMDP) and tuple(new.mdp.shape) == tuple(env.mdp.shape), "grid size differs", got=new.mdp.shape, want=env.mdp.shape)
    ctx.check(bool(new.mdp.self_transitions) == bool(env.mdp.self_transitions), "stay setting differs")
    ctx.check(np.array_equal(a.walls, b.walls), "walls differ", got=np.where(b.walls)[0], want=np.where(a.walls)[0])
    ctx.check(a.shape == b.shape and a.sas_crc == b.sas_crc and a.adj_crc == b.adj_crc, "transitions differ")
    ctx.check(np.array_equal(a.features[:nf], b.features[:nf]), "features differ", cells=np.argwhere(a.features[:nf] != b.features[:nf]))
    ctx.check(a.names == b.names, "agents or their order differ", got=b.names, want=a.names)
    for f in ("pos", "n_moves", "idx", "consumes"):
        ctx.check(getattr(a, f) == getattr(b, f), f + " differs", got=getattr(b, f), want=getattr(a, f))
    for n in a.names:
        ctx.check(np.array_equal(a.reward[n], b.reward[n]), "reward weights differ", agent=n, got=b.reward[n], want=a.reward[n])
        ctx.check(settings(env.agents[n]) == settings(new.agents[n]), "planner or selector settings differ", agent=n, got=settings(new.agents[n]),
                  want=settings(env.agents[n]))
        onehot = np.zeros(a.features.shape[1])
        onehot[a.pos[n]] = 1
        ctx.check(np.array_equal(b.features[b.idx[n]], onehot), "a loaded agent's feature does not mark its position", agent=n)
    ctx.n("round_trips")


def case(ctx, i):
    rng = ctx.rng
    spec = gen.env_spec(rng, planners=("vi",), kinds=("hex",), max_cells=24, style=gen.pick(rng, ["binary", "dense", "sparse", "zero"]), max_agents=5)
    nf = spec["mdp"]["features"].shape[0]
    for a in spec["agents"]:
        kw = {}
        if gen.coin(rng, 0.6):
            kw["discount"] = float(gen.pick(rng, [0.2, 0.75, 0.9]))
        if gen.coin(rng, 0.3):
            kw["tol"] = float(gen.pick(rng, [1e-4, 1e-9]))
        if gen.coin(rng, 0.3):
            kw["max_iter"] = int(gen.pick(rng, [3, 50, 900]))
        a["alg_kwargs"] = kw
        if kw:
            ctx.n("nondefault_settings")
        if "seed" in a["selector"][1]:
            ctx.n("seeded_selectors")
    ctx.desc = gen.describe(spec)
    env = gen.build_env(spec)
    d = driver.Driver(ctx, spec, env, [])
    if gen.coin(rng, 0.6):
        d.run(int(rng.integers(1, 12)), dict(fit=1, step=5, place=2, walls=1, step_multi=1))
        ctx.n("played_environments")
    if gen.coin(rng, 0.15):
        n = gen.pick(rng, d.names)
        env.set_agent_position(n, np.int64(env.agents[n].position))
        ctx.n("numpy_positions")
    if spec["mdp"]["stay"]:
        ctx.n("stay")
    if d.walls.any():
        ctx.n("walled")
    if (env.mdp.features[:nf].sum(axis=1) == 0).any():
        ctx.n("empty_features")
    fnames = None
    if gen.coin(rng, 0.5):
        fnames = [gen.pick(rng, ["tree %d", "φ%d", "z%d", "10%d"]) % k for k in range(nf)][::1]
        if gen.coin(rng, 0.5):
            fnames = [fnames[k] for k in rng.permutation(nf)]
    before = driver.Snap(env)
    mode = int(rng.integers(3))
    keep = None if fnames is None else list(fnames)
    saved = hex_env_to_dict(env, fnames) if fnames is not None else hex_env_to_dict(env)
    ctx.check(not driver.Snap(env).diff(before, driver.Snap.WORLD + ("plan", "values")), "saving changed the environment")
    ctx.check(fnames == keep, "saving changed the feature names")
    json.dumps(saved)
    snap = copy.deepcopy(saved)
    if mode == 0:
        new = hex_environment_from_dict(saved)
        ctx.check(saved == snap, "loading changed the dictionary")
    else:
        names = fnames if fnames is not None else env.mdp.feature_names[:nf]
        if mode == 1:
            text = hex_env_to_json(env, names, return_string=True)
            ctx.n("json_strings")
        else:
            path = os.path.join(os.environ["VERIF_WORK"], "env_%d_%d.json" % (os.getpid(), i))
            hex_env_to_json(env, names, fname=path)
            with open(path) as f:
                text = f.read()
            os.remove(path)
            ctx.n("json_files")
        ctx.check(json.loads(text) == snap, "the JSON form differs from the dictionary")
        new = hex_environment_from_json(text)
    ctx.check(not driver.Snap(env).diff(before, driver.Snap.WORLD + ("plan", "values")), "saving changed the environment")
    compare(ctx, env, new, nf)
    again = hex_env_to_dict(new, fnames) if fnames is not None else hex_env_to_dict(new)
    ctx.check(json.loads(json.dumps(again)) == json.loads(json.dumps(snap)) and json.dumps(again) == json.dumps(snap), "saving the loaded environment gives different data",
              got=again, want=snap)
    ctx.n("second_saves")
    ctx.sig(json.dumps(snap))
    if gen.coin(rng, 0.4):      # the same, written as coordinates
        xy = hex_env_to_dict(env, *([] if fnames is None else [fnames]), format="coords")
        ctx.check(not driver.Snap(env).diff(before, driver.Snap.WORLD + ("plan", "values")), "saving changed the environment")
        text = json.dumps(xy)
        new = hex_environment_from_dict(json.loads(text)) if gen.coin(rng, 0.5) else hex_environment_from_json(text)
        compare(ctx, env, new, nf)
        ctx.n("coordinates")
        ctx.n("single_cells", sum(len(v) == 1 for v in snap["features"].values()))
        for what, want in [(k, snap["features"][k]) for k in snap["features"]] + [("walls", snap["walls"])]:
            cells = np.array(xy["walls"] if what == "walls" and want is snap["walls"] else xy["features"][what], dtype=int).reshape(-1, 2)
            ctx.check(sorted(map(tuple, cells)) == [(s // env.mdp.shape[1], s % env.mdp.shape[1]) for s in want], "coordinates differ from the states", what=what,
                      got=cells, want=want)
    if fnames is not None and gen.coin(rng, 0.3):     # features asked for in another order
        order = [int(k) for k in rng.permutation(nf)]
        other = hex_environment_from_dict(copy.deepcopy(snap), feature_names=[fnames[k] for k in order])
        ctx.check(np.array_equal(other.mdp.features[:nf], env.mdp.features[order]), "features are not in the order asked for", order=order)
        ctx.n("named_order")
    # plans and play
    if all(env.mdp.features[x.agent_feature_idx].any() for x in env.agents.values()):      # nobody's marker is currently eaten
        for n in d.names:
            env.fit(n); new.fit(n)
            ctx.check(np.array_equal(env.agents[n].algorithm.values, new.agents[n].algorithm.values) and
                      np.array_equal(env.get_agent_q_values(n), new.get_agent_q_values(n)), "the loaded environment plans differently", agent=n)
            ctx.check(np.array_equal(env.agents[n].pi_p, new.agents[n].pi_p, equal_nan=True), "the loaded environment has a different policy", agent=n)
            ctx.n("plans_compared")
    n = gen.pick(rng, d.names)
    if d.can_move(new.agents[n].position):
        now = driver.Snap(env)
        new.fit(n)
        for _ in range(3):
            new.step(n)
        new.mdp.walls = np.zeros(new.mdp.n_states)
        ctx.check(not driver.Snap(env).diff(now), "playing in the loaded environment changed the saved one")
        ctx.n("loaded_play")
    ctx.sample(saved=snap)
