"""C31: separate environments and MDPs never influence one another."""
import copy
import numpy as np
from maMDP.mdp import MDP
from maMDP.environments import Environment
from maMDP.agents import Agent
from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector
from vlib import gen, driver, worldcheck, core
from vlib.worldcheck import warmup

CASES = {"quick": 400, "thorough": 4000}
REQUIRE = ["operations_on_neighbours", "snapshot_comparisons", "inputs_checked", "later_input_edits", "plans_compared", "shared_inputs", "bare_mdps",
           "reattached_mdps", "strangers"]
RULE = ("case = two or three environments built from the same arrays, lists and settings dictionaries, driven in random alternation; after each "
        "operation on one the others' snapshots and all caller-owned objects are compared with what they were, and plans are compared again after unrelated environments planned; distinct = distinct "
        "(environment, operation sequence) with more than two operations")


# every documented option with its default, for callers who spell their settings out
DEFAULTS = {"mcts": dict(n_iter=10, n_steps=10, C=1, caught_cost=-50, interactive=False, opponent_policy_method="solve", opponent_algorithm="value_iteration",
                         opponent_action_selection="max", softmax_temperature=1, caching=False, reset_cache=True, return_states=True,
                         return_other_agent_states=True, verbose=False, VI_kwargs={}),
            "vi": dict(discount=0.9, tol=1e-8, max_iter=500), "max": dict(seed=None), "softmax": dict(temperature=1, seed=None)}
DEFAULTS["imcts"] = DEFAULTS["mcts"]


class Inputs:
    """what a caller would keep and reuse"""

    def __init__(self, spec, rng):
        ms = spec["mdp"]
        self.features = ms["features"].copy()
        self.walls = None if ms["walls"] is None else ms["walls"].copy()
        self.sas = ms["sas"].copy() if "sas" in ms else None
        aslist = gen.coin(rng, 0.3)
        self.rewards = [a["reward"].tolist() if aslist else a["reward"].copy() for a in spec["agents"]]
        self.consumes = [list(a["consumes"]) for a in spec["agents"]]
        self.alg_kwargs = [dict(a["alg_kwargs"]) for a in spec["agents"]]
        self.sel_kwargs = [dict(a["selector"][1]) for a in spec["agents"]]
        for a, kw, sk in zip(spec["agents"], self.alg_kwargs, self.sel_kwargs):
            if gen.coin(rng, 0.3):
                for have, name in ((kw, a["alg"]), (sk, a["selector"][0])):
                    for o, v in DEFAULTS.get(name, {}).items():
                        have.setdefault(o, copy.deepcopy(v))

    def state(self):
        return copy.deepcopy(self.__dict__)

    def build(self, spec):
        ms = spec["mdp"]
        if ms["kind"] in gen.GRID:
            mdp = gen.GRID[ms["kind"]](features=self.features, walls=self.walls, shape=ms["shape"], self_transitions=ms["stay"])
        else:
            mdp = MDP(self.features, self.sas, walls=self.walls, seed=ms.get("seed"))
        ags = {}
        for j, a in enumerate(spec["agents"]):
            sel = MaxActionSelector if a["selector"][0] == "max" else SoftmaxActionSelector
            ag = Agent(a["name"], n_moves=a["n_moves"], algorithm=gen.alg_class(a["alg"]), algorithm_kwargs=self.alg_kwargs[j], action_selector=sel,
                       action_kwargs=self.sel_kwargs[j])
            ags[ag] = (a["position"], self.rewards[j], self.consumes[j])
        keep = dict(ags)
        env = Environment(mdp, ags)
        return env, (ags == keep and list(ags) == list(keep))


def same(a, b):
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)
    return a == b


def plans(env, d, seed):
    """what the environment's planners would answer right now (does not leave a trace in the snapshot's world part)"""
    out = {}
    for n in d.names:
        if d.plannable(n):
            core.seed_all(seed)
            env.fit(n)
            d.fresh[n] = True
            out[n] = np.array(env.get_agent_q_values(n))
    return out


def case(ctx, i):
    rng = ctx.rng
    spec = worldcheck.spec_for(ctx, i)
    ctx.desc = gen.describe(spec)
    inp = Inputs(spec, rng)
    given = inp.state()
    k = int(rng.integers(2, 4))
    envs, ds = [], []
    for _ in range(k):
        e, ok = inp.build(spec)
        ctx.check(ok, "the agents dictionary was modified")
        ctx.check(same(inp.state(), given), "building an environment modified the caller's objects")
        envs.append(e)
        ds.append(driver.Driver(ctx, spec, e, []))
        ctx.n("shared_inputs")
    bare = gen.build_mdp(spec["mdp"]) if inp.sas is not None else gen.GRID[spec["mdp"]["kind"]](
        features=inp.features, walls=inp.walls, shape=spec["mdp"]["shape"], self_transitions=spec["mdp"]["stay"])
    bare_state = (bare.features.copy(), bare.walls.copy(), bare.sas.copy(), bare.adjacency.copy())
    search = any(a["alg"] in ("mcts", "imcts") for a in spec["agents"])
    # what the quiet environments would plan, before and after everything else happened
    seed = int(rng.integers(2 ** 31))
    asked = plans(envs[-1], ds[-1], seed)
    snaps = [driver.Snap(e) for e in envs]
    full = driver.Snap.WORLD + ("plan", "values")
    trace = []
    for _ in range(int(rng.integers(2, 6 if search else 14))):
        j = int(rng.integers(k - 1))          # the last one is never touched
        ds[j].pre = driver.Snap(envs[j])
        ds[j].run(1)
        trace.append([j] + ds[j].trace[-1:])
        ctx.trace = trace[-20:]
        ctx.n("operations_on_neighbours")
        for x in range(k):
            if x == j:
                snaps[x] = driver.Snap(envs[x])
                continue
            bad = driver.Snap(envs[x]).diff(snaps[x], full)
            ctx.check(not bad, "an operation on one environment changed another", changed=bad, touched=j, other=x)
            ctx.n("snapshot_comparisons")
        now = inp.state()
        ctx.check(same(now, given), "an operation modified the caller's objects", changed=[f for f in now if not same(now[f], given[f])])
        ctx.n("inputs_checked")
    # eating on an MDP without agents
    busy = MDP(inp.features, bare.sas) if gen.coin(rng, 0.5) or inp.sas is not None else gen.GRID[spec["mdp"]["kind"]](
        features=inp.features, shape=spec["mdp"]["shape"], self_transitions=spec["mdp"]["stay"])
    for _ in range(3):
        busy.consume_features([int(c) for c in range(ds[0].nf)], int(rng.integers(busy.n_states)))
    busy.walls = gen.walls(rng, busy.n_states, 0.4)
    now = inp.state()
    ctx.check(same(now, given), "an operation on an MDP modified the caller's objects", changed=[f for f in now if not same(now[f], given[f])])
    ctx.check(all(not driver.Snap(e).diff(t, full) for e, t in zip(envs, snaps)), "an operation on an MDP changed an environment")
    ctx.check(all(np.array_equal(a, b) for a, b in zip((bare.features, bare.walls, bare.sas, bare.adjacency), bare_state)),
              "an MDP built from the same arrays changed")
    ctx.n("bare_mdps")
    # strangers with their own settings, then the same environment once more
    for _ in range(2):
        other = worldcheck.spec_for(ctx, 8 if search else int(rng.integers(10)))
        for a in other["agents"]:
            if a["alg"] in ("mcts", "imcts"):
                a["alg_kwargs"] = dict(a["alg_kwargs"], n_iter=3, n_steps=4, VI_kwargs=dict(VI_max_iter=int(gen.pick(rng, [1, 2, 300])), VI_discount=float(gen.pick(rng, [0.1, 0.5, 0.99]))))
        so = Inputs(other, rng)
        stranger, _ = so.build(other)
        plans(stranger, driver.Driver(ctx, other, stranger, []), int(rng.integers(2 ** 31)))
        ctx.n("strangers")
    twin, _ = inp.build(spec)
    anew = plans(twin, driver.Driver(ctx, spec, twin, []), seed)
    ctx.check(same(asked, anew), "plans of a new environment depend on what happened in others", agents=[n for n in asked if not same(asked[n], anew.get(n))])
    # later edits of the caller's arrays
    inp.features += 1
    if inp.walls is not None:
        inp.walls[:] = 1 - inp.walls
    for r in inp.rewards:
        if isinstance(r, np.ndarray):
            r -= 7
        else:
            r[:] = [99] * len(r)
    for x in range(k):
        bad = driver.Snap(envs[x]).diff(snaps[x], full)
        ctx.check(not bad, "changing the arrays used to build an environment changed the environment", changed=bad)
    ctx.check(np.array_equal(bare.features, bare_state[0]) and np.array_equal(bare.walls, bare_state[1]) and np.array_equal(bare.sas, bare_state[2]),
              "changing the arrays used to build an MDP changed the MDP")
    ctx.n("later_input_edits")
    again = plans(envs[-1], ds[-1], seed)
    ctx.check(same(asked, again), "plans depend on what happened in other environments", agents=[n for n in asked if not same(asked[n], again.get(n))])
    ctx.n("plans_compared")
    for e in envs:
        e.reset()
        ctx.check(np.array_equal(e.mdp.features[:ds[0].nf], spec["mdp"]["features"]), "a reset after editing the caller's arrays brings the edit in")
    # a new environment on the MDP of an old one gets its own, clean agents
    if gen.coin(rng, 0.3):
        ags = {gen.build_agent(a): (a["position"], a["reward"].copy(), list(a["consumes"])) for a in spec["agents"]}
        e2 = Environment(bare, ags)
        last = driver.Snap(envs[-1])
        d2 = driver.Driver(ctx, spec, e2, [])
        d2.run(3)
        ctx.check(not driver.Snap(envs[-1]).diff(last, full), "an environment changed another one")
        ctx.n("reattached_mdps")
    if len(trace) > 2:
        ctx.sig(ctx.desc, trace)
    ctx.sample(environments=k, agents=len(spec["agents"]), kind=spec["mdp"]["kind"], operations=[t[0] for t in trace][:25])
