"""Tree search under observation: runs searches in generated worlds and replays the recorded trajectories independently."""
import numpy as np
from . import gen, ref, warm, core


def warmup(ctx):
    warm.vi(); warm.mcts(); warm.softmax()


def default_plan(n_steps, n_moves):
    """moves per turn when no plan is given: agents take turns with their own numbers of moves until n_steps moves are planned"""
    out = [[] for _ in n_moves]
    left = n_steps
    while left > 0:
        for j, k in enumerate(n_moves):
            m = min(k, left)
            out[j].append(m)
            left -= m
    return out


class Search:
    """one environment with a searching agent; .run() plans once and keeps everything that was recorded"""

    def __init__(self, ctx, spec, searcher=0):
        self.ctx, self.spec, self.rng = ctx, spec, ctx.rng
        self.env = gen.build_env(spec)
        self.names = [a["name"] for a in spec["agents"]]
        self.me = self.names[searcher]
        self.a = spec["agents"][searcher]
        self.kw = self.a["alg_kwargs"]
        self.order = [self.me] + [n for n in self.names if n != self.me]      # the order in which agents move in simulations
        self.nf = spec["mdp"]["features"].shape[0]
        self.row = {n: self.nf + j for j, n in enumerate(self.names)}
        self.by = {a["name"]: a for a in spec["agents"]}
        self.sas0 = gen.spec_sas(dict(spec["mdp"], walls=None))
        self.sas = gen.spec_sas(spec["mdp"])
        self.interactive = bool(self.kw["interactive"])

    def run(self, plan=None):
        env = self.env
        self.features = np.array(env.mdp.features, float)
        self.pos = {n: int(env.agents[n].position) for n in self.names}
        given = plan
        if plan is None:
            moves = [self.by[n]["n_moves"] for n in self.order]
            plan = default_plan(self.kw["n_steps"], moves if self.interactive else moves[:1])
        self.plan = [list(p) for p in plan] if self.interactive else [[sum(plan[0])]]
        if given is None:
            env.fit(self.me)
        else:
            env.fit(self.me, n_moves=given)
        alg = env.agents[self.me].algorithm
        self.V, self.N = np.array(alg.V, float), np.array(alg.N, float)
        self.q = np.array(env.get_agent_q_values(self.me), float)
        self.visited = [[int(s) for s in t] for t in alg.visited_states]
        self.others = [[[int(s) for s in t] for t in ts] for ts in alg.other_agent_visited_states]
        return self

    def eats(self, a, b):
        return self.row[b] in [c % (self.nf + len(self.names)) for c in self.by[a]["consumes"]]

    def overlap(self, pos, active):
        """contact is settled before every next move; returns (reward, caught)"""
        add = 0.0
        for a in self.order:
            for b in self.order:
                if self.eats(a, b) and a != b and active[a] and active[b] and pos[a] == pos[b]:
                    active[b] = False
                    if b == self.me:
                        return add + float(self.kw["caught_cost"]), True
                    if a == self.me:
                        add += float(self.by[self.me]["reward"][self.row[b]])
        return add, False

    def replay(self, k):
        """replays trajectory k; returns a dict with the moves (agent, from, to, features before the move), the return it is worth,
        whether the agent was caught, whose moves are missing and whose are left over"""
        mine = list(self.visited[k])
        rest = {n: (list(self.others[k][j]) if k < len(self.others) and j < len(self.others[k]) else []) for j, n in enumerate(self.order[1:])}
        rest[self.me] = mine
        f = self.features.copy()
        pos = dict(self.pos)
        active = {n: True for n in self.order}
        actors = self.order if self.interactive else [self.me]
        w = np.asarray(self.by[self.me]["reward"], float)
        total, caught, moves, missing, eaten = 0.0, False, [], None, []
        turns = max(len(p) for p in self.plan)
        for t in range(turns):
            for j, n in enumerate(actors):
                for _ in range(self.plan[j][t] if t < len(self.plan[j]) else 0):
                    if self.interactive:
                        before = dict(active)
                        add, caught = self.overlap(pos, active)
                        eaten += [x for x in before if before[x] and not active[x]]
                        total += add
                        if caught:
                            return dict(moves=moves, value=total, caught=True, missing=None, left=rest, eaten=eaten)
                    if not active[n]:
                        continue
                    if not rest[n]:
                        return dict(moves=moves, value=total, caught=False, missing=n, left=rest, eaten=eaten)
                    s, to = pos[n], rest[n].pop(0)
                    moves.append((n, s, to, f.copy()))
                    if n == self.me:
                        total += float(w @ f[:, to])
                    pos[n] = to
                    f[self.row[n]] = 0
                    f[self.row[n], to] = 1
                    for c in self.by[n]["consumes"]:
                        f[c, to] = 0
        return dict(moves=moves, value=total, caught=False, missing=None, left=rest, eaten=eaten)


def spec_for(ctx, i, interactive=None, max_cells=16, kinds=("square", "hex", "square", "hex", "det"), max_agents=4, mcts=None, **kw):
    rng = ctx.rng
    inter = (i % 3 != 0) if interactive is None else interactive
    if "min_cells" not in kw and i % 4:
        kw["min_cells"] = 5
    crowd = max_agents > 3 and gen.coin(rng, 0.05)
    for _ in range(100):
        n = int(rng.integers(5, 8)) if crowd else int(rng.integers(1, max_agents + 1))
        spec = gen.env_spec(rng, planners=("null",), kinds=kinds, max_cells=max_cells, n_agents=n, **kw)
        sas = gen.spec_sas(spec["mdp"])
        stuck = ~(sas > 0).any(axis=(1, 2))
        if (sas[:, :, stuck] > 0).any():
            continue
        break
    j = int(rng.integers(len(spec["agents"])))
    a = spec["agents"][j]
    a["alg"] = "imcts" if inter else "mcts"
    a["alg_kwargs"] = gen.mcts_kwargs(rng, inter, mcts)
    a["selector"] = ("max", a["selector"][1] if a["selector"][0] == "max" else {})
    nf, na = spec["mdp"]["features"].shape[0], len(spec["agents"])
    if na > 1 and gen.coin(rng, 0.6):     # predators and prey
        for k, b in enumerate(spec["agents"]):
            if gen.coin(rng, 0.5):
                b["consumes"] = sorted(set(b["consumes"]) | {nf + int(x) for x in rng.permutation(na)[:2] if x != k})
    return spec, j


def plan_for(rng, s):
    """None (the agents' own numbers of moves), or an explicit plan"""
    if gen.coin(rng, 0.35):
        return None
    t = int(rng.integers(1, 4)) if gen.coin(rng, 0.95) else int(rng.integers(4, 9))
    p = [[int(rng.integers(0, 4)) for _ in range(t)] for _ in s.names]
    if not any(p[0]):
        p[0][int(rng.integers(t))] = 1
    if gen.coin(rng, 0.3):
        p = tuple(tuple(x) for x in p)
    return p


def wander(s):
    """changes the world between searches: wall edits, repositioning, steps of the others"""
    rng, env = s.rng, s.env
    if gen.coin(rng, 0.3):
        w = gen.walls(rng, s.sas0.shape[0], float(gen.pick(rng, [0, 0.1, 0.3])))
        sas = ref.walled(s.sas0, w)
        stuck = ~(sas > 0).any(axis=(1, 2))
        here = [int(a.position) for a in env.agents.values()]
        if not (sas[:, :, stuck] > 0).any() and not stuck[here].any():
            env.mdp.walls = w
            s.sas = sas
            s.ctx.n("wall_edits_between_searches")
            s.ctx.log("walls", np.where(w)[0])
    free = gen.movable(s.sas)
    if gen.coin(rng, 0.3):      # an agent's tastes change
        n = gen.pick(rng, s.names)
        w = np.asarray(s.by[n]["reward"], float)
        w = rng.permutation(w) if gen.coin(rng, 0.4) else -w if gen.coin(rng, 0.5) else np.round(w + rng.normal(size=len(w)), 2)
        env.agents[n].reward_function = w.copy()
        s.by[n] = dict(s.by[n], reward=w)
        s.ctx.n("reweighed_between_searches")
        s.ctx.log("reweigh", n, w)
    for n in s.names:
        u = rng.random()
        if u < 0.3:
            env.set_agent_position(n, int(gen.pick(rng, free)))
        elif u < 0.6 and s.by[n]["alg"] == "null":
            env.fit(n)
            for _ in range(int(rng.integers(1, 3))):
                env.step(n)


def case(ctx, i, judge, searches=3, **kw):
    """runs several searches of one agent in a changing world and hands each to judge(s)"""
    rng = ctx.rng
    spec, j = spec_for(ctx, i, **kw)
    ctx.desc = gen.describe(spec)
    s = Search(ctx, spec, j)
    for r in range(int(rng.integers(1, searches + 1))):
        plan = plan_for(rng, s)
        core.seed_all(int(rng.integers(2 ** 31)))
        ctx.log("search", r, plan, dict(s.env and {n: int(a.position) for n, a in s.env.agents.items()}))
        s.run(plan)
        ctx.n("searches"); ctx.n("trajectories", len(s.visited))
        judge(ctx, s)
        for t, o in zip(s.visited, s.others or [None] * len(s.visited)):
            ctx.sig(ctx.desc["mdp"], t, o)
        wander(s)
    ctx.sample(agents=len(spec["agents"]), kind=spec["mdp"]["kind"], search=s.kw, plan=s.plan, first=s.visited[0] if s.visited else None,
               others=s.others[0] if s.others else None)
