"""Drives an environment through random operation histories and hands every observed transition to monitors.

Everything is observed at the public API: a snapshot of the environment is taken before and after each operation. A
monitor is a function (ctx, ev) judging one event; events carry the operation, its result and both snapshots. Monitors
compare the two snapshots only, so a disagreement another property is responsible for never carries over.
"""
import contextlib, io, zlib
import numpy as np
from . import gen, ref


class Snap:
    def __init__(self, env):
        m = env.mdp
        self.names = list(env.agents.keys())
        self.pos = {n: int(a.position) for n, a in env.agents.items()}
        self.hist = {n: [int(s) for s in env.get_agent_position_history(n)] for n in self.names}
        self.consumed = {n: np.array(a.consumed, dtype=float) for n, a in env.agents.items()}
        self.reward = {n: np.array(a.reward_function) for n, a in env.agents.items()}
        self.consumes = {n: list(a.consumes) for n, a in env.agents.items()}
        self.eats = {n: [int(c) % m.n_features for c in a.consumes] for n, a in env.agents.items()}      # indices may count from the end
        self.n_moves = {n: a.n_moves for n, a in env.agents.items()}
        self.features = np.array(m.features, dtype=float)
        self.walls = np.array(m.walls, dtype=float)
        self.sas_crc = zlib.crc32(np.ascontiguousarray(m.sas).tobytes())
        self.adj_crc = zlib.crc32(np.ascontiguousarray(m.adjacency).tobytes())
        self.n_steps = env.n_steps
        self.shape = (m.n_states, m.n_actions, m.n_features, m.n_agents)
        self.plan = {n: None if a.algorithm.q_values is None else np.array(a.algorithm.q_values) for n, a in env.agents.items()}
        self.values = {n: None if a.algorithm.values is None else np.array(a.algorithm.values) for n, a in env.agents.items()}
        self.idx = {n: int(a.agent_feature_idx) for n, a in env.agents.items()}

    WORLD = ("names", "pos", "hist", "consumed", "reward", "consumes", "n_moves", "features", "walls", "sas_crc", "adj_crc", "n_steps", "shape", "idx")

    def diff(self, other, fields=WORLD):
        """names of the parts in which two snapshots differ"""
        return [f for f in fields if not same(getattr(self, f), getattr(other, f))]


def same(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    return a == b


class Event:
    def __init__(self, op, agent, args, pre, post, result, steps=None, refit=False):
        self.op, self.agent, self.args, self.pre, self.post, self.result = op, agent, args, pre, post, result
        self.steps, self.refit = steps, refit      # steps: [(agent, state entered)] in order, or None if not reconstructable


class Driver:
    def __init__(self, ctx, spec, env, monitors, base_sas=None):
        self.ctx, self.spec, self.env, self.monitors = ctx, spec, env, monitors
        self.rng = ctx.rng
        self.sas0 = base_sas if base_sas is not None else gen.spec_sas(dict(spec["mdp"], walls=None))
        w = spec["mdp"]["walls"]
        self.walls = np.zeros(self.sas0.shape[0]) if w is None else np.asarray(w, float).copy()
        self.sas = ref.walled(self.sas0, self.walls)
        self.by = {a["name"]: dict(a) for a in spec["agents"]}
        self.names = [a["name"] for a in spec["agents"]]
        self.nf = spec["mdp"]["features"].shape[0]
        self.fresh = {}          # agent -> True while its last plan fits the current walls
        self.pre = Snap(env)
        self.start = self.pre
        self.last_reset = 0
        self.trace = []

    # -- helpers ---------------------------------------------------------------------------------------------------
    def rule(self, n):
        s = self.by[n]["selector"]
        return ("max",) if s[0] == "max" else ("softmax", s[1]["temperature"])

    def can_move(self, s):
        return bool((self.sas[s] > 0).any())

    def online(self, n):
        return self.by[n]["alg"] in ("mcts", "imcts")

    def ready(self, n):
        """the agent's current plan tells it a possible move at its position"""
        q = self.env.get_agent_q_values(n)
        p = self.env.agents[n].position
        return self.fresh.get(n) and q is not None and np.isfinite(q[p]).any()

    def plannable(self, n):
        if not self.can_move(self.env.agents[n].position):
            return False
        if self.by[n]["alg"] == "imcts":
            return all(self.can_move(a.position) for a in self.env.agents.values())
        return True

    def plan_arg(self, n):
        """an explicit plan for tree search, or None"""
        if not self.online(n) or gen.coin(self.rng, 0.4):
            return None
        t = int(self.rng.integers(1, 3))
        return [[int(self.rng.integers(1, 4)) for _ in range(t)] for _ in self.names]

    def emit(self, op, agent, args, result, steps=None, refit=False):
        post = Snap(self.env)
        ev = Event(op, agent, args, self.pre, post, result, steps, refit)
        ev.driver = self
        self.ctx.n("op_" + op)
        self.trace.append([op, agent, args if not isinstance(args, dict) else {k: v for k, v in args.items() if k != "dist"}])
        self.ctx.trace = self.trace[-25:]
        for mon in self.monitors:
            mon(self.ctx, ev)
        self.pre = post
        return ev

    def ensure_fit(self, n):
        if not self.ready(n) or (self.online(n)):
            self.op_fit(n)

    def progress(self, kw):
        """sometimes asks for a progress bar; swallows what it prints"""
        if gen.coin(self.rng, 0.05):
            kw["progressbar"] = True
            self.ctx.n("progress_bars")
            return contextlib.redirect_stdout(io.StringIO())
        return contextlib.nullcontext()

    # -- operations ------------------------------------------------------------------------------------------------
    def op_fit(self, n):
        arg = self.plan_arg(n)
        self.trace.append(["fit?", n, arg]); self.ctx.trace = self.trace[-25:]
        if arg is None:
            self.env.fit(n)
        else:
            self.env.fit(n, n_moves=arg)
        self.fresh[n] = True
        self.emit("fit", n, {"n_moves": arg}, None)

    def op_step(self, n):
        self.ensure_fit(n)
        self.trace.append(["step?", n]); self.ctx.trace = self.trace[-25:]
        r = self.env.step(n)
        self.emit("step", n, {}, r, steps=[(n, s) for s in self.delta_hist(n, 1)])

    def delta_hist(self, n, limit=None):
        h0, h1 = self.pre.hist[n], [int(s) for s in self.env.get_agent_position_history(n)]
        return h1[len(h0):] if h1[:len(h0)] == h0 else h1[-(limit or 1):]

    def op_step_multi(self, n):
        refit = self.online(n) or gen.coin(self.rng, 0.5)
        if not refit:
            self.ensure_fit(n)
        kw = dict(refit=refit, stop_on_caught=gen.coin(self.rng, 0.6))
        u = self.rng.random()
        if u < 0.4:
            want = self.by[n]["n_moves"]
        elif u < 0.8:
            want = kw["n_steps"] = int(self.rng.integers(0, 6))
            if not self.online(n) and gen.coin(self.rng, 0.02):      # a long walk
                want = kw["n_steps"] = int(self.rng.integers(50, 160))
                if not refit and gen.coin(self.rng, 0.3):
                    want = kw["n_steps"] = int(self.rng.integers(300, 1500))
                    self.ctx.n("very_long_walks")
                self.ctx.n("long_walks")
        else:
            order = [n] + [x for x in self.names if x != n]
            kw["n_steps"] = [int(self.rng.integers(1, 5)) for _ in order]
            want = kw["n_steps"][0]
        if refit and gen.coin(self.rng, 0.5):
            kw["n_moves_plan"] = [int(self.rng.integers(1, 7)) for _ in self.names]
            if gen.coin(self.rng, 0.5):
                kw["n_moves_plan"] = tuple(kw["n_moves_plan"])
            kw["n_turns_plan"] = int(self.rng.integers(1, 4))
        self.trace.append(["step_multi?", n, kw]); self.ctx.trace = self.trace[-25:]
        with self.progress(kw):
            r = self.env.step_multi(n, **kw)
        if refit and want > 0:
            self.fresh[n] = True
        d = self.delta_hist(n)
        self.emit("step_multi", n, dict(kw, want=want), r, steps=[(n, s) for s in d], refit=refit)

    def op_interactive(self):
        names, whole = None, True
        order = self.names
        if gen.coin(self.rng, 0.5):
            order = [self.names[k] for k in self.rng.permutation(len(self.names))]
            if gen.coin(self.rng, 0.3):         # only some of the agents, or some of them several times in a turn
                order = [gen.pick(self.rng, self.names) for _ in range(int(self.rng.integers(1, len(self.names) + 2)))]
                whole = False
                self.ctx.n("partial_or_repeated_orders")
            names = list(order)
        refit = any(self.online(n) for n in order) or gen.coin(self.rng, 0.5)
        if not refit:
            for n in order:
                self.ensure_fit(n)
        kw = dict(refit=refit, stop_on_caught=gen.coin(self.rng, 0.6))
        turns = int(self.rng.integers(1, 4)) if gen.coin(self.rng, 0.95) else int(self.rng.integers(4, 9))
        if gen.coin(self.rng, 0.5):
            kw["n_moves"] = [[int(self.rng.integers(0, 4)) for _ in range(turns)] for _ in order]
            sched = kw["n_moves"]
            if gen.coin(self.rng, 0.15):
                kw["n_turns"] = int(self.rng.integers(1, 5))      # the moves given decide
        else:
            kw["n_turns"] = turns
            sched = [[self.by[n]["n_moves"]] * turns for n in order]
        if refit and whole and gen.coin(self.rng, 0.4):
            kw["n_moves_plan"] = [int(self.rng.integers(1, 6)) for _ in order]
        if gen.coin(self.rng, 0.3):
            kw["adjust_planning_steps"] = gen.coin(self.rng, 0.5)
        self.trace.append(["interactive?", names, kw]); self.ctx.trace = self.trace[-25:]
        with self.progress(kw):
            r = self.env.step_multi_interactive(names, **kw)
        if refit:
            for n in order:
                if self.delta_hist(n):
                    self.fresh[n] = True
        steps, ok = self.schedule(order, sched, turns, kw["stop_on_caught"])
        self.emit("interactive", None, dict(kw, order=order, sched=sched, turns=turns, consistent=ok), r, steps=steps, refit=refit)

    def caught(self, n, pos):
        """capture rule: the mover stands where an agent whose feature it consumes stands"""
        k = {x: self.nf + j for j, x in enumerate(self.names)}
        return any(x != n and k[x] in self.pre.eats[n] and pos[x] == pos[n] for x in self.names)

    def schedule(self, order, sched, turns, stop):
        """replays the turn order over what each agent's history gained; (steps, consistent)"""
        left = {n: list(self.delta_hist(n)) for n in self.names}
        pos = dict(self.pre.pos)
        steps = []
        for t in range(turns):
            for j, n in enumerate(order):
                for _ in range(sched[j][t]):
                    if not left[n]:
                        return steps, False
                    pos[n] = left[n].pop(0)
                    steps.append((n, pos[n]))
                    if stop and self.caught(n, pos):
                        return steps, not any(left.values())
        return steps, not any(left.values())

    def op_proba(self, n):
        if self.online(n):
            if not self.fresh.get(n):
                return
            q = self.env.get_agent_q_values(n)
            known = np.isfinite(q).any(axis=1) if q is not None else np.zeros(len(self.walls), bool)
            known &= np.array([self.can_move(s) for s in range(len(known))])
        else:
            self.ensure_fit_any(n)
            known = np.array([self.can_move(s) for s in range(len(self.walls))])
        dist = None
        u = self.rng.random()
        if u < 0.3:
            if not known[self.env.agents[n].position]:
                return
        else:
            ks = np.where(known)[0]
            if not len(ks):
                return
            dist = np.zeros(len(known))
            k = int(self.rng.integers(1, len(ks) + 1)) if u < 0.8 else 1
            ch = self.rng.choice(ks, k, replace=False)
            dist[ch] = self.rng.random(k) + 0.01 if gen.coin(self.rng, 0.7) else 1.0
            if gen.coin(self.rng, 0.4):
                dist = dist / dist.sum()
            elif gen.coin(self.rng, 0.2):
                dist = dist * 37.0
            elif gen.coin(self.rng, 0.1):
                dist = (dist > 0).astype(int)
        self.trace.append(["proba?", n, None if dist is None else np.where(dist)[0]]); self.ctx.trace = self.trace[-25:]
        keep = None if dist is None else dist.copy()
        r = self.env.step_proba(n) if dist is None else self.env.step_proba(n, dist)
        self.emit("proba", n, {"dist": dist, "kept": keep}, r)

    def ensure_fit_any(self, n):
        if not self.fresh.get(n):
            self.op_fit(n)

    def op_place(self, n):
        s = int(gen.pick(self.rng, gen.movable(self.sas))) if len(gen.movable(self.sas)) else 0
        if gen.coin(self.rng, 0.3):
            s = self.env.agents[gen.pick(self.rng, self.names)].position     # onto another agent
        elif gen.coin(self.rng, 0.15):
            s = self.env.agents[n].position                                   # where it is already
        elif gen.coin(self.rng, 0.03):
            s = int(self.rng.integers(len(self.walls)))                       # anywhere, also where it cannot leave from
        self.env.set_agent_position(n, s)
        self.emit("place", n, {"to": int(s)}, None)

    def op_swap(self, n):
        """gives the agent another action selector; its plan stays"""
        self.by[n]["selector"] = gen.selector_spec(self.rng)
        self.env.agents[n].action_selector = gen.build_agent(self.by[n]).action_selector
        self.emit("swap", n, {"selector": self.by[n]["selector"]}, None)

    def op_reset(self):
        self.env.reset()
        self.emit("reset", None, {}, None)

    def op_walls(self):
        m = self.env.mdp
        w = gen.walls(self.rng, len(self.walls), float(gen.pick(self.rng, [0, 0.1, 0.3])))
        for a in self.env.agents.values():
            if gen.coin(self.rng, 0.95):      # seldom walls an agent in
                w[a.position] = 0
        if gen.coin(self.rng, 0.2):
            w[:] = 0
        sas = ref.walled(self.sas0, w)
        stuck = ~(sas > 0).any(axis=(1, 2))
        if (sas[:, :, stuck] > 0).any():     # a state that can be entered but not left: nobody could be asked to walk on
            w[:] = 0
        m.walls = w.copy()
        self.walls, self.sas = w, ref.walled(self.sas0, w)
        self.fresh = {}
        self.emit("walls", None, {"walls": np.where(w)[0]}, None)

    def op_query(self, n):
        env, m = self.env, self.env.mdp
        k = int(self.rng.integers(8))
        fitted = self.fresh.get(n) and env.agents[n].pi is not None
        if k == 0:
            list(env.get_agent_position_history(n))
        elif k == 1:
            env.get_agent_q_values(n)
        elif k == 2 and fitted:
            env.get_agent_pi(n)
        elif k == 3 and fitted:
            env.get_agent_pi_p(n)
        elif k == 4 and hasattr(m, "features_as_grid"):
            m.features_as_grid(); m.flat_to_grid(np.arange(m.n_states)); m.state_to_idx(0)
        elif k == 5:
            m.state_valid_actions(env.agents[n].position); m.is_adjacent(0, 0)
        elif k == 6 and self.spec["mdp"]["kind"] == "hex":
            from maMDP.env_io import hex_env_to_dict
            if all(a["alg"] == "vi" for a in self.spec["agents"]):
                hex_env_to_dict(env)
        elif k == 7 and self.spec["mdp"]["kind"] in gen.GRID and gen.coin(self.rng, 0.1) and m.n_states <= 12:
            import matplotlib.pyplot as plt
            m.plot(); plt.close("all")
        self.emit("query", n, {"kind": k}, None)

    OPS = {"fit": 2, "step": 6, "step_multi": 2, "interactive": 1.5, "proba": 1, "place": 2, "reset": 0.7, "walls": 0.7, "query": 0.7}

    def run(self, n_ops, ops=None):
        ops = dict(self.OPS if ops is None else ops)
        if self.spec["mdp"]["kind"] == "stoch":
            ops.pop("walls", None)
        names, w = list(ops), np.array([ops[k] for k in ops], float)
        w /= w.sum()
        for _ in range(n_ops):
            op = names[int(self.rng.choice(len(names), p=w))]
            n = gen.pick(self.rng, self.names)
            if op in ("fit", "step", "step_multi") and not self.plannable(n):
                continue
            if op == "interactive" and not all(self.plannable(x) for x in self.names):
                continue
            if op == "interactive":
                self.op_interactive()
            elif op == "reset":
                self.op_reset_checked()
            elif op == "walls":
                self.op_walls()
            else:
                getattr(self, "op_" + op)(n)

    def op_reset_checked(self):
        self.op_reset()


# -- what one or several steps should do to the map ------------------------------------------------------------------

def expected_after_steps(ev):
    """features and consumed counts after ev.steps, by the documented rules"""
    d = ev.driver
    f = ev.pre.features.copy()
    cons = {n: c.copy() for n, c in ev.pre.consumed.items()}
    idx = {x: d.nf + j for j, x in enumerate(d.names)}
    for n, s in ev.steps:
        f[idx[n]] = 0
        f[idx[n], s] = 1
        for c in ev.pre.eats[n]:
            if f[c, s] > 0:
                f[c, s] = 0
                cons[n][c] += 1
    return f, cons


STEP_OPS = ("step", "step_multi", "interactive")
