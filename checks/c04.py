"""C04: sampled transitions follow the declared transition probabilities."""
import numpy as np
from vlib import gen, ref

CASES = {"quick": 260, "thorough": 2500}
REQUIRE = ["deterministic_moves", "stochastic_draws", "refused_impossible", "goodness_of_fit_tests", "seeded_mdps", "unseeded_mdps", "stepped_draws", "rare_transitions_tested", "very_rare_transitions_tested", "draws_after_wall_edits"]
RULE = ("case = one MDP (grid with walls, custom deterministic, custom non-deterministic with even and very uneven rows) and all or "
        "sampled (state, action) pairs; non-deterministic pairs are drawn 1500 times and tested for goodness of fit, also through "
        "agents stepping in an environment; distinct = distinct (MDP, state, action) with a possible transition")


def warmup(ctx):
    gen.GRID["hex"](features=np.zeros((1, 4)), shape=(2, 2))


def case(ctx, i):
    rng = ctx.rng
    spec = gen.mdp_spec(rng, kinds=("square", "hex", "det", "stoch", "stoch", "stoch"), max_cells=40)
    if spec["kind"] == "stoch":
        ctx.n("seeded_mdps" if spec["seed"] is not None else "unseeded_mdps")
    m = gen.build_mdp(spec)
    sas = gen.spec_sas(spec)
    S, A, _ = sas.shape
    ctx.desc = gen.describe(spec)
    pairs = [(s, a) for s in range(S) for a in range(A)]
    rng.shuffle(pairs)
    stoch = spec["kind"] == "stoch"
    done = 0
    for s, a in pairs[:400 if not stoch else 40]:
        s, a = int(s), int(a)
        row = sas[s, a]
        if not (row > 0).any():
            try:
                r = m.get_next_state(s, a)
            except (ValueError, IndexError):
                ctx.n("refused_impossible")
            else:
                ctx.fail("impossible action led somewhere", state=s, action=a, result=r)
            continue
        if ((row > 0) & (row < 1)).any():
            if done >= 4:
                continue
            done += 1
            k = 1500
            counts = np.zeros(S)
            for _ in range(k):
                t = int(m.get_next_state(s, a))
                ctx.check(0 <= t < S and row[t] > 0, "drew a state with zero probability", state=s, action=a, got=t)
                counts[t] += 1
            ctx.n("stochastic_draws", k)
            ctx.n("goodness_of_fit_tests")
            ctx.check(ref.chi2_ok(counts, row), "drawn frequencies do not match the declared probabilities", state=s, action=a,
                      counts=counts, p=row)
            ctx.sig(ctx.desc, s, a)
        else:
            t = int(m.get_next_state(s, a))
            ctx.check(t == int(np.argmax(row)), "deterministic move led to another state", state=s, action=a, got=t, want=int(np.argmax(row)))
            ctx.n("deterministic_moves")
            if stoch or done < 30:
                ctx.sig(ctx.desc, s, a); done += 0 if stoch else 1
    # the same frequencies when an agent is stepped repeatedly from one state
    if stoch:
        from maMDP.environments import Environment
        ag = dict(name="x", n_moves=1, alg="table", alg_kwargs={"table_seed": int(rng.integers(100)), "levels": 50}, selector=("max", {"seed": 1}))
        free = gen.movable(sas)
        s = int(gen.pick(rng, free))
        env = Environment(m, {gen.build_agent(ag): (s, np.zeros(spec["features"].shape[0] + 1), [])})
        env.fit("x")
        p = ref.max_policy_row(env.get_agent_q_values("x")[s]) @ sas[s]
        counts = np.zeros(S)
        for _ in range(400):
            env.set_agent_position("x", s)
            counts[env.step("x")] += 1
        ctx.n("stepped_draws", 400)
        ctx.check(ref.chi2_ok(counts, p), "frequencies of stepped-to states do not match", state=s, counts=counts, p=p)
        rare(ctx, rng)
        walled(ctx, rng, m, sas)
    if i == 7 or i % 500 == 7:
        rare(ctx, rng, float(gen.pick(rng, [3e-5, 5e-5])))
        ctx.n("very_rare_transitions_tested")
    ctx.sample(desc=ctx.desc, pairs=len(pairs))


def walled(ctx, rng, m, base):
    """the same after the walls have been edited (rows that walls cut into no longer sum to 1: drawing from those may be refused)"""
    S, A, _ = base.shape
    for w in (gen.walls(rng, S, 0.3), np.zeros(S)):
        m.walls = w
        sas = ref.walled(base, w)
        for _ in range(3):
            s, a = int(rng.integers(S)), int(rng.integers(A))
            row = sas[s, a]
            whole = abs(row.sum() - 1) < 1e-9
            counts = np.zeros(S)
            for _ in range(300 if whole else 40):
                try:
                    t = int(m.get_next_state(s, a))
                except (ValueError, IndexError):
                    ctx.check(not whole, "a possible action was refused", state=s, action=a, p=row)
                    break
                ctx.check(0 <= t < S and row[t] > 0, "drew a state with zero probability", state=s, action=a, got=t, walls=w)
                counts[t] += 1
            if whole:
                ctx.check(ref.chi2_ok(counts, row), "drawn frequencies do not match the declared probabilities", state=s, action=a, counts=counts, p=row)
            ctx.n("draws_after_wall_edits", int(counts.sum()))


def rare(ctx, rng, p=None):
    """rare transitions happen too: one with a probability of 0.2-1 % drawn often enough to be seen for sure"""
    from maMDP.mdp import MDP
    S = int(rng.integers(2, 7))
    p = p or float(gen.pick(rng, [0.002, 0.004, 0.009]))
    row = np.zeros(S)
    t = rng.choice(S, 2, replace=False)
    row[t[0]], row[t[1]] = p, 1 - p
    if S > 3 and gen.coin(rng, 0.5):
        u = int(gen.pick(rng, [x for x in range(S) if x not in t]))
        row[u], row[t[1]] = 0.3, 0.7 - p
    A = int(rng.integers(1, 4))
    sas = np.zeros((S, A, S))
    sas[:, :, 0] = 1
    a = int(rng.integers(A))
    sas[0, a] = row
    m = MDP(np.zeros((1, S)), sas.copy(), seed=gen.seed(rng))
    k = int(28 / p)
    counts = np.zeros(S)
    for _ in range(k):
        counts[int(m.get_next_state(0, a))] += 1
    ctx.check(not counts[row == 0].any(), "drew a state with zero probability", counts=counts, p=row)
    ctx.check(ref.chi2_ok(counts, row) and counts[t[0]] > 0, "a rare transition does not occur at its declared frequency", counts=counts, p=row)
    ctx.n("rare_transitions_tested"); ctx.n("stochastic_draws", k)
