"""C16: tree search values are exactly the sums of simulated returns."""
import numpy as np
from vlib import gen, search
from vlib.search import warmup

CASES = {"quick": 700, "thorough": 7000}
REQUIRE = ["searches", "trajectories", "values_checked", "caught_trajectories", "eaten_opponents", "consuming_searchers", "revisiting_trajectories",
           "repeat_searches", "marker_rewards"]
RULE = ("case = up to three searches of one agent (interactive or not; consuming features; predators and prey) in a world that changes in "
        "between; the returns of all recorded trajectories are recomputed and summed per state; distinct = distinct recorded trajectories")


def judge(ctx, s):
    V, N = np.zeros(len(s.V)), np.zeros(len(s.N))
    scale = 1.0
    for k, t in enumerate(s.visited):
        r = s.replay(k)
        if r["missing"] is not None or any(r["left"].values()):
            ctx.n("irregular_trajectories")
            return        # a matter of C15
        for x in t:
            V[x] += r["value"]
            N[x] += 1
        scale = max(scale, abs(r["value"]))
        if r["caught"]:
            ctx.n("caught_trajectories")
        ctx.n("eaten_opponents", len([x for x in r["eaten"] if x != s.me]))
        if len(set(t)) < len(t):
            ctx.n("revisiting_trajectories")
    ctx.check(np.array_equal(N, s.N), "visit counts differ from the recorded trajectories", want=N, got=s.N)
    tol = 1e-9 * scale * max(1, len(s.visited)) * 10
    bad = np.abs(V - s.V) > tol
    ctx.check(not bad.any(), "state values are not the sums of returns", states=np.where(bad)[0], want=V[bad], got=s.V[bad], plan=s.plan, start=s.pos,
              visited=s.visited[:3], others=s.others[:3])
    ctx.n("values_checked", int((N > 0).sum()))
    me = s.by[s.me]
    if me["consumes"]:
        ctx.n("consuming_searchers")
    if any(me["reward"][s.row[n]] for n in s.names):
        ctx.n("marker_rewards")
    s.count = getattr(s, "count", 0) + 1
    if s.count > 1:
        ctx.n("repeat_searches")


def case(ctx, i):
    search.case(ctx, i, judge, style=[None, "dense", "float", "binary"][i % 4])
