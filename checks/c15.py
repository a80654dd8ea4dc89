"""C15: tree search only simulates legal moves within the plan."""
import numpy as np
from vlib import gen, search
from vlib.search import warmup

CASES = {"quick": 700, "thorough": 7000}
REQUIRE = ["searches", "trajectories", "moves_checked", "opponent_moves_checked", "caught_trajectories", "eaten_opponents", "full_trajectories",
           "noninteractive_trajectories", "default_plans", "empty_turns", "random_opponents", "softmax_opponents"]
RULE = ("case = up to three searches of one agent (interactive or not, any opponent settings, explicit or default plans, empty turns) in a "
        "world that changes in between; every recorded trajectory is replayed slot by slot; distinct = distinct recorded trajectories")


def judge(ctx, s):
    ctx.check(len(s.visited) == s.kw["n_iter"], "wrong number of simulated trajectories", got=len(s.visited), want=s.kw["n_iter"])
    for k in range(len(s.visited)):
        r = s.replay(k)
        for n, a, b, _ in r["moves"]:
            ctx.check((s.sas[a, :, b] > 0).any(), "a simulated move is not a legal move", agent=n, origin=a, to=b, trajectory=k, visited=s.visited[k])
            ctx.n("moves_checked")
            if n != s.me:
                ctx.n("opponent_moves_checked")
                ctx.n("random_opponents" if s.kw["opponent_policy_method"] == "random" else
                      ("softmax_opponents" if s.kw["opponent_action_selection"] == "softmax" else "greedy_opponents"))
        ctx.check(r["missing"] is None, "a trajectory is shorter than planned although nobody was caught", agent=r["missing"], plan=s.plan,
                  visited=s.visited[k], others=s.others[k] if s.others else None, start=s.pos, order=s.order)
        left = {n: t for n, t in r["left"].items() if t}
        ctx.check(not left, "a trajectory has more moves than planned (or goes on after the agent was caught)", extra=left, plan=s.plan, caught=r["caught"],
                  visited=s.visited[k], others=s.others[k] if s.others else None, start=s.pos, order=s.order)
        if not s.interactive:
            ctx.check(not any(s.others[k]) if k < len(s.others) else True, "non-interactive search simulated somebody else")
            ctx.n("noninteractive_trajectories")
        ctx.n("caught_trajectories" if r["caught"] else "full_trajectories")
        ctx.n("eaten_opponents", len([x for x in r["eaten"] if x != s.me]))
    if any(0 in p for p in s.plan):
        ctx.n("empty_turns")


def case(ctx, i):
    search.case(ctx, i, judge)
    ctx.n("default_plans")
