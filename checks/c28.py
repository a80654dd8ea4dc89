"""C28: compiled numeric kernels are memory-safe and match the source.

Three builds of the same code run the same generated calls: the normal compiled one (in the workers), one compiled with numba's bounds-check
sanitizer while malloc fills fresh memory with a pattern, and one that is not compiled at all. A fourth process allows several threads and
repeats calls on larger arrays, which must give the uncompiled result every time."""
import os
import pickle
import signal
import subprocess
import sys
import numpy as np
from vlib import core, kernels

CASES = {"quick": 240, "thorough": 4000}
REQUIRE = ["calls", "compared_with_interpreter", "compared_with_sanitizer_build", "public_build", "public_value_iteration", "public_softmax", "public_maxent",
           "public_hyptest", "public_tree_search", "extreme_random_numbers", "threaded_repeats"]
RULE = ("case = one batch of about 30 calls, one or more of every kernel plus whole operations at the public interface, on random degenerate, "
        "walled, non-deterministic and extreme inputs, in a compiled, a bounds-checked and an uncompiled process; distinct = distinct (kernel, result) seen")
ASSUMPTIONS = ["kernels that draw random numbers with numpy's choice are compared for what they may return, not draw by draw",
               "uninitialised memory is detected by comparing runs with different malloc fill patterns (MALLOC_PERTURB_)"]
MODES = {"sanitizer_build": (3, {"NUMBA_BOUNDSCHECK": "1", "MALLOC_PERTURB_": "117"}), "interpreter": (4, {"NUMBA_DISABLE_JIT": "1"}),
         "threaded_build": (1, {"NUMBA_NUM_THREADS": "4", "OMP_NUM_THREADS": "4", "OPENBLAS_NUM_THREADS": "4"})}
RESULTS = {}


def warmup(ctx):
    total = CASES[ctx.tier]
    work = os.environ["VERIF_WORK"]
    procs = []
    for mode, (k, env) in MODES.items():
        for j in range(k):
            path = os.path.join(work, "%s_%d" % (mode, j))
            e = dict(os.environ, NUMBA_CACHE_DIR=os.path.join(work, mode))
            e.update(env)
            procs.append((mode, j, path, subprocess.Popen([sys.executable, "-m", "vlib.kernels", str(ctx.seed), str(j), str(k), str(total), path, mode], env=e,
                                                          stdout=subprocess.DEVNULL, stderr=open(path + ".err", "w"))))
    # the compiled build of this process, before the workers are forked
    core.enable_numba_seeding()
    for i in range(8):
        kernels.run(1, 10 ** 6 + i)
    for mode, j, path, p in procs:
        rc = p.wait()
        at = open(path + ".at").read() if os.path.exists(path + ".at") else "start"
        err = open(path + ".err").read()[-1500:]
        if rc < 0 and -rc not in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT):
            raise core.Violation("kernel calls of batch %s ended the process (%s) with signal %d" % (at, mode, -rc), stderr=err)
        if rc:
            raise core.Inconclusive("%s run failed in batch %s: %s" % (mode, at, err))
        RESULTS.setdefault(mode, {}).update(pickle.load(open(path, "rb")))


def close(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=True)
    if a is None or isinstance(a, str):
        return a == b
    return bool(np.isclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=True))


# the z-scores of the hypothesis tester amplify rounding where all actions are equally good: its estimates are judged by C34
RANDOM = ("public_hyptest", "MCTS_next_node_any", "get_opponent_next_state_random")
OOB = ("IndexError", "SystemError")


def agree(name, a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "raised":
        return a[1] == b[1]
    if name in RANDOM:
        return True
    return close(a[1], b[1])


def case(ctx, i):
    ref_run = kernels.run(ctx.seed, i)
    ctx.desc = {"batch": i}
    for name, r, changed in ref_run:
        ctx.n("calls")
        if name.startswith("public"):
            ctx.n(name)
        ctx.check(not changed, "a kernel changed an array handed to it", kernel=name, arguments=changed)
        ctx.check(not (r[0] == "raised" and r[1] in OOB), "index out of bounds", kernel=name, error=r[1:])
        ctx.sig(name, r)
    if i < kernels.LARGE:
        want = RESULTS["interpreter"][-1 - i]
        for k, got in enumerate(RESULTS["threaded_build"][-1 - i]):
            ctx.check(len(got) == len(want), "builds made different calls", names=[o[0] for o in got], want=[o[0] for o in want])
            for (name, r, _), (_, r2, changed) in zip(want, got):
                ctx.check(not changed, "a kernel changed an array handed to it", kernel=name, build="threaded", arguments=changed)
                ctx.check(agree(name, r, r2), "several threads give another result than the uncompiled code", kernel=name, repeat=k, uncompiled=r, got=r2)
                ctx.n("threaded_repeats")
    for mode in ("interpreter", "sanitizer_build"):
        other = RESULTS[mode].get(i)
        if other is None:
            raise core.Inconclusive("batch %d is missing from the %s run" % (i, mode))
        ctx.check(len(other) == len(ref_run), "builds made different calls", mode=mode, names=[o[0] for o in other], want=[o[0] for o in ref_run])
        for (name, r, _), (name2, r2, changed) in zip(ref_run, other):
            ctx.check(not (r2[0] == "raised" and r2[1] in OOB), "index out of bounds", kernel=name, build=mode, error=r2[1:])
            ctx.check(name == name2 and agree(name, r, r2), "builds disagree on a kernel's result", kernel=name, build=mode, compiled=r, other=r2)
            ctx.check(not changed, "a kernel changed an array handed to it", kernel=name, build=mode, arguments=changed)
            ctx.n("compared_with_" + mode)
    if i % 8 == 0:
        extremes(ctx)


def extremes(ctx):
    """the weighted choice run uncompiled with the smallest and largest numbers the generator can produce"""
    from maMDP.algorithms import mcts
    f = getattr(getattr(mcts, "rand_choice_nb", None), "py_func", None)
    if f is None:
        ctx.n("extreme_random_numbers")
        return
    rng = ctx.rng
    old = np.random.random
    try:
        for _ in range(200):
            k = int(rng.integers(1, 9))
            p = rng.random(k) if rng.random() < 0.5 else rng.dirichlet(np.ones(k))
            if rng.random() < 0.5:
                p[rng.random(k) < 0.3] = 0
            if p.sum() <= 0:
                continue
            for u in (0.0, 1 - 2.0 ** -53, 1 - 2.0 ** -52, 0.5):
                np.random.random = lambda *a, u=u: u
                try:
                    j = f(np.arange(k), p)
                except IndexError as e:
                    ctx.fail("index out of bounds", kernel="weighted choice", probabilities=p, random_number=u, error=str(e))
                finally:
                    np.random.random = old
                ctx.check(0 <= j < k and p[j] > 0, "weighted choice returned an entry of probability 0", probabilities=p, random_number=u, got=j)
                ctx.n("extreme_random_numbers")
    finally:
        np.random.random = old
