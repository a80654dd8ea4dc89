"""Independent reference computations (oracles). Nothing here uses the code under test."""
import numpy as np

SQUARE_DIRS = [(0, 1), (1, 0), (0, -1), (-1, 0)]
# hexagons in doubled plot coordinates (column, 2 * row + shift); even columns are shifted up by half a cell
HEX_DIRS = [(0, 2), (1, 1), (1, -1), (0, -2), (-1, -1), (-1, 1)]


def cell(kind, x, y):
    return (x, y) if kind == "square" else (x, 2 * y + (1 if x % 2 == 0 else 0))


def move_table(kind, shape, stay):
    """next[s, a] = state reached (or -1) by geometry alone; ids run row-major over (x, y)"""
    w, h = shape
    dirs = SQUARE_DIRS if kind == "square" else HEX_DIRS
    at = {cell(kind, x, y): x * h + y for x in range(w) for y in range(h)}
    nxt = -np.ones((w * h, len(dirs) + int(stay)), dtype=int)
    for (cx, cy), s in at.items():
        for a, (dx, dy) in enumerate(dirs):
            nxt[s, a] = at.get((cx + dx, cy + dy), -1)
        if stay:
            nxt[s, -1] = s
    return nxt


def table_to_sas(nxt):
    S, A = nxt.shape
    sas = np.zeros((S, A, S))
    s, a = np.where(nxt >= 0)
    sas[s, a, nxt[s, a]] = 1
    return sas


def walled(sas, walls):
    out = sas.copy()
    m = np.asarray(walls) == 1
    out[m] = 0
    out[:, :, m] = 0
    return out


def hex_distance(a, b):
    """shortest path length between two hex cells given as (column, row), any integers"""
    (x1, z1), (x2, z2) = cell("hex", *a), cell("hex", *b)
    dx, dz = abs(x1 - x2), abs(z1 - z2)
    return dx + max(0, (dz - dx) // 2)


def valid_mask(sas):
    return (sas > 0).any(axis=2)


def bellman_q(sas, r, gamma, V):
    return sas @ (r + gamma * V)


def optimal(sas, r, gamma):
    """optimal values and action values by policy iteration; impossible actions -inf, dead states 0"""
    S, A, _ = sas.shape
    ok = valid_mask(sas)
    alive = ok.any(axis=1)
    V = np.zeros(S)
    if not alive.any():
        return V, np.full((S, A), -np.inf)
    pi = np.argmax(ok, axis=1)
    for _ in range(10000):
        P = sas[np.arange(S), pi]
        P = np.where(alive[:, None], P, 0)
        V = np.linalg.solve(np.eye(S) - gamma * P, P @ r)
        Q = np.where(ok, bellman_q(sas, r, gamma, V), -np.inf)
        best = Q.max(axis=1)
        cur = Q[np.arange(S), pi]
        better = alive & (best > cur + 1e-11 * (1 + np.abs(best)))
        if not better.any():
            break
        pi = np.where(better, Q.argmax(axis=1), pi)
    return V, Q


def lse(Q):
    m = Q.max(axis=1, keepdims=True)
    m = np.where(np.isfinite(m), m, 0)
    with np.errstate(divide="ignore"):
        return (m + np.log(np.exp(Q - m).sum(axis=1, keepdims=True)))[:, 0]


def soft_backup(sas, r, gamma, V):
    ok = valid_mask(sas)
    Q = np.where(ok, bellman_q(sas, r, gamma, V), -np.inf)
    return np.where(ok.any(axis=1), lse(Q), 0.0), Q


def soft_fixed_point(sas, r, gamma, eps=1e-13, n=20000):
    V = np.zeros(sas.shape[0])
    for _ in range(n):
        V2, Q = soft_backup(sas, r, gamma, V)
        d = np.abs(V2 - V).max()
        V = V2
        if d < eps * (1 + np.abs(V).max()):
            break
    return V, soft_backup(sas, r, gamma, V)[1]


def max_policy_row(q):
    q = np.where(np.isnan(q), -np.inf, q)
    m = q == q.max()
    return m / m.sum()


def softmax_row(q, temperature):
    q = np.where(np.isnan(q), -np.inf, np.asarray(q, dtype=np.longdouble))
    m = q.max()
    if m == -np.inf:
        return np.ones(len(q)) / len(q)
    e = np.exp((q - m) / np.longdouble(temperature))
    return (e / e.sum()).astype(float)


def policy_row(selector, q):
    """selector: ('max',) or ('softmax', temperature)"""
    return max_policy_row(q) if selector[0] == "max" else softmax_row(q, selector[1])


def spread_plan(current_move, n_turns, n_moves, total):
    """moves per planned turn"""
    out = []
    left = total
    for t in range(n_turns):
        room = n_moves - current_move if t == 0 else n_moves
        k = max(0, min(room, left))
        out.append(k)
        left -= k
    return out


def next_of(sas, s):
    """states reachable in one move"""
    return np.where((sas[s] > 0).any(axis=0))[0]


def chi2_ok(counts, p, alpha=1e-11):
    """goodness of fit of counts against p (False = reject at a vanishing level); zero-probability cells must be empty"""
    from scipy.stats import chi2
    counts, p = np.asarray(counts, float), np.asarray(p, float)
    n = counts.sum()
    if counts[p <= 0].sum() > 0:
        return False
    keep = p > 0
    c, e = counts[keep], p[keep] / p[keep].sum() * n
    order = np.argsort(e)
    c, e = c[order], e[order]
    # pool the smallest cells so that the approximation is conservative
    cc, ee, accc, acce = [], [], 0.0, 0.0
    for ci, ei in zip(c, e):
        accc += ci; acce += ei
        if acce >= 20:
            cc.append(accc); ee.append(acce); accc = acce = 0.0
    if acce > 0:
        if cc:
            cc[-1] += accc; ee[-1] += acce
        else:
            cc, ee = [accc], [acce]
    if len(cc) < 2:
        return True
    cc, ee = np.array(cc), np.array(ee)
    x = ((cc - ee) ** 2 / ee).sum()
    return chi2.sf(x, len(cc) - 1) > alpha
