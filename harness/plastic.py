"""Plastic-analysis oracles, written from limit analysis and mechanics.

* mesh: the documented internal mesh (elements of about mesh_size per span);
* capacity / statics: bending moments at the mesh nodes in equilibrium with the loads;
* collapse load: linear programme of the lower-bound theorem (largest factor with a
  statically admissible moment field inside the capacities);
* mechanism: kinematic test of a set of hinges (rigid links between hinges);
* elastic moments: harness/refbeam.py with every load lumped to the nodes.
"""
from __future__ import annotations

import numpy as np
from scipy.optimize import linprog

from . import refbeam as rb


def mesh(L, size):
    x, span = [0.0], []
    for i, l in enumerate(L):
        ne = max(1, round(l / size))
        x0 = x[-1]
        for j in range(ne):
            x.append(x0 + (j + 1) * l / ne)
            span.append(i)
    return np.array(x), span  # node coordinates, span of each element


def per_span(v, n):
    return [float(v)] * n if not isinstance(v, (list, tuple)) else [float(a) for a in v]


def capacities(x, span, cap):
    """Capacity at each node: the weaker of the adjoining spans."""
    n = len(x)
    out = np.empty(n)
    for j in range(n):
        near = {span[j - 1] if j else span[0], span[j] if j < n - 1 else span[-1]}
        out[j] = min(cap[s] for s in near)
    return out


def point(x, f, P, xp):
    """Lump a point load into nodal forces and moments (Hermite consistent)."""
    j = int(np.argmin(np.abs(x - xp)))
    if abs(x[j] - xp) < 1e-9:
        f[2 * j] -= P
        return 0.0
    j = int(np.searchsorted(x, xp)) - 1
    h = x[j + 1] - x[j]
    t = (xp - x[j]) / h
    f[2 * j] -= P * (1 - 3 * t**2 + 2 * t**3)
    f[2 * j + 1] -= P * h * (t - 2 * t**2 + t**3)
    f[2 * j + 2] -= P * (3 * t**2 - 2 * t**3)
    f[2 * j + 3] -= P * h * (t**3 - t**2)
    return h


def nodal(case, LM=None):
    """Nodal force vector of the load matrix, UDL lumped to the nodes."""
    x, span = mesh(case["L"], case["mesh"])
    X = np.concatenate([[0.0], np.cumsum(case["L"])])
    f = np.zeros(2 * len(x))
    for row in case["LM"] if LM is None else LM:
        i = row[0] - 1
        if row[1] == 1:
            for e, s in enumerate(span):
                if s == i:
                    h = x[e + 1] - x[e]
                    f[2 * e] -= row[2] * h / 2
                    f[2 * e + 2] -= row[2] * h / 2
        else:
            point(x, f, row[2], X[i] + row[3])
    return f


def bc(case):
    x, span = mesh(case["L"], case["mesh"])
    X = np.concatenate([[0.0], np.cumsum(case["L"])])
    fixed, spring = set(), {}
    for i, r in enumerate(case["R"]):
        j = int(np.argmin(np.abs(x - X[i // 2])))
        if r < 0:
            fixed.add(2 * j + i % 2)
        elif r > 0:
            spring[2 * j + i % 2] = r
    return fixed, spring


def elastic(case, f):
    """Nodal displacements, moments (left / right of each node) for nodal loads f."""
    x, span = mesh(case["L"], case["mesh"])
    n = len(x)
    K = np.zeros((2 * n, 2 * n))
    EI = per_span(case["EI"], len(case["L"]))
    for e, s in enumerate(span):
        # flexibility route: rotations from end moments of a simply supported element
        h = x[e + 1] - x[e]
        F = h / (6 * EI[s]) * np.array([[2.0, -1.0], [-1.0, 2.0]])
        A = np.array([[1 / h, 1.0, -1 / h, 0.0], [1 / h, 0.0, -1 / h, 1.0]])
        K[2 * e : 2 * e + 4, 2 * e : 2 * e + 4] += A.T @ np.linalg.inv(F) @ A
    fixed, spring = bc(case)
    for d, k in spring.items():
        K[d, d] += k
    free = [i for i in range(2 * n) if i not in fixed]
    u = np.zeros(2 * n)
    u[free] = np.linalg.solve(K[np.ix_(free, free)], f[free])
    ML, MR = np.zeros(n), np.zeros(n)
    for e, s in enumerate(span):
        h = x[e + 1] - x[e]
        a = (u[2 * e + 2] - u[2 * e]) / h
        t1, t2 = u[2 * e + 1] - a, u[2 * e + 3] - a
        MR[e] = -EI[s] / h * (4 * t1 + 2 * t2)
        ML[e + 1] = EI[s] / h * (2 * t1 + 4 * t2)
    ML[0], MR[-1] = MR[0], ML[-1]
    return u, ML, MR


def statics(case):
    """Rows A (per free vertical DOF) with A m = lam * p for node moments m."""
    x, span = mesh(case["L"], case["mesh"])
    fixed, spring = bc(case)
    n = len(x)
    rows, dofs = [], []
    for j in range(n):
        if 2 * j in fixed or 2 * j in spring:
            continue
        r = np.zeros(n)
        if j > 0:
            h = x[j] - x[j - 1]
            r[j] += 1 / h
            r[j - 1] -= 1 / h
        if j < n - 1:
            h = x[j + 1] - x[j]
            r[j] += 1 / h
            r[j + 1] -= 1 / h
        rows.append(r)  # shear to the left minus shear to the right = load down
        dofs.append(2 * j)
    ends = [j for j in (0, n - 1) if 2 * j + 1 not in fixed and 2 * j + 1 not in spring]
    return np.array(rows).reshape(-1, n), dofs, ends


def limit(case, f=None, Mp=None):
    """Largest factor of the nodal vertical loads by the lower-bound theorem."""
    x, span = mesh(case["L"], case["mesh"])
    n = len(x)
    f = nodal(case) if f is None else f
    cap = capacities(x, span, per_span(case["Mp"] if Mp is None else Mp, len(case["L"])))
    A, dofs, ends = statics(case)
    s = float(np.mean(cap))
    p = -f[dofs]
    q = np.max(np.abs(p)) or 1.0
    # unknowns m/s, t = lam*q/s
    M = np.hstack([A, -p[:, None] / q])
    E = np.zeros((len(ends), n + 1))
    for k, j in enumerate(ends):
        E[k, j] = 1
    c = np.zeros(n + 1)
    c[-1] = -1
    Aeq = np.vstack([M, E])
    res = linprog(c, A_eq=Aeq, b_eq=np.zeros(len(Aeq)), bounds=[(-v / s, v / s) for v in cap] + [(0, None)], method="highs")
    if res.status == 3:
        return np.inf
    if res.status != 0:
        return None
    return res.x[-1] * s / q


def shakedown(case, M_el, Mp=None):
    """Largest factor for which some residual moment field keeps every elastic
    moment of the history M_el (states x nodes) inside the capacity (Melan)."""
    x, span = mesh(case["L"], case["mesh"])
    n = len(x)
    cap = capacities(x, span, per_span(case["Mp"] if Mp is None else Mp, len(case["L"])))
    A, dofs, ends = statics(case)
    hi, lo = M_el.max(axis=0), M_el.min(axis=0)
    E = np.zeros((len(ends), n + 1))
    for k, j in enumerate(ends):
        E[k, j] = 1
    Aeq = np.vstack([np.hstack([A, np.zeros((len(A), 1))]), E])
    I = np.eye(n)
    s = float(np.mean(cap))
    q = max(np.abs(hi).max(), np.abs(lo).max()) or 1.0
    Aub = np.vstack([np.hstack([I, hi[:, None] / q]), np.hstack([-I, -lo[:, None] / q])])
    bub = np.concatenate([cap, cap]) / s
    c = np.zeros(n + 1)
    c[-1] = -1
    res = linprog(c, A_ub=Aub, b_ub=bub, A_eq=Aeq, b_eq=np.zeros(len(Aeq)), bounds=[(None, None)] * n + [(0, None)], method="highs")
    if res.status == 3:
        return np.inf
    if res.status != 0:
        return None
    return res.x[-1] * s / q


def is_mechanism(case, hinges):
    """Can the beam move with rotations only at the given coordinates?"""
    L = float(sum(case["L"]))
    X = np.concatenate([[0.0], np.cumsum(case["L"])])
    h = sorted(set(round(float(v), 9) for v in hinges))
    pts = sorted({0.0, round(L, 9), *h})
    n = len(pts)
    rows = []

    def at(x):  # interpolation row for the deflection at x
        r = np.zeros(n)
        k = min(max(int(np.searchsorted(pts, x)) - 1, 0), n - 2)
        while k < n - 2 and x > pts[k + 1] + 1e-9:
            k += 1
        t = (x - pts[k]) / (pts[k + 1] - pts[k])
        r[k] += 1 - t
        r[k + 1] += t
        return r

    def slope(k):
        r = np.zeros(n)
        r[k], r[k + 1] = -1 / (pts[k + 1] - pts[k]), 1 / (pts[k + 1] - pts[k])
        return r

    for i, r in enumerate(case["R"]):
        if r == 0:
            continue
        xs = X[i // 2]
        if i % 2 == 0:
            rows.append(at(min(xs, L)))
        else:
            near = [k for k in range(n - 1) if pts[k] - 1e-9 <= xs <= pts[k + 1] + 1e-9]
            if any(abs(xs - v) < 1e-6 for v in h):
                # the hinge lies between the clamp and one side only when interior;
                # at an outer end it frees the whole beam
                if 1e-6 < xs < L - 1e-6:
                    rows.append(slope(near[-1]))
                continue
            for k in near:
                rows.append(slope(k))
    if not rows:
        return True
    A = np.array(rows)
    return bool(np.linalg.matrix_rank(A, tol=1e-9) < n)


def clusters(hinges, tol):
    out = []
    for v in sorted(hinges):
        if out and v - out[-1][-1] <= tol + 1e-9:
            out[-1].append(v)
        else:
            out.append([v])
    return out
