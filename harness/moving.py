"""Moving-load vocabulary: vehicles, positions, static counterparts of a position."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from . import gen
from .core import require

TOL = 1e-9


def nodes_of(case):
    return np.concatenate([[0.0], np.cumsum(np.asarray(case["L"], float))])


def locate(case, x):
    """(1-based span, local coordinate) or None off the deck."""
    n = nodes_of(case)
    if x < 0.0 or x > n[-1]:
        return None
    i = min(int(np.searchsorted(n, x, side="right")) - 1, len(case["L"]) - 1)
    return i + 1, min(x - n[i], case["L"][i])


def axle_coords(v):
    return np.concatenate([[0.0], np.cumsum(np.asarray(v["s"], float))])


def axles(v, pos):
    """[(global position, weight)] of a vehicle dict with its reference axle at pos."""
    c = axle_coords(v)
    if v.get("rev"):
        c = c[-1] - c
    out = [(pos - a, w) for a, w in zip(c, v["w"])]
    return out[::-1] if v.get("rev") else out  # leading axle first


def rows(case, ax):
    out = []
    for x, w in ax:
        at = locate(case, x)
        if at:
            out.append([at[0], 2, w, at[1]])
    return out


def ambiguous(case, ax):
    """An axle within round-off of a beam end may count as on or off the deck
    (unless it is the reference axle, put exactly there)."""
    T = nodes_of(case)[-1]
    for k, (x, _) in enumerate(ax):
        for e in (0.0, T):
            if abs(x - e) < TOL * T and not (k == 0 and x == e):
                return True
    return False


def vehicle(v):
    from pycba import Vehicle

    veh = Vehicle(np.array(v["s"], float), np.array(v["w"], float))
    if v.get("rev") == "copy":
        veh = veh.reverse(in_place=False)
    elif v.get("rev"):
        veh.reverse()
    return veh


@st.composite
def vehicles(draw, lo=1, hi=5, reverse=True):
    n = draw(st.integers(lo, hi))
    s = [draw(st.one_of(st.sampled_from([0.5, 1.2, 1.0, 2.0, 3.0, 0.0]), st.floats(0.3, 9.0).map(gen.r4))) for _ in range(n - 1)]
    w = [draw(st.one_of(st.integers(1, 200).map(float), st.floats(1.0, 150.0).map(gen.r4))) for _ in range(n)]
    v = {"s": s, "w": w}
    r = draw(st.sampled_from([None, None, True, "copy"])) if reverse else None
    if r:
        v["rev"] = r
    return v


def static(case, LM, npts=None):
    return gen.analysed(case, npts=npts, LM=LM)


def compare(case, res, ref, ax, what, rt=1e-9, found=False):
    """Results of one vehicle position against its static counterpart."""
    from checks.c03 import scales

    b, r = res, ref.beam_results
    f = lambda q: {"R": q.R, "Rs": q.Rs, "u": q.D, "V": q.results.V, "M": q.results.M, "rot": q.results.R, "defl": q.results.D}
    got, exp = f(b), f(r)
    require(b.results.x.shape == r.results.x.shape, f"{what}: number of stations")
    T = nodes_of(case)[-1]
    require(np.all(np.abs(b.results.x - r.results.x) <= 1e-9 * T), f"{what}: stations")
    sc = scales(case, exp, LM=[[1, 2, sum(w for _, w in ax), 0.0]])
    F = max(sc["V"], sum(w for _, w in ax))
    sc["V"] = sc["R"] = sc["Rs"] = F
    sc["R"] = sc["Rs"] = max(F, F * max(case["L"]))
    sc["M"] = max(sc["M"], F * max(case["L"]))
    keep = np.ones(len(r.results.x), bool)
    for x, _ in ax:
        keep &= np.abs(r.results.x - x) > 1e-8 * T
    for k in exp:
        a, e = np.asarray(got[k], float), np.asarray(exp[k], float)
        require(a.shape == e.shape, f"{what}: shape of {k}")
        if not a.size:
            continue
        err = np.abs(a - e)
        if k in ("rot", "defl") and case.get("GA") and not keep.all():
            continue  # the jump of shear strain under an axle, integrated either side
        if k == "V":
            err = np.where(keep, err, 0.0)
        i = int(np.argmax(err))
        require(np.all(np.isfinite(a)) and err[i] <= rt * sc[k],
                f"{what}: {k}[{i}] is {a[i]:.10g}, a static analysis of the same loads gives {e[i]:.10g}")
    return sc
