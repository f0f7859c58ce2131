"""C12: influence lines are the static responses to a unit load."""
import numpy as np
from hypothesis import strategies as st

from harness import cmp, gen
from harness import moving as mv
from harness.core import Check, Sub, require


def make(case):
    from pycba import InfluenceLines

    kw = gen.kwargs(dict(case, LM=[]))
    kw.pop("LM"), kw.pop("D")
    return InfluenceLines(**kw)


def refs(case, x, val):
    """Reference solutions for a unit load at x (both members at a shared node)."""
    n = mv.nodes_of(case)
    T = n[-1]
    if x > T * (1 + 1e-9):
        return []
    out = []
    for i, L in enumerate(case["L"]):
        s = x - n[i]
        if -1e-9 * T <= s <= L + 1e-9 * T:
            out.append(gen.solved_reference(case, [[i + 1, 2, val, min(max(s, 0.0), L)]], rc_min=1e-7))
    return out


def hull(case, rs, eff, poi, x):
    """Smallest and largest admissible ordinate for V/M at poi, load at x."""
    if not rs:
        return 0.0, 0.0
    n = mv.nodes_of(case)
    T = n[-1]
    lo, hi = np.inf, -np.inf
    for i, L in enumerate(case["L"]):
        s = poi - n[i]
        if not (-1e-9 * T <= s <= L + 1e-9 * T):
            continue
        h = L / 100
        k = s / h
        if abs(k - round(k)) < 1e-7:
            pts = [round(k) * h]
        else:  # any point between the neighbouring result stations
            pts = [np.floor(k) * h, s, np.ceil(k) * h]
            if pts[0] < x - n[i] < pts[2]:
                pts.append(x - n[i])
        pts = np.array([min(max(p, 0.0), L) for p in pts])
        for r in rs:
            snap = np.array([a for a, _ in r.m[i].pts] + [0.0, L])
            j = np.argmin(np.abs(pts[:, None] - snap[None, :]), axis=1)
            p = np.where(np.abs(pts - snap[j]) < 1e-7 * L, snap[j], pts)
            for side in (-1, 1):
                v = r.VM(i, p, side)["VM".index(eff)]
                lo, hi = min(lo, np.min(v)), max(hi, np.max(v))
    return lo, hi


def nearest(case, poi, off):
    """Fully fixed supports (dof numbers) nearest to the point, ties included."""
    n = mv.nodes_of(case)
    d = {2 * i + off: abs(n[i] - poi) for i in range(len(n)) if case["R"][2 * i + off] == -1}
    if not d:
        return []
    m = min(d.values())
    return [k for k, v in d.items() if v <= m + 1e-6 * n[-1]]


def ordinates(c, rec):
    case, val = c["beam"], c["val"]
    gen.solved_reference(case, [], rc_min=1e-7)
    T = float(np.sum(case["L"]))
    step = T / c["n"] if c["even"] else T / c["n"] * 0.83
    gen.classify(dict(case, LM=[]), rec)
    rec.mark()
    il = make(case)
    if c["pre"]:  # an earlier creation with another step leaves nothing behind
        il.create_ils(step=T / 7, load_val=3.0)
        rec.cls("re-created")
    il.create_ils(step=step, load_val=val)
    n = mv.nodes_of(case)
    N = round(T / step) + 1
    R = None
    pois = [p * T for p in c["pois"]] + [n[k % len(n)] for k in c["nodes"]]
    # on-station points
    pois += [n[i % len(case["L"])] + case["L"][i % len(case["L"])] * k / 100 for i, k in c["stations"]]
    solved = None
    for poi in pois:
        for eff in ("M", "V", "R", "MR"):
            sup = nearest(case, poi, 0 if eff == "R" else 1) if eff in ("R", "MR") else None
            if sup is not None and not sup:
                continue
            x, eta = il.get_il(poi, eff if c["upper"] else eff.lower())
            require(len(x) == N and len(eta) == N, f"influence line has {len(x)} points, expected {N}")
            require(np.all(np.abs(np.asarray(x) - step * np.arange(N)) <= 1e-9 * T), "load positions are not multiples of the step")
            if solved is None:
                solved = [refs(case, q, val) for q in x]
                ss = [cmp.scales(r) for rs in solved for r in rs]
                F, M = max(q[0] for q in ss), max(q[1] for q in ss)
                rt = max(1e-7, 1e-13 / min(r.rc for rs in solved for r in rs))
            for q, e, rs in zip(x, eta, solved):
                if abs(q - T) < 1e-9 * T and q != T:
                    rs = rs or refs(case, T, val)
                if eff in ("R", "MR"):
                    vals = [r.reac[d] for r in rs for d in sup] or [0.0]
                    lo, hi = min(vals), max(vals)
                    if len(sup) > 1:
                        ok = any(abs(e - v) <= rt * (F if eff == "R" else M) for v in vals)
                        require(ok, f"{eff} influence ordinate {e:.8g} with load at {q:.6g} matches no nearest support")
                        continue
                else:
                    lo, hi = hull(case, rs, eff, poi, q)
                t = rt * (F if eff in ("V", "R") else M)
                require(np.isfinite(e) and lo - t <= e <= hi + t,
                        f"{eff} influence ordinate at {poi:.8g} with load at {q:.8g} is {e:.10g}, static response {lo:.10g}"
                        + ("" if lo == hi else f" .. {hi:.10g}"))


def ordinates_st():
    return st.fixed_dictionaries({
        "beam": st.one_of(gen.beams(max_spans=4, settlements=False, types=(1,)),
                          gen.beams(max_spans=2, settlements=False, nonprismatic=True, types=(1,))),
        "n": st.integers(3, 16),
        "even": st.booleans(),
        "val": st.sampled_from([1.0, 1.0, 10.0, -2.0, 0.5]),
        "pre": st.sampled_from([0, 0, 1]),
        "upper": st.sampled_from([True, True, False]),
        "pois": st.lists(gen.frac(True), min_size=1, max_size=2),
        "nodes": st.lists(st.integers(0, 4), max_size=1),
        "stations": st.lists(st.tuples(st.integers(0, 3), st.integers(0, 100)), min_size=1, max_size=2),
    })


def usage(c, rec):
    """A set of loads gives the sum of the ordinates, straight from the default set-up."""
    case = c["beam"]
    gen.solved_reference(case, [], rc_min=1e-7)
    T = float(np.sum(case["L"]))
    n = mv.nodes_of(case)
    il = make(case)
    poi_s = [(n[i % len(case["L"])] + case["L"][i % len(case["L"])] * k / 100) for i, k in c["stations"]]
    rec.mark(len(c["loads"]) > 1)
    gen.classify(dict(case, LM=[]), rec)
    LM, idx = [], []
    for k, P in c["loads"]:
        x = T * k / 100
        if np.min(np.abs(n - x)) < 1e-6 * T:
            continue
        LM.append([*mv.locate(case, x)[:1], 2, P, mv.locate(case, x)[1]])
        idx.append((k, P))
    if not LM:
        return
    ba = gen.analysed(case, LM=LM)
    from checks.c03 import fields, scales

    sc = scales(case, fields(ba), LM=LM)
    rt = max(1e-7, 1e-13 / gen.solved_reference(case, rc_min=1e-7).rc)
    for poi in poi_s:
        if any(abs(T * k / 100 - poi) < 1e-6 * T for k, _ in idx):
            continue
        x, eta = il.get_il(poi, "M")  # created on demand, at a hundredth of the length
        require(len(x) == 101, f"default influence line has {len(x)} points")
        got = sum(P * eta[k] for k, P in idx)
        exp = ba.at(poi, ("M",))["M"]
        t = rt * sc["M"] + 1e-7 * sum(abs(P) for _, P in idx) * T
        require(abs(got - exp) <= t, f"sum of M ordinates at {poi:.8g} is {got:.10g}, the loads together give {exp:.10g}")
    for d in [i for i, r in enumerate(case["R"]) if r == -1]:
        poi = n[d // 2]
        x, eta = il.get_il(poi, "R" if d % 2 == 0 else "MR")
        got = sum(P * eta[k] for k, P in idx)
        j = [i for i, r in enumerate(case["R"]) if r == -1].index(d)
        exp = ba.beam_results.R[j]
        t = rt * sc["R"] + 1e-7 * sum(abs(P) for _, P in idx) * max(T, 1.0)
        require(abs(got - exp) <= t, f"sum of reaction ordinates at {poi:.8g} is {got:.10g}, the loads together give {exp:.10g}")


def usage_st():
    return st.fixed_dictionaries({
        "beam": gen.beams(max_spans=4, settlements=False, types=(1,)),
        "loads": st.lists(st.tuples(st.integers(0, 100), gen.mags(60)), min_size=1, max_size=4),
        "stations": st.lists(st.tuples(st.integers(0, 3), st.integers(1, 99)), min_size=1, max_size=3),
    })


def plot(c, rec):
    """The plotted influence line is the queried one."""
    import matplotlib.pyplot as plt

    case = c["beam"]
    il = make(case)
    T = float(np.sum(case["L"]))
    il.create_ils(step=T / 10)
    poi = c["p"] * T
    eff = c["eff"]
    if eff in ("R", "MR") and not nearest(case, poi, 0 if eff == "R" else 1):
        eff = "M"
    x, y = il.get_il(poi, eff)
    fig, ax = plt.subplots()
    il.plot_il(poi, eff, ax=ax if c["ax"] else None)
    a = ax if c["ax"] else plt.gca()
    ok = any(len(l.get_xdata()) == len(x) and np.array_equal(l.get_xdata(), x) and np.array_equal(l.get_ydata(), y) for l in a.lines)
    require(ok, "plot_il does not draw the influence line it returns")
    rec.mark()
    plt.close("all")


def plot_st():
    return st.fixed_dictionaries({
        "beam": gen.beams(max_spans=3, settlements=False, types=(1,)),
        "p": gen.frac(True), "eff": st.sampled_from(["V", "M", "R", "MR"]), "ax": st.booleans(),
    })


CHECK = Check(
    "C12",
    "non-trivial = an influence line compared at every load position (ordinates), several loads summed (usage)",
    [
        Sub("ordinates", ordinates_st, ordinates, 500, 8000),
        Sub("usage", usage_st, usage, 160, 2500),
        Sub("plot", plot_st, plot, 60, 600),
    ],
    ["a point off the result stations may report any value between its neighbouring stations",
     "at a section under the load, or at a shared node, either one-sided limit may be reported"],
)
