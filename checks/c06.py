"""C06: reciprocity (Betti, Mueller-Breslau) and positive energy."""
import numpy as np
from hypothesis import strategies as st

from checks.c05 import cut
from harness import cmp, gen
from harness.core import Check, SkipCase, Sub, require


def beam_with_nodes():
    """Beams, some of whose nodes are plain subdivision points (unsupported)."""
    return st.one_of(
        gen.beams(max_spans=6, min_spans=2, types=(1,), settlements=False),
        gen.beams(max_spans=4, min_spans=2, nonprismatic=True, types=(1,), settlements=False),
        gen.beams(max_spans=4, min_spans=2, timo=True, types=(1,), settlements=False),
        gen.beams(max_spans=3, min_spans=2, timo=True, nonprismatic=True, types=(1,), settlements=False),
        gen.beams(max_spans=4, min_spans=1, found=True, types=(1,), settlements=False),
    ).flatmap(lambda c: st.fixed_dictionaries({
        "beam": st.just(c),
        "A": actions(c),
        "B": actions(c),
        "d": st.sampled_from([0.01, -0.02, 1.0]),
        "k": st.integers(0, 30),
    }))


def actions(c):
    n = len(c["L"])

    def one(t):
        node, kind, val = t
        return [node, kind, val]

    free = [k for k in range(n + 1)]
    return st.lists(
        st.tuples(st.sampled_from(free), st.sampled_from([2, 4]), gen.mags(50)).map(one), min_size=1, max_size=3
    )


def rows(case, acts):
    """Nodal actions as loads at a member end; couples go on the member whose end
    is rigidly joined to the node (a couple on a released end acts on the member)."""
    n = len(case["L"])
    out = []
    for node, kind, val in acts:
        cand = []
        if node < n:
            cand.append((node + 1, 0.0, case["et"][node] in (3, 4), node))
        if node > 0:
            cand.append((node, case["L"][node - 1], case["et"][node - 1] in (2, 4), node - 1))
        if kind == 4:
            cand = [c for c in cand if not c[2]]
        cand = [c for c in cand if not (case["kf"] and case["kf"][c[3]] is not None and kind == 4)]
        if not cand:
            continue
        out.append(([cand[0][0], kind, val, cand[0][1]], node, kind, val))
    return out


def work(acts, u):
    # loads are positive down, couples positive counter-clockwise
    return sum((-v * u[2 * k]) if kind == 2 else v * u[2 * k + 1] for _, k, kind, v in acts)


def betti(c, rec):
    case = c["beam"]
    ref = gen.solved_reference(case, LM=[], rc_min=1e-7)
    rt = max(1e-6, 1e-13 / ref.rc)
    A, B = rows(case, c["A"]), rows(case, c["B"])
    if not A or not B:
        from harness.core import SkipCase

        raise SkipCase("no admissible action")
    gen.classify(dict(case, LM=[a[0] for a in A + B]), rec)
    ua = gen.analysed(case, npts=4, LM=[a[0] for a in A]).beam_results.D
    ub = gen.analysed(case, npts=4, LM=[b[0] for b in B]).beam_results.D
    wab, wba = work(A, ub), work(B, ua)
    waa, wbb = work(A, ua), work(B, ub)
    sc = np.sqrt(abs(waa) * abs(wbb)) + 1e-300
    EI = gen.eimin(case)
    eps = 1e-9 * (max(abs(x[3]) for x in A + B) ** 2) * min(case["L"]) ** 3 / EI * 0.1
    require(waa >= -rt * abs(waa) - eps, f"loads do negative work {waa:.6g} on their own displacements")
    require(wbb >= -rt * abs(wbb) - eps, f"loads do negative work {wbb:.6g} on their own displacements")
    rec.mark(abs(wab) > 1e-9 * sc and c["A"] != c["B"])
    require(abs(wab - wba) <= rt * sc + eps, f"work of A on B = {wab:.10g}, of B on A = {wba:.10g}")
    # Cauchy-Schwarz for a positive definite compliance
    require(abs(wab) <= sc * (1 + rt) + eps, f"mutual work {wab:.8g} exceeds the bound {sc:.8g}")


def muller(c, rec):
    """Reaction under unit actions = - displacement they meet under a unit settlement."""
    case = c["beam"]
    ref = gen.solved_reference(case, LM=[], rc_min=1e-7)
    rt = max(1e-6, 1e-13 / ref.rc)
    A = rows(case, c["A"])
    fixed = [i for i, r in enumerate(case["R"]) if r < 0]
    if not A or not fixed:
        from harness.core import SkipCase

        raise SkipCase("no admissible action")
    j = fixed[c["k"] % len(fixed)]
    gen.classify(dict(case, LM=[a[0] for a in A]), rec)
    ba = gen.analysed(case, npts=4, LM=[a[0] for a in A])
    r = float(ba.beam_results.R[fixed.index(j)])
    D = [None] * len(case["R"])
    D[j] = c["d"]
    bs = gen.analysed(dict(case, D=D), npts=4, LM=[])
    require(abs(bs.beam_results.D[j] - c["d"]) <= 1e-12, "prescribed displacement not imposed")
    w = work(A, bs.beam_results.D)
    F = sum(abs(v) if k == 2 else abs(v) / min(case["L"]) for _, _, k, v in A)
    L = max(case["L"])
    rec.mark(abs(w) > 1e-9 * F * abs(c["d"]))
    u = np.max(np.abs(bs.beam_results.D))
    m = sum(abs(v) * (1.0 if k == 4 else 1.0) for _, _, k, v in A)
    tol = rt * (F * L * max(abs(c["d"]), u) + abs(w) + m * u)
    require(abs(r * c["d"] + w) <= tol, f"reaction {r:.10g} (dof {j}) x displacement {c['d']} + work {w:.10g} is not zero (tolerance {tol:.3g})")


def in_span():
    """Two systems of point loads and couples inside the members."""
    return st.one_of(
        gen.beams(max_spans=4, types=(1,), settlements=False),
        gen.beams(max_spans=3, nonprismatic=True, types=(1,), settlements=False),
        gen.beams(max_spans=3, timo=True, types=(1,), settlements=False),
        gen.beams(max_spans=3, timo=True, nonprismatic=True, types=(1,), settlements=False),
    ).flatmap(lambda c: st.fixed_dictionaries({
        "beam": st.just(c),
        "A": gen.load_matrix(c["L"], (2, 2, 4), 1, 2, kinds_ends=False),
        "B": gen.load_matrix(c["L"], (2, 2, 4), 1, 2, kinds_ends=False),
    }))


def compact(rows, case):
    """Positions on a 1/60 grid of the member, so that pieces are never tiny."""
    return [[r[0], r[1], r[2], min(59, max(1, round(60 * r[3] / case["L"][r[0] - 1]))) / 60] for r in rows]


def displaced(case, LM, at):
    """Displacement (v, theta) of the loaded beam at interior points [span, f], from
    the model cut there, whose nodal values are exact."""
    out = []
    rows = [[r[0], r[1], r[2], r[3] * case["L"][r[0] - 1]] for r in LM]
    for span, f in at:
        m = cut(dict(case, LM=rows), span - 1, f)
        D = gen.analysed(m, npts=4).beam_results.D
        out.append((D[2 * span], D[2 * span + 1]))
    return out


def betti_in_span(c, rec):
    case = c["beam"]
    A, B = compact(c["A"], case), compact(c["B"], case)
    ref = gen.solved_reference(case, LM=[], rc_min=1e-7)
    rt = max(1e-6, 1e-13 / ref.rc)

    def done(P, u):
        return sum(-r[2] * v if r[1] == 2 else r[2] * t for r, (v, t) in zip(P, u))

    pa, pb = [(r[0], r[3]) for r in A], [(r[0], r[3]) for r in B]
    wab, wba = done(A, displaced(case, B, pa)), done(B, displaced(case, A, pb))
    waa, wbb = done(A, displaced(case, A, pa)), done(B, displaced(case, B, pb))
    gen.classify(case, rec)
    for r in A + B:
        rec.cls("couple" if r[1] == 4 else "force")
    sc = np.sqrt(abs(waa) * abs(wbb)) + 1e-300
    rec.mark(abs(wab) > 1e-6 * sc and A != B)
    # the round-off of loads that cancel one another
    eps = 1e-10 * max(abs(r[2]) for r in A + B) ** 2 * max(max(case["L"]), 1.0) ** 3 / gen.eimin(case)
    require(waa > -eps and wbb > -eps, f"loads do work {waa:.6g} / {wbb:.6g} on their own displacements")
    require(abs(wab - wba) <= rt * sc + eps, f"work of A on B = {wab:.10g}, of B on A = {wba:.10g}")
    require(abs(wab) <= sc * (1 + rt) + eps, f"mutual work {wab:.8g} exceeds the bound {sc:.8g}")


def shape_st():
    return st.one_of(
        gen.beams(max_spans=4, settlements=False),
        gen.beams(max_spans=3, nonprismatic=True, settlements=False),
    ).flatmap(lambda c: st.fixed_dictionaries({
        "beam": st.just(c), "k": st.integers(0, 30), "n": st.sampled_from([7, 20, 33]), "d": st.sampled_from([1.0, 1.0, -1.0, 0.01])}))


def shape(c, rec):
    """The influence line of a reaction is the deflected shape for a unit settlement."""
    import pycba

    case = dict(c["beam"], LM=[])
    fixed = [i for i, r in enumerate(case["R"]) if r < 0]
    if not fixed:
        raise SkipCase("no fixed support")
    j = fixed[c["k"] % len(fixed)]
    D = [None] * len(case["R"])
    D[j] = c["d"]
    settled = dict(case, D=D)
    ref = gen.solved_reference(settled, rc_min=1e-7)
    kw = gen.kwargs(dict(case, D=None), [])
    il = pycba.InfluenceLines(kw["L"], kw["EI"], kw["R"], kw.get("eletype"))
    Lt = float(sum(case["L"]))
    il.create_ils(step=Lt / c["n"])
    at = float(np.sum(case["L"][: j // 2]))
    x, eta = il.get_il(at, "MR" if j % 2 else "R")
    rec.cls("moment reaction" if j % 2 else "vertical reaction")
    res = gen.analysed(settled).beam_results
    x0, marks = 0.0, False
    for i, m in enumerate(ref.m):
        s = np.clip(np.asarray(res.vRes[i].x[1:-1], float) - x0, 0.0, m.L)
        _, v, _, tol = cmp.disp_tol(ref, i, s)
        kap = max(np.max(np.abs(ref.curvature(i, s, q))) for q in (-1, 1))
        tol = tol + kap * np.max(np.diff(s)) ** 2 / 8 + 1e-6 * abs(c["d"])
        on = [k for k, q in enumerate(x) if x0 + 1e-9 * Lt < q < x0 + m.L - 1e-9 * Lt]
        x0 += m.L
        marks = marks or bool(on) and np.max(np.abs(v)) > 1e-3 * abs(c["d"])
        for k in on:
            d = float(np.interp(x[k] - (x0 - m.L), s, res.vRes[i].D[1:-1]))
            require(abs(d - eta[k] * c["d"]) <= tol, f"influence ordinate {eta[k]:.8g} of the reaction at dof {j} with the load at {x[k]:.6g}; the settled beam is at {d / c['d']:.8g} there (tolerance {tol / abs(c['d']):.3g})")
    rec.mark(marks)


CHECK = Check(
    "C06",
    "non-trivial = the two load systems differ and do mutual work / the settlement makes the loads do work",
    [
        Sub("betti", beam_with_nodes, betti, 2000, 40000),
        Sub("betti_in_span", in_span, betti_in_span, 800, 16000),
        Sub("influence_shape", shape_st, shape, 700, 14000),
        Sub("muller_breslau", beam_with_nodes, muller, 1500, 30000),
    ],
    ["work is evaluated with nodal displacements, where the stiffness solution is exact"],
)
