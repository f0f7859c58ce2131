"""C35: member stiffness matrices and load elements, used on their own, are exact."""
from copy import deepcopy

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import refbeam as rb
from harness.core import Check, Sub, require


def one(L, EI, GA=None, kf=None, et=1, R=(-1, -1, -1, -1), D=None, rows=()):
    """Solved reference of a single member."""
    conv = lambda v: rb.section_pieces(v) if isinstance(v, list) else v
    return rb.RefBeam([rb.Member(L, conv(EI), conv(GA), kf, rb.REL[et])], list(R), D).load(list(rows)).solve()


def ends(ref):
    return np.array([ref.reac[i] for i in range(4)])


def dims(L):
    """Sizes of [force, moment, force, moment] for displacements [v, theta, v, theta]."""
    return np.array([1.0, L, 1.0, L])


def stiffness(c, rec):
    from pycba import Beam, BeamAnalysis

    L, EI, GA, kf, et = c["L"], c["EI"], c["GA"], c["kf"], c["et"]
    conv = lambda v: gen.section(v) if isinstance(v, list) else v
    kw = {}
    if GA is not None:
        kw["GAv"] = [conv(GA)]
    if kf is not None:
        kw["kf"] = [kf]
    if c["whole"]:
        b = BeamAnalysis([L], [conv(EI)], [-1, -1, -1, -1], eletype=[et], **kw).beam
    else:
        b = Beam(L=[L], EI=[conv(EI)], R=[-1, -1, -1, -1], eletype=[et], **kw)
    kind = "foundation" if kf is not None else ("shear" if GA is not None else ("variable" if isinstance(EI, list) else "prismatic"))
    rec.cls(kind, f"type{et}")
    rec.mark(kind != "prismatic" or et != 1)
    exact = np.zeros((4, 4))
    for j in range(4):
        D = [0.0] * 4
        D[j] = 1.0
        exact[:, j] = ends(one(L, EI, GA, kf, et, D=D))
    s = dims(L)
    E0 = exact / s[:, None] / s[None, :]  # all entries in the units of force per length
    big = np.abs(E0).max()
    tol = 3e-3 if kf is not None else (1e-6 if isinstance(EI, list) or isinstance(GA, list) else 1e-11)
    forms = {"get_span_k": lambda: b.get_span_k(0)}
    S = lambda v: gen.section(v if isinstance(v, list) else [{"kind": "const", "x": [0.0, L], "ei": v}])
    if kf is None and GA is None:
        if not isinstance(EI, list):
            forms[{1: "k_FF", 2: "k_FP", 3: "k_PF", 4: "k_PP"}[et]] = lambda: getattr(b, {1: "k_FF", 2: "k_FP", 3: "k_PF", 4: "k_PP"}[et])(EI, L)
        forms["k_nonprismatic"] = lambda: b.k_nonprismatic(S(EI), L, et)
    elif kf is None:
        forms["k_timoshenko"] = lambda: b.k_timoshenko(conv(EI), conv(GA), L, et)
        if not isinstance(EI, list) and not isinstance(GA, list) and et == 1:
            forms["k_FF_timo"] = lambda: b.k_FF_timo(EI, GA, L)
    else:
        from pycba.foundation import FoundationElement

        forms["FoundationElement"] = lambda: FoundationElement(L, EI, kf, c["sub"]).k
    for name, f in forms.items():
        k = np.array(f(), float)
        require(k.shape == (4, 4) and np.all(np.isfinite(k)), f"{name}: shape {k.shape}")
        k0 = k / s[:, None] / s[None, :]
        m = max(big, gen.eimin({"EI": [EI]}) / L**3)
        i, j = np.unravel_index(np.argmax(np.abs(k0 - E0)), (4, 4))
        require(np.abs(k0 - E0)[i, j] <= tol * m, f"{name}[{i},{j}] is {k[i, j]:.10g}, exact {exact[i, j]:.10g} ({kind}, type {et})")
        if big == 0.0:
            require(np.abs(k0).max() <= 1e-11 * gen.eimax({"EI": [EI]}) / L**3, f"{name}: a member released at both ends has stiffness")
            continue
        require(np.abs(k0 - k0.T).max() <= (1e-9 if kf is None else 1e-6) * m, f"{name} is not symmetric")
        for r in ([1] if et in (3, 4) else []) + ([3] if et in (2, 4) else []):
            require(not k[r].any() and not k[:, r].any(), f"{name}: the released end {r} takes moment")
        w = np.linalg.eigvalsh(0.5 * (k0 + k0.T))
        require(w[0] >= -(1e-9 if kf is None else 1e-6) * m, f"{name} has a negative eigenvalue {w[0]:.4g}")
        rigid = np.array([[1, 0, 1, 0], [0.0, 1 / L, 1.0, 1 / L]]).T  # in units of length: v, L theta
        rigid[1, 1] = rigid[3, 1] = 1.0
        if kf is None and et == 1:
            require(np.abs(k0 @ rigid).max() <= 1e-9 * m, f"{name} resists a rigid-body movement")
        # [v, theta] -> force balance: sum of forces, sum of moments
        if kf is None:
            require(np.abs(k0[0] + k0[2]).max() <= 1e-9 * m and np.abs(k0[1] + k0[3] - k0[0]).max() <= 1e-9 * m, f"{name}: end forces are not in equilibrium")
    # asking again, or for an equal member, gives the same matrix
    a = np.array(b.get_span_k(0), float)
    require(np.array_equal(a, np.array(b.get_span_k(0), float)), "the stiffness changes when asked for again")


@st.composite
def members(draw):
    L, E = draw(gen.lengths(0.5 if draw(st.booleans()) else 2.0, 40.0)), draw(gen.EI0)
    kind = draw(st.sampled_from(["prismatic", "variable", "variable", "shear", "shear", "foundation"]))
    sec = lambda e: draw(gen.section_segs(L, e).filter(gen.segs_positive))
    EI, GA, kf = E, None, None
    if kind == "variable" or (kind == "shear" and draw(st.booleans())):
        EI = sec(E)
    if kind == "shear":
        g = gen.r4(E / L**2 * draw(st.sampled_from([1.0, 5.0, 50.0, 1000.0])))
        GA = sec(g) if draw(st.booleans()) else g
    if kind == "foundation":
        kf = gen.r4(4 * E * (draw(st.sampled_from([0.3, 0.5, 1.0, 2.0, 4.0])) / L) ** 4)
    et = 1 if kf is not None else draw(st.sampled_from([1, 2, 3, 4]))
    return {"L": L, "EI": EI, "GA": GA, "kf": kf, "et": et, "whole": draw(st.booleans()), "sub": draw(st.sampled_from([None, 32, 60]))}


# ------------------------------------------------------------ load elements ----
CLASSES = {1: "LoadUDL", 2: "LoadPL", 3: "LoadPUDL", 4: "LoadML", 5: "LoadTrapez", 6: "LoadIC"}


def elements(c, rec):
    import pycba
    from pycba import load as lm

    L, rows, EI = c["L"], c["rows"], c["EI"]
    before = deepcopy(rows)
    loads = pycba.parse_LM(rows)
    require(rows == before, "parsing changed the load matrix")
    require(len(loads) == len(rows), "one load element per row")
    total, sizes = None, 0.0
    x = np.concatenate([[0.0], np.linspace(0.0, L, c["n"]), [L]])
    if c["extra"]:  # any increasing stations
        x = np.sort(np.concatenate([x, L * np.random.default_rng(c["n"]).uniform(size=7)]))
    inner = slice(1, -1)
    for row, ld in zip(rows, loads):
        t = row[1]
        rec.cls(CLASSES[t])
        require(type(ld).__name__ == CLASSES[t] and ld.i_span == row[0] - 1, f"{row} parsed as {type(ld).__name__} on span {ld.i_span}")
        if c["direct"]:  # the same element made by its class
            args = [row[2:]] if t == 6 else row[2:]
            ld = getattr(lm, CLASSES[t])(row[0] - 1, *args)
        r = [1] + list(row[1:])
        W = abs(row[2]) if t == 2 else (max(abs(q) for q in row[2:4]) * L if t in (1, 3, 5) else abs(row[2]) / L)
        if t in (1, 3):
            W = abs(row[2]) * L
        if t == 6:
            kap = sum(abs(k) * L**i for i, k in enumerate(row[2:]))
            ld.EI, e, W = EI, EI, EI * kap / L
        else:
            e = 1.0
        s = W * dims(L) + 1e-300
        for et, f in ((1, "get_cnl"), (1, "get_ref"), (2, "get_ref"), (3, "get_ref"), (4, "get_ref")):
            got = np.array(getattr(ld, f)(L, et), float)
            exp = ends(one(L, e, et=et, rows=[r]))
            k = int(np.argmax(np.abs(got - exp) / s))
            require(np.abs(got - exp)[k] <= 1e-9 * s[k], f"{f} of {row} for type {et}: {got}, exact {exp}")
        q = ld.get_cnl(L, 1)
        require(tuple(q) == (q.Va, q.Ma, q.Vb, q.Mb), "order of the nodal loads")
        # along a simply supported member of unit rigidity
        res = ld.get_mbr_results(x.copy(), L)
        ref = one(L, 1.0, R=(-1, 0, -1, 0), rows=[r])
        for a in ("x", "V", "M", "R", "D"):
            require(np.shape(getattr(res, a)) == x.shape and np.all(np.isfinite(getattr(res, a))), f"{row}: shape of {a}")
        require(np.array_equal(res.x, x), "the stations changed")
        require(res.V[0] == res.V[-1] == res.M[0] == res.M[-1] == 0.0, f"{row}: shear and moment are not closed at the ends")
        Wn = kap / L if t == 6 else W
        at = row[3] if t in (2, 4) else None
        ok = np.ones(len(x), bool) if at is None else np.abs(x - at) > 1e-9 * L
        V, M = ref.VM(0, x, 1)
        psi, v = ref.RD(0, x)
        g = 1e-9
        gr = 1e-9 if t != 6 else 3.0 / (c["n"] - 1) ** 2  # trapezoidal integration of the curvature
        for a, exact, tol, m in (("V", V, g * Wn, t == 2), ("M", M, g * Wn * L, t == 4), ("R", psi, gr * Wn * L * L, False), ("D", v, gr * Wn * L**3, False)):
            d = np.abs(getattr(res, a) - exact)[inner]
            if m:
                d = np.where(ok[inner], d, 0.0)
            k = int(np.argmax(d))
            require(d[k] <= tol + 1e-300, f"{a} along a simple span under {row}, at {x[inner][k]:.6g} of {L}: {getattr(res, a)[inner][k]:.10g}, exact {exact[inner][k]:.10g}")
        total = res if total is None else total + res
        sizes = sizes + Wn
    if len(rows) > 1:  # member results add
        each = [ld.get_mbr_results(x.copy(), L) for ld in loads]
        for a in ("V", "M", "R", "D"):
            y = sum(getattr(q, a) for q in each)
            require(np.all(np.abs(getattr(total, a) - y) <= 1e-9 * (np.abs([getattr(q, a) for q in each]).max() + 1e-300)), f"{a} of added member results is not the sum")
        require(np.array_equal(total.x, x), "stations of added member results")
        try:
            each[0] + loads[0].get_mbr_results(x * 1.01, L * 1.01)
        except AssertionError:
            pass
        else:
            require(False, "results at different stations were added")
    R0, D0 = np.array(total.R), np.array(total.D)
    total.apply_EI(EI)
    require(np.allclose(total.R * EI, R0, rtol=1e-12, atol=0) and np.allclose(total.D * EI, D0, rtol=1e-12, atol=0), "apply_EI")
    # end moments on their own
    Ma, Mb = c["mm"]
    e = lm.LoadMaMb(0, Ma, Mb)
    require(np.allclose(np.array(e.get_cnl(L, 1)), [(Ma + Mb) / L, Ma, -(Ma + Mb) / L, Mb], rtol=1e-12, atol=0), "end moments as nodal loads")
    res = e.get_mbr_results(x.copy(), L)
    M = -Ma + (Ma + Mb) * x / L
    ref = one(L, 1.0, R=(-1, 0, -1, 0), rows=[[1, 4, Ma, 0.0], [1, 4, Mb, L]])
    psi, v = ref.RD(0, x)
    m = max(abs(Ma), abs(Mb))
    require(np.all(np.abs(res.M - M)[inner] <= 1e-12 * m) and np.all(np.abs(res.V - (Ma + Mb) / L)[inner] <= 1e-12 * m / L), "moment and shear of end moments")
    require(np.all(np.abs(res.R - psi) <= 1e-9 * m * L) and np.all(np.abs(res.D - v) <= 1e-9 * m * L * L), "rotation and deflection of end moments")
    rec.mark(len(rows) > 1 or rows[0][1] not in (1, 2))


@st.composite
def element_cases(draw):
    L = draw(gen.lengths(1.0, 40.0))
    rows = draw(gen.load_matrix([L, L, L], types=(1, 2, 3, 4, 5, 6), min_size=1, max_size=4))
    return {"L": L, "rows": rows, "EI": draw(gen.EI0), "n": draw(st.sampled_from([101, 20, 7, 250])), "extra": draw(st.booleans()),
            "direct": draw(st.booleans()), "mm": [draw(gen.mags(50)), draw(gen.mags(50))]}


# ------------------------------------------- end forces of a whole loaded member ----
def loaded(c, rec):
    case = c["beam"]
    gen.solved_reference(case, rc_min=1e-9)
    b = gen.analysed(case).beam  # the loads are read when the beam is analysed
    n = len(case["L"])
    for i in range(n):
        L = case["L"][i]
        rows = [[1] + list(r[1:]) for r in case["LM"] if r[0] == i + 1]
        GA = (case.get("GA") or [None] * n)[i]
        kf = (case.get("kf") or [None] * n)[i]
        exp = ends(one(L, case["EI"][i], GA, kf, case["et"][i], rows=rows))
        got = np.array(b.get_ref(i), float)
        W = gen.load_force(case, [r for r in case["LM"] if r[0] == i + 1]) if rows else 0.0
        W += sum(gen.eimax(case) * sum(abs(k) * L**q for q, k in enumerate(r[2:])) / L for r in rows if r[1] == 6)
        s = W * dims(L)
        tol = 2e-3 if kf is not None else (1e-6 if isinstance(case["EI"][i], list) or isinstance(GA, list) else 1e-9)
        require(got.shape == (4,) and np.all(np.abs(got - exp) <= tol * s), f"end forces of loaded member {i + 1} (type {case['et'][i]}): {got}, exact {exp}")
        if not rows:
            require(not got.any(), f"member {i + 1} carries no load but has end forces {got}")
        rec.cls("foundation" if kf else "shear" if GA is not None else "variable" if isinstance(case["EI"][i], list) else "prismatic")
    rec.mark(n > 1 or case["et"][0] != 1)


def loaded_st():
    t = (1, 2, 3, 4, 5)
    return st.fixed_dictionaries({"beam": st.one_of(
        gen.beams(max_spans=3, types=t + (6,)), gen.beams(max_spans=3, nonprismatic=True, types=t + (6,)), gen.beams(max_spans=3, timo=True, types=t),
        gen.beams(max_spans=3, timo=True, nonprismatic=True, types=t), gen.beams(max_spans=2, found=True, types=(1, 2, 3), lhi=20.0))})


# ------------------------------------------------------------ load matrices ----
def factor_row(r, g):
    t = r[1]
    if t == 5:
        return [r[0], t, g * r[2], g * r[3]] + list(r[4:])
    if t == 6:
        return [r[0], t] + [g * k for k in r[2:]]
    return [r[0], t, g * r[2]] + list(r[3:])


def matrices(c, rec):
    import pycba

    A, B, g, h = c["A"], c["B"], c["g"], c["h"]
    a0, b0 = deepcopy(A), deepcopy(B)
    S = pycba.add_LM(A, B)
    require(S == a0 + b0, f"sum of the load matrices {S}")
    F = pycba.factor_LM(A, g)
    require(len(F) == len(A) and all(len(p) == len(q) and p[:2] == q[:2] and np.allclose(p, q, rtol=1e-15, atol=0) for p, q in zip(F, [factor_row(r, g) for r in a0])), f"{g} times {a0} is {F}")
    F2 = pycba.factor_LM(pycba.factor_LM(S, g), h)
    G = pycba.factor_LM(S, g * h)
    require(all(np.allclose(p, q, rtol=1e-12, atol=0) for p, q in zip(F2, G)) and len(F2) == len(G), "factoring twice")
    require(A == a0 and B == b0, "the load matrices given were changed")
    S.append([1, 1, 5.0])
    F.clear()
    require(A == a0 and B == b0, "appending to the result changed the load matrix given")
    one_, none = pycba.add_LM(A, []), pycba.add_LM([], [])
    require(one_ == a0 and none == [] and pycba.factor_LM([], g) == [], "empty load matrices")
    for L in c["L"]:  # the factored matrix gives factored elements, in the same order
        for p, q in zip(pycba.parse_LM(A), pycba.parse_LM(pycba.factor_LM(A, g))):
            require(type(p) is type(q) and p.i_span == q.i_span, "kind or span of a factored load")
            if type(p).__name__ == "LoadIC":
                p.EI = q.EI = 1e4
            u, v = np.array(p.get_cnl(L, 1)), np.array(q.get_cnl(L, 1))
            require(np.all(np.abs(v - g * u) <= 1e-11 * abs(g) * np.abs(u / dims(L)).max() * dims(L) + 1e-300), "nodal loads of a factored load")
    rec.cls(*{f"load{r[1]}" for r in A + B})
    rec.mark(len(A) > 1 and len({r[1] for r in A}) > 1)


@st.composite
def matrix_cases(draw):
    L = [draw(gen.lengths(1.0, 40.0)) for _ in range(draw(st.integers(1, 4)))]
    m = lambda lo: draw(gen.load_matrix(L, types=(1, 2, 3, 4, 5, 6), min_size=lo, max_size=6))
    f = st.sampled_from([1.35, 0.9, -1.0, 0.0, 1.5, 2.0, 1e-3])
    return {"L": L, "A": m(1), "B": m(0), "g": draw(f), "h": draw(f)}


CHECK = Check(
    "C35",
    "non-trivial = a member that is not plain prismatic fixed-fixed; several loads or one beyond UDL and point load; a load matrix of several kinds",
    [
        Sub("stiffness", members, stiffness, 600, 12000),
        Sub("elements", element_cases, elements, 500, 10000),
        Sub("loaded", loaded_st, loaded, 500, 10000),
        Sub("matrices", matrix_cases, matrices, 400, 8000),
    ],
    ["the stiffness of a foundation member carries the discretisation of its documented sub-elements",
     "the rotation and deflection of an imposed curvature are integrated by the trapezoidal rule on the stations asked for"],
)
