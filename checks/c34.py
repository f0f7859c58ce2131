"""C34: stiffening never softens, and models tend to their limiting models."""
import copy

import numpy as np
from hypothesis import strategies as st

from checks import c06, c23
from harness import cmp, gen
from harness.core import Check, SkipCase, Sub, require


# ------------------------------------------------------------- stiffening ----
def options(case):
    """Every single change that makes the structure stiffer."""
    out = []
    n = len(case["L"])
    for i in range(n):
        out.append(("EI", i))
        if case["GA"] and case["GA"][i] is not None:
            out += [("GA", i), ("noGA", i)]
        if case["kf"] and case["kf"][i] is not None:
            out.append(("kf", i))
        elif not isinstance(case["EI"][i], list) and not case["GA"] and case["et"][i] == 1:
            out.append(("addkf", i))
        if case["et"][i] != 1:
            out.append(("fuse", i))
    for i, r in enumerate(case["R"]):
        if r > 0:
            out += [("spring", i), ("hold", i)]
        elif r == 0:
            out += [("hold", i), ("addspring", i)]
    return out


def up(v, f):
    if isinstance(v, list):
        return [dict(s, ei=[e * f for e in s["ei"]] if isinstance(s["ei"], list) else s["ei"] * f) for s in v]
    return v * f


def stiffen(case, change, f):
    c = copy.deepcopy(case)
    kind, i = change
    n = len(c["L"])
    if kind == "EI":
        c["EI"][i] = up(c["EI"][i], f)
    elif kind == "GA":
        c["GA"][i] = up(c["GA"][i], f)
    elif kind == "noGA":
        c["GA"][i] = None
        if all(g is None for g in c["GA"]):
            c["GA"] = None
    elif kind == "kf":
        c["kf"][i] *= f
    elif kind == "addkf":
        c["kf"] = list(c["kf"] or [None] * n)
        c["kf"][i] = 4 * c["EI"][i] * (f / (1 + f) * 2 / c["L"][i]) ** 4
    elif kind == "fuse":
        c["et"][i] = {2: 1, 3: 1, 4: 2 if f > 2 else 3}[c["et"][i]]
    elif kind == "hold":
        c["R"][i] = -1
    elif kind == "spring":
        c["R"][i] *= f
    elif kind == "addspring":
        c["R"][i] = f * gen.eimin(c) / max(c["L"]) ** (3 if i % 2 == 0 else 1)
    return c


def factor():
    return st.sampled_from([1.01, 1.5, 3.0, 40.0])


def comp_cases():
    return c06.beam_with_nodes().flatmap(lambda c: st.fixed_dictionaries({
        "beam": st.just(c["beam"]), "A": st.just(c["A"]),
        "how": st.lists(st.tuples(st.integers(0, 60), factor()), min_size=1, max_size=3),
    }))


def compliance(c, rec):
    case = c["beam"]
    A = c06.rows(case, c["A"])
    if not A:
        raise SkipCase("no admissible action")
    rc = gen.solved_reference(case, LM=[], rc_min=1e-6).rc
    LM = [a[0] for a in A]
    gen.classify(dict(case, LM=LM), rec)
    w = c06.work(A, gen.analysed(case, npts=4, LM=LM).beam_results.D)
    L, EI = min(case["L"]), gen.eimax(case)
    eps = 1e-12 * (sum(abs(a[3]) for a in A) ** 2) * L**3 / EI
    require(w >= -1e-7 * abs(w) - eps, f"the loads do negative work {w:.6g} on their own displacements")
    cur = case
    for k, f in c["how"]:
        opts = options(cur)
        # actions on a released end or on a foundation span keep their meaning
        ch = opts[k % len(opts)]
        new = stiffen(cur, ch, f)
        try:
            ref = gen.solved_reference(new, LM=[], rc_min=1e-7)
        except SkipCase:
            break
        if new["kf"] and any(r[1] == 4 and new["kf"][r[0] - 1] is not None for r in LM):
            break
        rec.cls("stiffer:" + ch[0])
        w2 = c06.work(A, gen.analysed(new, npts=4, LM=LM).beam_results.D)
        rt = max(1e-7, 1e-13 / min(ref.rc, rc))
        require(w2 <= w * (1 + rt) + eps, f"{ch[0]} {ch[1]} x{f}: a stiffer structure lets the loads do more work ({w2:.10g} after, {w:.10g} before)")
        require(w2 >= -rt * w - eps, f"{ch[0]} {ch[1]} x{f}: the loads do negative work {w2:.6g}")
        rec.mark(w2 < w * (1 - 1e-6))
        cur, w, rc = new, w2, ref.rc


# ------------------------------------------------------------- frequencies ----
@st.composite
def freq_cases(draw):
    c = draw(c23.cases(3))
    c["nseg"] = draw(st.sampled_from([6, 12]))
    c["n_modes"] = draw(st.sampled_from([3, 6, 10]))
    c["change"] = [draw(st.integers(0, 40)), draw(factor())]
    return c


def frequencies(c, rec):
    case = {k: v for k, v in c.items() if k != "change"}
    k, f = c["change"]
    opts = [o for o in options(case) if o[0] not in ("addkf",)] + [("mass", i) for i in range(len(case["L"]))]
    ch = opts[k % len(opts)]
    rec.cls("change:" + ch[0])
    if ch[0] == "mass":
        new = copy.deepcopy(case)
        new["m"][ch[1]] *= f
        new["how"] = "list"
    else:
        new = stiffen(case, ch, f)
    w0 = np.asarray(c23.solve(case, c23.build(case)).omega, float)
    w1 = np.asarray(c23.solve(new, c23.build(new)).omega, float)
    m = min(len(w0), len(w1))
    ro = 1e-6 + 1e-13 * (max(c23.omega_max(case), c23.omega_max(new)) / np.minimum(w0[:m], w1[:m])) ** 2
    ok = ro < 1e-3
    a, b = (w1[:m], w0[:m]) if ch[0] == "mass" else (w0[:m], w1[:m])
    bad = ok & (b < a * (1 - ro))
    require(not np.any(bad), f"{ch[0]} {ch[1]} x{f}: natural frequencies {w0[:m]} became {w1[:m]}")
    rec.mark(bool(np.any(ok & (b > a * (1 + 1e-5)))))


# ------------------------------------------------------------------ limits ----
def scales(ref, case):
    F, M, d, th = cmp.scales(ref)
    F = max(F, gen.load_force(case, case["LM"]))  # includes the forces a restrained curvature could cause
    return F, max(M, F * max(case["L"])), d, th


def close_models(a, b, ref, rtol, what, rec, stations, eimin, case):
    """Two analysed models of the same structure with the same nodes."""
    F, M, d, th = scales(ref, case)
    th += 0.02 * M * max(m.L for m in ref.m) / eimin
    d += 0.02 * M * max(m.L for m in ref.m) ** 2 / eimin
    rt = max(rtol, 1e-12 / ref.rc)
    n = len(ref.nodal)
    cmp.close(a.beam_results.D, b.beam_results.D, rt * np.array([d, th] * (n // 2)), f"{what}: nodal displacements")
    rec.mark(np.max(np.abs(b.beam_results.D)) > 1e-4 * d or len(b.beam_results.R) and np.max(np.abs(b.beam_results.R)) > 1e-3 * F)
    if stations:
        ra, rb = a.beam_results.results, b.beam_results.results
        cmp.close(ra.V, rb.V, rt * F, f"{what}: shears")
        cmp.close(ra.M, rb.M, rt * M, f"{what}: moments")
        if stations == "all":  # some kinds of member integrate their deflections differently
            cmp.close(ra.D, rb.D, rt * d, f"{what}: deflections")
            cmp.close(ra.R, rb.R, rt * th, f"{what}: rotations")


def total(ba, case):
    """Support force at every DOF, rigid or spring."""
    out = np.zeros(len(case["R"]))
    fix = [i for i, r in enumerate(case["R"]) if r < 0]
    spr = [i for i, r in enumerate(case["R"]) if r > 0]
    out[fix] = ba.beam_results.R
    out[spr] = ba.beam_results.Rs
    return out


def limit_cases():
    return st.one_of(
        gen.beams(max_spans=4, types=(1, 2, 3, 4, 5, 6), settlements=False),
        gen.beams(max_spans=3, nonprismatic=True, settlements=False),
        gen.beams(max_spans=3, timo=True, settlements=False),
        gen.beams(max_spans=3, found=True, types=(1, 2, 3), settlements=False),
    ).flatmap(lambda b: st.fixed_dictionaries({
        "beam": st.just(b), "k": st.integers(0, 60), "npts": st.sampled_from([20, 51]), "u": st.sampled_from([0.15, 0.5, 0.73])}))


def limits(c, rec):
    case = copy.deepcopy(c["beam"])
    n = len(case["L"])
    EIx, EIn, Lx, Ln = gen.eimax(case), gen.eimin(case), max(case["L"]), min(case["L"])
    opts = []
    for i, r in enumerate(case["R"]):
        opts.append(("stiff", i) if r < 0 else ("soft", i))
        if r > 0:
            opts.append(("zero", i))
    for i in range(n):
        if not isinstance(case["EI"][i], list) and case["et"][i] == 1 and not case["GA"] and (not case["kf"] or case["kf"][i] is None) and all(r[1] in (1, 2, 3) for r in case["LM"] if r[0] == i + 1):
            opts.append(("kf0", i))
        if not case["GA"] and (not case["kf"] or case["kf"][i] is None):
            opts.append(("GAinf", i))
        if not isinstance(case["EI"][i], list) and (not case["kf"] or case["kf"][i] is None):
            opts.append(("taper0", i))
    kind, i = opts[c["k"] % len(opts)]
    if kind == "zero":
        case["R"][i] = 0
    near = copy.deepcopy(case)
    stations = "all"
    tol = 1e-5
    if kind == "stiff":
        for e, k in zip(case["EI"], case["kf"] or []):  # a foundation stiffens the ends of its spans
            Ln = min(Ln, (4 * e / k) ** 0.25) if k else Ln
        near["R"][i] = 3e7 * EIx / Ln ** (3 if i % 2 == 0 else 1)
    elif kind in ("soft", "zero"):
        if case["R"][i] != 0:
            raise SkipCase("already a spring")
        near["R"][i] = 1e-8 * EIn / Lx ** (3 if i % 2 == 0 else 1)
        tol = 1e-5
    elif kind == "kf0":
        near["kf"] = list(near["kf"] or [None] * n)
        near["kf"][i] = 1e-8 * case["EI"][i] / Lx**4
        stations = False
    elif kind == "GAinf":
        near["GA"] = [None] * n
        near["GA"][i] = 1e8 * EIx / Ln**2
    elif kind == "taper0":
        e, L = case["EI"][i], case["L"][i]
        u = c["u"]
        near["EI"][i] = {
            0.15: [{"kind": "linear", "x": [0.0, L], "ei": [e, e * (1 + 1e-8)]}],
            0.5: [{"kind": "poly", "x": [0.0, 0.5 * L, L], "ei": [e, e * (1 + 1e-8), e]}],
            0.73: [{"kind": "const", "x": [0.0, u * L], "ei": e}, {"kind": "pwl", "x": [u * L, 0.9 * L, L], "ei": [e, e * (1 - 1e-8), e]}],
        }[u]
    rec.cls("limit:" + kind)
    ref = gen.solved_reference(case, rc_min=1e-4)
    gen.solved_reference(near, rc_min=1e-13)
    a, b = gen.analysed(near, c["npts"]), gen.analysed(case, c["npts"])
    if kind in ("taper0", "GAinf"):
        stations = "VM"
    close_models(a, b, ref, tol, kind, rec, stations, EIn, case)
    F, M, _, _ = scales(ref, case)
    rt = max(tol, 1e-12 / ref.rc)
    cmp.close(total(a, near), total(b, case), 10 * rt * np.array([F, M] * (n + 1)), f"{kind}: support forces")


# --------------------------------------------------------------- load limits ----
@st.composite
def load_cases(draw):
    b = draw(st.one_of(
        gen.beams(max_spans=4, types=(1, 2), settlements=False),
        gen.beams(max_spans=3, nonprismatic=True, types=(1, 2), settlements=False),
        gen.beams(max_spans=3, timo=True, types=(1, 2), settlements=False)))
    i = draw(st.integers(1, len(b["L"])))
    return {"beam": b, "i": i, "f": draw(st.floats(0.06, 0.94).map(gen.r4)), "P": draw(gen.mags()), "h": draw(st.sampled_from([1e-3, 3e-4])),
            "kind": draw(st.sampled_from(["udl", "trapezoid", "triangles", "couple", "shift"])), "others": draw(st.booleans())}


def load_limits(c, rec):
    case = c["beam"]
    i, P = c["i"], c["P"]
    L = case["L"][i - 1]
    a, h = c["f"] * L, c["h"] * L
    base = case["LM"] if c["others"] else []
    k = c["kind"]
    if k == "couple" and case["GA"]:  # two transverse forces also shear the bit between them
        k = "shift"
    exact = [[i, 2, P, a]]
    if k == "udl":
        near = [[i, 3, P / (2 * h), a - h, 2 * h]]
    elif k == "trapezoid":  # resultant P at a: centroid of a triangle at 2/3
        near = [[i, 5, 0.0, 2 * P / (3 * h), a - 2 * h, 3 * h]]
    elif k == "triangles":
        near = [[i, 5, 0.0, P / h, a - h, h], [i, 5, P / h, 0.0, a, h]]
    elif k == "couple":  # P up and P down 2h apart: counter-clockwise moment 2 P h
        near = [[i, 2, -P / (2 * h), a + h], [i, 2, P / (2 * h), a - h]]
        exact = [[i, 4, P, a]]
    else:
        near = [[i, 2, P / 2, a - h], [i, 2, P / 2, a + h]]
    rec.cls(k)
    ref = gen.solved_reference(case, LM=base + exact, rc_min=1e-6)
    x, y = gen.analysed(case, 25, base + near), gen.analysed(case, 25, base + exact)
    F, M, d, th = cmp.scales(ref)
    # second order in h for a load spread about its centroid; a couple on the
    # stepped member is met to first order
    tol = max(60 * c["h"] ** 2, 1e-12 / ref.rc) * (30 if case["GA"] or any(isinstance(e, list) for e in case["EI"]) or k == "couple" else 1)
    nd = len(ref.nodal) // 2
    q = abs(P) * (1.0 if k == "couple" else max(case["L"])) * max(case["L"]) / gen.eimin(case)
    th, d = th + 0.1 * q, d + 0.1 * q * max(case["L"])
    cmp.close(x.beam_results.D, y.beam_results.D, tol * np.array([d, th] * nd), f"{k}: nodal displacements")
    rx, ry = total(x, case), total(y, case)
    cmp.close(rx, ry, tol * np.array([F, M] * nd), f"{k}: support forces")
    # diagrams away from the load
    X = np.asarray(y.beam_results.results.x, float)
    at = sum(case["L"][: i - 1]) + a
    far = np.abs(X - at) > 3.5 * h + 1e-9
    for q, s in (("V", F), ("M", M)):
        g, e = getattr(x.beam_results.results, q), getattr(y.beam_results.results, q)
        cmp.close(g[far], e[far], tol * s, f"{k}: {q} away from the load")
    rec.mark(abs(P) > 0.01 * F if k != "couple" else abs(P) > 0.01 * M)


CHECK = Check(
    "C34",
    "non-trivial = the change reduces the work or raises a frequency measurably / the model near the limit differs from it and is loaded",
    [
        Sub("compliance", comp_cases, compliance, 1200, 24000),
        Sub("frequencies", freq_cases, frequencies, 400, 8000),
        Sub("limits", limit_cases, limits, 1000, 20000),
        Sub("load_limits", load_cases, load_limits, 800, 16000),
    ],
    ["work is evaluated with nodal displacements; frequencies before and after use the same mesh, for which the theorem holds exactly"],
)
