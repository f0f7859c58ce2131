"""C03: linear superposition and load equivalence."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Check, Sub, require


def fields(ba):
    b = ba.beam_results
    return {"R": b.R, "Rs": b.Rs, "u": b.D, "V": b.results.V, "M": b.results.M, "rot": b.results.R, "defl": b.results.D}


def run(case, LM, D):
    return fields(gen.analysed(dict(case, D=D), LM=LM))


def same(got, exp, sc, rt, what):
    for k in exp:
        a, b = np.asarray(got[k], float), np.asarray(exp[k], float)
        require(a.shape == b.shape, f"{what}: {k} has shape {a.shape}, expected {b.shape}")
        if a.size == 0:
            continue
        t = rt * max(sc[k], 1e-300)
        e = np.abs(a - b)
        i = int(np.argmax(e))
        require(np.all(np.isfinite(a)) and e.flat[i] <= t, f"{what}: {k}[{i}] = {a.flat[i]:.10g}, expected {b.flat[i]:.10g} (tolerance {t:.3g})")


def scales(case, *fs, LM=()):
    sc = {k: max([float(np.max(np.abs(f[k]))) if len(f[k]) else 0.0 for f in fs]) for k in fs[0]}
    L = max(case["L"])
    Lm = min(case["L"])
    EI = gen.eimax(case)
    th = max(sc["rot"], sc["defl"] / L, sc["u"] / L)
    F = max(sc["V"], sc["M"] / L, 1e-6 * EI * th / Lm**2, gen.load_force(case, LM), 1e-9)
    th = max(th, 1e-3 * F * Lm**2 / EI)
    M = F * L
    sc["V"] = sc["R"] = sc["Rs"] = max(F, sc["R"] if sc["R"] else 0)
    sc["M"] = M
    sc["R"] = max(sc["R"], F * max(L, 1.0))
    sc["Rs"] = max(sc["Rs"], F * max(L, 1.0))
    d = max(th * L, sc["defl"], sc["u"])
    sc["defl"] = d
    sc["u"] = max(d, th)
    sc["rot"] = max(th, d / L)
    return sc


def rt_of(case):
    return max(1e-7, 1e-13 / gen.solved_reference(case, rc_min=1e-7).rc)


def L_(case):
    return max(case["L"])


def superpose(c, rec):
    from pycba import add_LM, factor_LM

    case, LM2, a, b = c["beam"], c["LM2"], c["a"], c["b"]
    rt = rt_of(case)
    gen.classify(case, rec)
    A, B = case["LM"], LM2
    snap = repr((A, B))
    comb = add_LM(factor_LM(A, a), factor_LM(B, b))
    require(repr((A, B)) == snap, "factor_LM/add_LM changed their inputs")
    fc = run(case, comb, case["D"])
    fa, fb = run(case, A, None), run(case, B, None)
    exp = {k: a * fa[k] + b * fb[k] for k in fa}
    if case["D"] is not None:
        f0 = run(case, [], case["D"])
        exp = {k: exp[k] + f0[k] for k in exp}
        D2 = [None if d is None else -1.5 * d for d in case["D"]]
        f1 = run(case, [], D2)
        sc = scales(case, f0)
        same(f1, {k: -1.5 * f0[k] for k in f0}, sc, rt, "settlement scaled by -1.5")
        fs = [fc, fa, fb, f0]
    else:
        fs = [fc, fa, fb]
    rec.mark(len(A) + len(B) > 1)
    sc = scales(case, *fs, {k: a * fa[k] for k in fa}, {k: b * fb[k] for k in fb}, LM=A + B)
    if any(e != 1 for e in case["et"]) and any(r[1] == 6 for r in comb):
        # the end rotation of a released member is recovered by another (equally
        # documented) route as soon as a curvature is imposed: equal up to the
        # error of the trapezoidal moment-area integration
        h = 0.02 if any(r[1] == 4 for r in comb) else 2e-3
        slack = h * sc["M"] * L_(case) / gen.eimin(case)
        sc = dict(sc, rot=sc["rot"] + slack / rt, defl=sc["defl"] + slack * L_(case) / rt)
    same(fc, exp, sc, rt, "factored combination")
    # the order of the loads is irrelevant
    same(run(case, comb[::-1], case["D"]), fc, sc, rt, "loads in reverse order")


def superpose_st():
    base = st.one_of(
        gen.beams(max_spans=4, types=(1, 2, 3, 4, 5, 6)),
        gen.beams(max_spans=2, nonprismatic=True, types=(1, 2, 3, 4, 5, 6)),
        gen.beams(max_spans=3, timo=True),
        gen.beams(max_spans=3, found=True, types=(1, 2, 3)),
    )

    def second(case):
        types = (1, 2, 3) if case["kf"] else (1, 2, 3, 4, 5, 6)
        if case["GA"]:
            types = (1, 2, 3, 4, 5)
        return st.fixed_dictionaries({
            "beam": st.just(case),
            "LM2": gen.load_matrix(case["L"], types, 1, 3),
            "a": st.sampled_from([1.0, -1.0, 1.35, 0.5, 2.0, -0.7, 0.0, 3.25]),
            "b": st.sampled_from([1.0, 1.5, -1.0, 0.3, 2.5]),
        })

    return base.flatmap(second)


def equivalent(c, rec):
    """Different documented spellings of the same physical load."""
    case, k = c["beam"], c["kind"]
    rt = rt_of(case)
    i = c["span"]
    L = case["L"][i - 1]
    w, w2, f, g = c["w"], c["w2"], c["f"], c["g"]
    if k == "udl=pudl":
        A, B = [[i, 1, w]], [[i, 3, w, 0.0, L]]
    elif k == "udl=trap":
        A, B = [[i, 1, w]], [[i, 5, w, w]]
    elif k == "pudl=trap":
        A, B = [[i, 3, w, f * L, (1 - f) * g * L]], [[i, 5, w, w, f * L, (1 - f) * g * L]]
    elif k == "udl=parts":
        A, B = [[i, 1, w]], [[i, 3, w, 0.0, f * L], [i, 3, w, f * L, L - f * L]]
    elif k == "trap=parts":
        m = w + (w2 - w) * f
        A, B = [[i, 5, w, w2]], [[i, 5, w, m, 0.0, f * L], [i, 5, m, w2, f * L, L - f * L]]
    elif k == "trap=tri":
        A, B = [[i, 5, w, w2]], [[i, 5, w, 0.0], [i, 5, 0.0, w2]]
    elif k == "pl=2pl":
        A, B = [[i, 2, w, f * L]], [[i, 2, w - w2, f * L], [i, 2, w2, f * L]]
    elif k == "ml=2ml":
        A, B = [[i, 4, w, f * L]], [[i, 4, w - w2, f * L], [i, 4, w2, f * L]]
    elif k == "node-pl":  # a load on a shared node may be given on either member
        if i == len(case["L"]):
            i = 1
        if i + 1 > len(case["L"]):
            A, B = [[i, 1, w]], [[i, 3, w, 0.0, L]]
        else:
            A, B = [[i, 2, w, case["L"][i - 1]]], [[i + 1, 2, w, 0.0]]
    elif k == "node-ml":
        et = case["et"]
        if i == len(case["L"]):
            i = max(1, i - 1)
        if i + 1 > len(case["L"]) or et[i - 1] in (2, 4) or et[i] in (3, 4):
            A, B = [[i, 4, w, f * case["L"][i - 1]]], [[i, 4, 0.5 * w, f * case["L"][i - 1]]] * 2
        else:
            A, B = [[i, 4, w, case["L"][i - 1]]], [[i + 1, 4, w, 0.0]]
    else:
        A, B = [[i, 6, w * 1e-5, w2 * 1e-5 / L]], [[i, 6, w * 1e-5], [i, 6, 0.0, w2 * 1e-5 / L]]
    rec.cls(k)
    rec.mark()
    gen.classify(dict(case, LM=[]), rec)
    fa, fb = run(case, A, case["D"]), run(case, B, case["D"])
    if k == "node-pl":
        fa = {q: fa[q] for q in ("R", "Rs", "u", "M")}
        fb = {q: fb[q] for q in ("R", "Rs", "u", "M")}
        full = run(case, A, case["D"])
        sc = scales(case, full, LM=A)
    else:
        sc = scales(case, fa, fb, LM=A + B)
    same(fa, fb, sc, max(rt, 1e-6), k)


def equivalent_st():
    base = st.one_of(
        gen.beams(max_spans=3, types=(1,)),
        gen.beams(max_spans=2, nonprismatic=True, types=(1,)),
        gen.beams(max_spans=2, timo=True, types=(1,)),
    )
    kinds = ["udl=pudl", "udl=trap", "pudl=trap", "udl=parts", "trap=parts", "trap=tri", "pl=2pl", "ml=2ml", "node-pl", "node-ml"]

    def rest(case):
        ks = kinds + ([] if case["GA"] else ["ic=2ic"])
        return st.fixed_dictionaries({
            "beam": st.just(case),
            "kind": st.sampled_from(ks),
            "span": st.integers(1, len(case["L"])),
            "w": gen.mags(60),
            "w2": gen.mags(60),
            "f": gen.frac(False).map(lambda f: min(max(f, 0.01), 0.99)),
            "g": gen.frac(False).map(lambda f: min(max(f, 0.01), 0.99)),
        })

    return base.flatmap(rest)


def scale_case(case, lam, phi):
    """The same structure described in other consistent units."""
    ei = phi * lam**2

    def sec(v, k):
        if v is None:
            return None
        if isinstance(v, list):
            return [{"kind": s["kind"], "x": [q * lam for q in s["x"]],
                     "ei": [q * k for q in s["ei"]] if isinstance(s["ei"], list) else s["ei"] * k} for s in v]
        return v * k

    def row(r):
        i, t = r[:2]
        if t == 1:
            return [i, t, r[2] * phi / lam]
        if t == 2:
            return [i, t, r[2] * phi, r[3] * lam]
        if t == 3:
            return [i, t, r[2] * phi / lam, r[3] * lam, r[4] * lam]
        if t == 4:
            return [i, t, r[2] * phi * lam, r[3] * lam]
        if t == 5:
            return [i, t, r[2] * phi / lam, r[3] * phi / lam] + [q * lam for q in r[4:]]
        return [i, t] + [q / lam ** (j + 1) for j, q in enumerate(r[2:])]

    R = []
    for j, r in enumerate(case["R"]):
        R.append(r if r <= 0 else (r * phi / lam if j % 2 == 0 else r * phi * lam))
    D = None
    if case["D"] is not None:
        D = [None if d is None else (d * lam if j % 2 == 0 else d) for j, d in enumerate(case["D"])]
    out = dict(case, L=[q * lam for q in case["L"]], EI=[sec(e, ei) for e in case["EI"]], R=R, D=D,
               LM=[row(r) for r in case["LM"]])
    if case["GA"]:
        out["GA"] = [sec(g, phi) for g in case["GA"]]
    if case["kf"]:
        out["kf"] = [None if k is None else k * phi / lam**2 for k in case["kf"]]
    return out


def units(c, rec):
    case, lam, phi = c["beam"], c["lam"], c["phi"]
    rt = rt_of(case)
    ref2 = gen.solved_reference(scale_case(case, lam, phi), rc_min=1e-7)
    rt = max(rt, 1e-13 / ref2.rc, 1e-6)
    if case["kf"]:
        rt = max(rt, 1e-4)  # the internal mesh may round to one more sub-element
    gen.classify(case, rec)
    rec.mark(lam != 1 or phi != 1)
    ba1 = gen.analysed(case)
    f1 = fields(ba1)
    # at a concentrated load either one-sided value may be reported
    dis = [sum(case["L"][: int(r[0]) - 1]) + r[3] for r in case["LM"] if r[1] in (2, 4)]
    x = ba1.beam_results.results.x
    keep = np.ones(len(x), bool)
    for a in dis:
        keep &= np.abs(x - a) > 1e-8 * sum(case["L"])
    f2 = fields(gen.analysed(scale_case(case, lam, phi)))
    fx = [phi * (lam if i % 2 else 1) for i, r in enumerate(case["R"]) if r < 0]
    fs = [phi * (lam if i % 2 else 1) for i, r in enumerate(case["R"]) if r > 0]
    ux = np.array([1.0 if i % 2 else lam for i in range(len(case["R"]))])
    exp = {"R": f1["R"] * fx, "Rs": f1["Rs"] * fs, "u": f1["u"] * ux, "V": f1["V"] * phi,
           "M": f1["M"] * phi * lam, "rot": f1["rot"], "defl": f1["defl"] * lam}
    sc1 = scales(case, f1, LM=case["LM"])
    sc = {"V": sc1["V"] * phi, "M": sc1["M"] * phi * lam, "rot": sc1["rot"], "defl": sc1["defl"] * lam}
    L = max(case["L"])
    for key, w in (("R", -1), ("Rs", 1)):
        idx = [i for i, r in enumerate(case["R"]) if (r < 0) == (w < 0) and r != 0]
        tol = np.array([(sc1["V"] * phi) * (L * lam if i % 2 else 1) for i in idx])
        e = np.abs(f2[key] - exp[key])
        require(np.all(e <= rt * tol * 2), f"rescaled units: {key} = {f2[key]}, expected {exp[key]}")
    # integration over a jump of curvature on a station may fall either side of it
    hj = 0.02 * L * sum(abs(r[2]) for r in case["LM"] if r[1] == 4)
    if any(isinstance(e, list) for e in case["EI"]):
        hj += 0.02 * L * sc1["M"]
    hj /= gen.eimin(case)
    if case["GA"]:  # likewise a jump of shear strain
        gmin = min(min(min(np.atleast_1d(s["ei"])) for s in g) if isinstance(g, list) else g
                   for g in case["GA"] if g is not None)
        hj += 0.02 * sc1["V"] / gmin * L / min(case["L"])
    sc["rot"] += hj / rt
    sc["defl"] += hj * lam * L / rt
    for k in ("V", "M", "rot", "defl"):
        m = keep if k in "VM" else slice(None)
        if case["kf"] and f2[k].shape != exp[k].shape:
            rec.cls("mesh-rounded")
            continue
        require(f2[k].shape == exp[k].shape, "number of stations depends on the units")
        same({k: f2[k][m]}, {k: exp[k][m]}, sc, rt, f"lengths x{lam}, forces x{phi}")


def units_st():
    base = st.one_of(
        gen.beams(max_spans=4, types=(1, 2, 3, 4, 5, 6)),
        gen.beams(max_spans=2, nonprismatic=True, types=(1, 2, 3, 4, 5, 6)),
        gen.beams(max_spans=2, timo=True),
        gen.beams(max_spans=2, found=True, types=(1, 2, 3)),
    )
    return st.fixed_dictionaries({
        "beam": base,
        "lam": st.sampled_from([1000.0, 0.001, 3.280839895, 39.37007874, 0.5, 1.0]),
        "phi": st.sampled_from([1000.0, 0.001, 0.2248089431, 2.0, 1.0]),
    })


CHECK = Check(
    "C03",
    "non-trivial = at least two loads combined / an equivalence actually applied",
    [
        Sub("superposition", superpose_st, superpose, 1600, 30000),
        Sub("equivalent_loads", equivalent_st, equivalent, 1600, 30000),
    ],
    ["floating-point round-off bounded relative to the largest force/displacement of the case"],
)
