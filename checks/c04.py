"""C04: turning the beam end for end turns every result end for end."""
import numpy as np
from hypothesis import strategies as st

from checks.c03 import fields, scales
from harness import cmp, gen
from harness.core import Check, Sub, require

REV = {1: 1, 2: 3, 3: 2, 4: 4}


def mirror_secs(v, L):
    if not isinstance(v, list):
        return v
    out = []
    for s in reversed(v):
        x = [L - q for q in reversed(s["x"])]
        x = [0.0 if abs(q) < 1e-12 * L else q for q in x]
        e = s["ei"] if not isinstance(s["ei"], list) else s["ei"][::-1]
        out.append({"kind": s["kind"], "x": x, "ei": e})
    # neighbouring pieces must share their boundary exactly
    for a, b in zip(out[:-1], out[1:]):
        b["x"][0] = a["x"][-1]
    out[-1]["x"][-1] = L
    return out


def mirror_row(r, Ls):
    i, t = r[0], r[1]
    L = Ls[i - 1]
    j = len(Ls) + 1 - i
    if t == 1:
        return [j, 1, r[2]]
    if t == 2:
        return [j, 2, r[2], L - r[3]]
    if t == 3:
        b = min(r[3] + r[4], L)
        return [j, 3, r[2], L - b, b - r[3]]
    if t == 4:
        return [j, 4, -r[2], L - r[3]]
    if t == 5:
        a, c = gen.cover(r, L)
        b = min(a + c, L)
        wb = r[2] + (r[3] - r[2]) * (b - a) / c
        return [j, 5, wb, r[2], L - b, b - a]
    # kappa(L - x)
    p = np.polynomial.Polynomial(r[2:])(np.polynomial.Polynomial([L, -1.0]))
    return [j, 6] + [float(c) for c in p.coef]


def mirror(case):
    Ls = case["L"]
    n = len(Ls)
    R, D = [], None if case["D"] is None else []
    for k in range(n, -1, -1):
        R += case["R"][2 * k : 2 * k + 2]
        if D is not None:
            v, t = case["D"][2 * k : 2 * k + 2]
            D += [v, None if t is None else -t]
    return {
        "npts": case.get("npts"),
        "L": Ls[::-1],
        "EI": [mirror_secs(e, L) for e, L in zip(case["EI"], Ls)][::-1],
        "et": [REV[e] for e in case["et"]][::-1],
        "R": R,
        "D": D,
        "GA": None if not case["GA"] else [mirror_secs(g, L) for g, L in zip(case["GA"], Ls)][::-1],
        "kf": None if not case["kf"] else case["kf"][::-1],
        "LM": [mirror_row(r, Ls) for r in case["LM"]],
    }


def check(case, rec):
    ref = gen.solved_reference(case, rc_min=1e-7)
    rt = max(1e-6, 1e-13 / ref.rc)
    gen.classify(case, rec)
    m = mirror(case)
    rec.mark(repr(m) != repr(case))
    b1, b2 = gen.analysed(case), gen.analysed(m)
    f1 = fields(b1)
    sc = scales(case, f1, LM=case["LM"])
    F, Lx = sc["V"], max(case["L"])
    n = len(case["L"])
    u1, u2 = f1["u"], b2.beam_results.D
    for k in range(n + 1):
        j = n - k
        require(abs(u2[2 * j] - u1[2 * k]) <= rt * sc["defl"], f"node {k}: mirrored deflection {u2[2*j]:.8g} vs {u1[2*k]:.8g}")
        require(abs(u2[2 * j + 1] + u1[2 * k + 1]) <= rt * sc["rot"], f"node {k}: mirrored rotation {u2[2*j+1]:.8g} vs {-u1[2*k+1]:.8g}")

    def react(case, ba):
        out, a, b = {}, 0, 0
        for i, r in enumerate(case["R"]):
            if r < 0:
                out[i] = ba.beam_results.R[a]; a += 1
            elif r > 0:
                out[i] = ba.beam_results.Rs[b]; b += 1
        return out

    r1, r2 = react(case, b1), react(m, b2)
    for i, v in r1.items():
        k, d = divmod(i, 2)
        w = r2[2 * (n - k) + d] * (-1 if d else 1)
        require(abs(w - v) <= rt * F * (Lx if d else 1), f"reaction at node {k}, dof {d}: {v:.8g} mirrored gives {w:.8g}")
    # V and M at mirrored stations, away from concentrated loads
    for i in range(n):
        L = case["L"][i]
        a, b = b1.beam_results.vRes[i], b2.beam_results.vRes[n - 1 - i]
        xa = a.x[1:-1] - a.x[0]
        xb = L - (b.x[1:-1] - b.x[0])[::-1]
        require(len(xa) == len(xb), "station count changed by mirroring")
        if case["kf"] and case["kf"][i] is not None:
            # sub-element boundaries carry two stations; see C11
            s, t = (L * np.arange(1, 24) / 24, a.x[0]), b.x[0]
            d1, r1_ = (np.interp(s[0], xa, q[1:-1]) for q in (a.D, a.R))
            d2, r2_ = (np.interp(L - s[0], b.x[1:-1] - t, q[1:-1]) for q in (b.D, b.R))
            lam = (4 * case["EI"][i] / case["kf"][i]) ** 0.25
            h = min(lam, L) / 8.0
            tD = 8e-3 * np.max(np.abs(d1)) + 4e-4 * sc["defl"] + 0.04 * F * h**3 / case["EI"][i]
            tR = 0.04 * np.max(np.abs(r1_)) + 4e-3 * sc["rot"] + 0.1 * F * h**2 / case["EI"][i]
            require(np.max(np.abs(d1 - d2)) <= tD, f"deflection of foundation member {i+1} not mirrored (off by {np.max(np.abs(d1 - d2)):.4g})")
            require(np.max(np.abs(r1_ + r2_)) <= tR, f"rotation of foundation member {i+1} not mirrored (off by {np.max(np.abs(r1_ + r2_)):.4g})")
            continue
        _, _, tR, tD = cmp.disp_tol(ref, i, np.clip(xa, 0.0, L))
        eD, eR = np.max(np.abs(a.D[1:-1] - b.D[1:-1][::-1])), np.max(np.abs(a.R[1:-1] + b.R[1:-1][::-1]))
        require(eD <= 2 * tD + rt * sc["defl"], f"deflection of member {i+1} not mirrored (off by {eD:.4g})")
        require(eR <= 2 * tR + rt * sc["rot"], f"rotation of member {i+1} not mirrored (off by {eR:.4g})")
        require(np.allclose(xa, xb, atol=1e-9 * L), "stations not mirrored")
        keep = np.ones(len(xa), bool)
        for r in case["LM"]:
            if r[0] == i + 1 and r[1] in (2, 4):
                keep &= np.abs(xa - r[3]) > 1e-8 * L
        dM = np.abs(a.M[1:-1] - b.M[1:-1][::-1])[keep]
        dV = np.abs(a.V[1:-1] + b.V[1:-1][::-1])[keep]
        require(dM.size == 0 or dM.max() <= rt * F * Lx, f"M in member {i+1} not mirrored (off by {dM.max() if dM.size else 0:.4g})")
        require(dV.size == 0 or dV.max() <= rt * F, f"V in member {i+1} not mirrored (off by {dV.max() if dV.size else 0:.4g})")


def strat():
    return gen.any_npts(st.one_of(
        gen.beams(max_spans=5, types=(1, 2, 3, 4, 5, 6)),
        gen.beams(max_spans=3, nonprismatic=True, types=(1, 2, 3, 4, 5, 6)),
        gen.beams(max_spans=3, timo=True),
        gen.beams(max_spans=2, timo=True, nonprismatic=True),
        gen.beams(max_spans=3, found=True, types=(1, 2, 3)),
    ), (None, None, None, None, 26, 64, 151, 500))


CHECK = Check(
    "C04",
    "non-trivial = the mirrored model differs from the original",
    [Sub("mirror", strat, check, 2000, 40000)],
    ["either one-sided value is acceptable at a concentrated load"],
)
