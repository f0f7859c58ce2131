"""C11: Winkler-foundation members against the exact differential equation."""
import numpy as np
from hypothesis import strategies as st

from harness import cmp, gen
from harness.core import Check, Sub, require


def check(case, rec):
    ref = gen.solved_reference(case)
    ba = gen.analysed(case)
    gen.classify(case, rec)
    rec.mark(any(k is not None for k in case["kf"]))
    F, M, d, th = cmp.scales(ref)
    cmp.reactions(ba, ref, rtol=2e-4)
    cmp.nodal(ba, ref, rtol=2e-4)
    b = ba.beam_results
    x0 = 0.0
    for i, m in enumerate(ref.m):
        res = b.vRes[i]
        x = np.asarray(res.x[1:-1], float) - x0
        x0 += m.L
        require(abs(x[0]) < 1e-9 * m.L and abs(x[-1] - m.L) < 1e-9 * m.L and np.all(np.diff(x) > -1e-12 * m.L),
                f"stations do not run over member {i+1}")
        if m.kf is None:
            continue
        rec.cls("lam<1" if m.L < (4 * case["EI"][i] / m.kf) ** 0.25 else "lam>=1")
        s = np.clip(x, 0.0, m.L)
        psi, v = ref.RD(i, s)
        vmax = float(np.max(np.abs(v))) + 1e-30
        lam = (4 * case["EI"][i] / m.kf) ** 0.25
        h = min(lam, m.L) / 8.0  # documented coarsest mesh
        # forces inside a sub-element are those of an ordinary beam element, i.e.
        # exact up to the soil pressure acting on one sub-element
        tv = 0.75 * m.kf * vmax * h + 1e-3 * F
        tm = 0.25 * m.kf * vmax * h * h + 1e-3 * M
        for name, sign, t in (("V", 3, tv), ("M", 2, tm)):
            lo, hi = np.full(len(s), np.inf), np.full(len(s), -np.inf)
            for side in (-1, 1):
                val = ref.VM(i, s, side)[0 if name == "V" else 1]
                lo, hi = np.minimum(lo, val), np.maximum(hi, val)
            # a point load next to a station may fall on either side of it
            got = np.asarray(getattr(res, name), float)[1:-1]
            bad = np.maximum(lo - got, got - hi)
            if name == "V":
                for a, P in m.pts:
                    bad = np.where(np.abs(s - a) < 1e-8 * m.L, 0.0, bad)
            k = int(np.argmax(bad))
            require(bad[k] <= t, f"{name} in foundation member {i+1} at x={s[k]:.5g}: {got[k]:.8g}, exact {lo[k]:.8g}..{hi[k]:.8g}, tolerance {t:.3g}")
        eD = np.abs(np.asarray(res.D[1:-1]) - v)
        eR = np.abs(np.asarray(res.R[1:-1]) - psi)
        require(eD.max() <= 4e-3 * vmax + 2e-4 * d + 0.02 * F * h**3 / case["EI"][i], f"deflection of foundation member {i+1} off by {eD.max():.4g} (max {vmax:.4g})")
        require(eR.max() <= 0.02 * float(np.max(np.abs(psi))) + 2e-3 * th + 0.05 * F * h**2 / case["EI"][i], f"rotation of foundation member {i+1} off by {eR.max():.4g}")
    # loads = supports + soil pressure
    tot = 0.0
    for m in ref.m:
        tot += sum(P for _, P in m.pts) + sum(0.5 * (wa + wb) * (e - a) for a, e, wa, wb in m.dist)
    up, a, c = 0.0, 0, 0
    for i, r in enumerate(case["R"]):
        if r < 0:
            up += b.R[a] if i % 2 == 0 else 0.0
            a += 1
        elif r > 0:
            up += b.Rs[c] if i % 2 == 0 else 0.0
            c += 1
    soil, mag = 0.0, 0.0
    for i, m in enumerate(ref.m):
        if m.kf is not None:
            res = b.vRes[i]
            soil -= m.kf * np.trapezoid(res.D[1:-1], res.x[1:-1])
            mag += m.kf * np.trapezoid(np.abs(res.D[1:-1]), res.x[1:-1])
    require(abs(up + soil - tot) <= 5e-3 * (mag + F), f"supports {up:.8g} + soil {soil:.8g} do not carry the load {tot:.8g}")


@st.composite
def soft(draw):
    """A vanishing modulus gives the ordinary beam; a long beam the infinite-beam solution."""
    L = draw(gen.lengths(4, 20))
    E = draw(st.sampled_from([1e3, 2e4, 5e5]))
    P = draw(gen.mags(50))
    lam = draw(st.sampled_from([0.2, 0.5, 1.0]))
    return {"L": L, "E": E, "P": P, "nlam": draw(st.sampled_from([14, 20, 26])), "lam": lam}


def infinite(case, rec):
    """Hetenyi's infinite beam under a central point load."""
    import pycba

    lam = case["lam"]
    Lt = lam * case["nlam"]
    EI, P = case["E"], case["P"]
    kf = 4 * EI / lam**4
    b = 1.0 / lam
    LM = [[1, 2, P, Lt / 2]]
    ba = pycba.BeamAnalysis([Lt], EI, [0, 0, 0, 0], LM, [1], kf=kf)
    require(ba.analyze() == 0, "analysis failed")
    rec.mark()
    r = ba.beam_results.vRes[0]
    x = np.asarray(r.x[1:-1]) - Lt / 2
    z = np.abs(b * x)
    D = -P * b / (2 * kf) * np.exp(-z) * (np.cos(z) + np.sin(z))
    M = P / (4 * b) * np.exp(-z) * (np.cos(z) - np.sin(z))
    e = np.abs(r.D[1:-1] - D).max() / np.abs(D).max()
    require(e < 5e-3, f"central point load on a long beam: deflection off by {e:.3g} of the peak")
    e = np.abs(r.M[1:-1] - M).max() / np.abs(M).max()
    require(e < 0.03, f"central point load on a long beam: moment off by {e:.3g} of the peak")


CHECK = Check(
    "C11",
    "non-trivial = at least one member on a foundation",
    [
        Sub("reference", lambda: gen.any_npts(gen.beams(max_spans=3, found=True, types=(1, 2, 3), lhi=20.0), (None, None, None, 160, 333, 1000)), check, 700, 14000),
        Sub("infinite_beam", soft, infinite, 60, 400),
    ],
    [
        "forces inside a foundation member are those of the documented sub-element mesh (>= 8 per characteristic length); "
        "the tolerance is the soil pressure carried by one such sub-element",
    ],
)
