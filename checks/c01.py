"""C01: every reported force field satisfies statics, judged from pycba's own output."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Check, SkipCase, Sub, require
from harness.refbeam import Member


def members(case):
    ms = [Member(L, 1.0) for L in case["L"]]
    for r in case["LM"]:
        if r[1] != 6:
            ms[int(r[0]) - 1].add(r)
    return ms


def scale(case, ba):
    ms = members(case)
    tot = sum(abs(P) for m in ms for _, P in m.pts)
    tot += sum(0.5 * (abs(a) + abs(b)) * (x1 - x0) for m in ms for x0, x1, a, b in m.dist)
    tot += sum(abs(c) / m.L for m in ms for _, c in m.moms)
    br = ba.beam_results
    Lm = max(case["L"])
    F = tot
    for i, r in enumerate(_full(case, br)):
        F = max(F, abs(r) / (Lm if i % 2 else 1.0))
    F = max(F, np.max(np.abs(br.results.V)), np.max(np.abs(br.results.M)) / Lm)
    EI = max(max(s["ei"]) if isinstance(s["ei"], list) else s["ei"]
             for e in case["EI"] for s in (e if isinstance(e, list) else [{"ei": e}]))
    th = max(np.max(np.abs(br.D[1::2])), np.max(np.abs(br.D[0::2])) / min(case["L"]))
    # round-off floor of a stiffness solution: eps * EI * rotation / L^2
    return max(F, 3e-9 * EI * th / min(case["L"]) ** 2 * 10, 1e-30)


def _full(case, br):
    """Support + spring force at every dof, zero at free dofs."""
    out, ir, isp = [], 0, 0
    for r in case["R"]:
        if r < 0:
            out.append(float(br.R[ir])); ir += 1
        elif r > 0:
            out.append(float(br.Rs[isp])); isp += 1
        else:
            out.append(0.0)
    require(ir == len(br.R), f"{len(br.R)} reactions for {ir} fixed dofs")
    require(isp == len(br.Rs), f"{len(br.Rs)} spring forces for {isp} spring dofs")
    return out


def check(case, rec, npts=None):
    ref = gen.solved_reference(case, rc_min=1e-7)  # only to stay in the stable domain
    ba = gen.analysed(case, npts)
    br = ba.beam_results
    gen.classify(case, rec)
    rec.mark(len(case["L"]) > 1 or case["R"][1] != 0 or case["R"][-1] != 0)
    F = scale(case, ba)
    tol = max(1e-6, 1e-13 / ref.rc) * F
    Lt = sum(case["L"])
    ms = members(case)
    r = _full(case, br)
    x0 = np.concatenate([[0.0], np.cumsum(case["L"])])
    # global equilibrium
    tot = mom = 0.0
    for m, xo in zip(ms, x0):
        for a, P in m.pts:
            tot += P
            mom += P * (xo + a)
        for a, b, wa, wb in m.dist:
            w = 0.5 * (wa + wb) * (b - a)
            tot += w
            mom += w * (xo + a) + (b - a) ** 2 * (wa / 6 + wb / 3)
        for a, mm in m.moms:
            mom -= mm
    sr = sum(r[0::2])
    require(abs(sr - tot) <= tol, f"vertical equilibrium: reactions {sr:.10g}, loads {tot:.10g}")
    sm = sum(r[2 * i] * x0[i] + r[2 * i + 1] for i in range(len(x0)))
    require(abs(sm - mom) <= tol * Lt, f"moment equilibrium: reactions {sm:.10g}, loads {mom:.10g}")
    # member statics
    ends = []
    for i, m in enumerate(ms):
        res = br.vRes[i]
        require(np.all(np.isfinite(res.V)) and np.all(np.isfinite(res.M)), "non-finite V or M")
        s = np.asarray(res.x[1:-1], float) - x0[i]
        require(abs(s[0]) < 1e-9 * Lt and abs(s[-1] - m.L) < 1e-9 * Lt, "stations do not cover the member")
        require(np.all(np.diff(s) > 0), "stations not increasing")
        dis = np.array([a for a, _ in m.moms] + [a for a, _ in m.pts] + [0.0, m.L])
        j = np.argmin(np.abs(s[:, None] - dis), axis=1)
        s = np.where(np.abs(s - dis[j]) < 1e-8 * m.L, dis[j], s)
        M = np.asarray(res.M[1:-1], float)
        V = np.asarray(res.V[1:-1], float)
        VL, ML = m.ss(s, -1, V0=0.0, M0=0.0)
        VR, MR = m.ss(s, +1, V0=0.0, M0=0.0)
        ok = np.array([not any(abs(x - a) < 1e-8 * m.L for a, _ in m.moms) for x in s])
        if ok.sum() < 4:
            raise SkipCase("too few smooth stations")
        A = np.column_stack([np.ones(ok.sum()), s[ok] / m.L])
        sol, *_ = np.linalg.lstsq(A, M[ok] - ML[ok], rcond=None)
        M0, V0 = sol[0], sol[1] / m.L
        tm = tol * m.L
        lo, hi = np.minimum(ML, MR) + M0 + V0 * s, np.maximum(ML, MR) + M0 + V0 * s
        bad = np.maximum(lo - M, M - hi)
        k = int(np.argmax(bad))
        require(bad[k] <= tm, f"M in member {i+1} is not in equilibrium with its loads at x={s[k]:.6g}: off by {bad[k]:.4g}")
        lo, hi = np.minimum(VL, VR) + V0, np.maximum(VL, VR) + V0
        bad = np.maximum(lo - V, V - hi)
        k = int(np.argmax(bad))
        require(bad[k] <= tol, f"V in member {i+1} is not the slope of M at x={s[k]:.6g}: off by {bad[k]:.4g}")
        Ve, Me = m.ss(np.array([m.L]), +1, V0=V0, M0=M0)
        ends.append((V0, M0, float(Ve[0]), float(Me[0])))
    # joints
    n = len(ms)
    for k in range(n + 1):
        Vl, Ml = (ends[k - 1][2], ends[k - 1][3]) if k > 0 else (0.0, 0.0)
        Vr, Mr = (ends[k][0], ends[k][1]) if k < n else (0.0, 0.0)
        require(abs(Vr - Vl - r[2 * k]) <= 2 * tol, f"node {k}: shear jump {Vr - Vl:.8g} is not the reaction {r[2*k]:.8g}")
        require(abs(Ml - Mr - r[2 * k + 1]) <= 2 * tol * Lt, f"node {k}: moment jump {Ml - Mr:.8g} is not the reaction {r[2*k+1]:.8g}")
    for i, e in enumerate(case["et"]):
        if e in (3, 4):
            require(abs(ends[i][1]) <= tol * Lt, f"moment {ends[i][1]:.6g} at the released left end of member {i+1}")
        if e in (2, 4):
            require(abs(ends[i][3]) <= tol * Lt, f"moment {ends[i][3]:.6g} at the released right end of member {i+1}")


def check_n(c, rec):
    case, npts, k = c
    if k != 1.0:  # the same loads and settlements, all much smaller or larger
        scaled = lambda r: list(r[:2]) + [v * k if j == 0 or r[1] == 6 or (r[1] == 5 and j == 1) else v for j, v in enumerate(r[2:])]
        case = dict(case, LM=[scaled(r) for r in case["LM"]])
        if case.get("D"):
            case["D"] = [d if d is None else d * k for d in case["D"]]
        rec.cls(f"loads times {k:g}")
    check(case, rec, npts)


def mixed():
    return st.one_of(
        gen.beams(max_spans=6, types=(1, 2, 3, 4, 5, 6)),
        gen.beams(max_spans=3, nonprismatic=True, types=(1, 2, 3, 4, 5, 6)),
        gen.beams(max_spans=3, timo=True),
    )


CHECK = Check(
    "C01",
    "non-trivial = more than one member, or a moment-resisting outer support",
    [Sub("statics", lambda: st.tuples(mixed(), st.sampled_from([None, None, 7, 20, 150, 1200]), st.sampled_from([1.0, 1.0, 1.0, 1e-9, 1e-4, 1e6])), check_n, 1200, 24000)],
    ["statics only: the oracle is the applied loads, not another stiffness analysis"],
)
