"""Comparison of pycba results against the reference fields."""
from __future__ import annotations

import numpy as np

from .core import require


def close(a, b, tol, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}")
    require(np.all(np.isfinite(a)), f"{what}: not finite", a)
    if a.size == 0:
        return
    err = np.abs(a - b)
    k = int(np.argmax(err - tol))
    t = np.broadcast_to(np.asarray(tol, float), a.shape).ravel()[k]
    require(
        err.ravel()[k] <= t,
        f"{what}: got {a.ravel()[k]:.10g}, expected {b.ravel()[k]:.10g} "
        f"(index {k}, error {err.ravel()[k]:.3g} > tolerance {t:.3g})",
    )


def scales(ref):
    """Force, moment, displacement and rotation scales of a solved reference."""
    F = 1e-12
    M = 1e-12
    for m, f in zip(ref.m, ref.f):
        F = max(F, abs(f[0]), abs(f[2]), abs(f[1]) / m.L, abs(f[3]) / m.L)
        F = max(F, sum(abs(P) for _, P in m.pts), sum(abs(x) / m.L for _, x in m.moms))
        F = max(F, sum(0.5 * (abs(wa) + abs(wb)) * (b - a) for a, b, wa, wb in m.dist))
    Lx = max(m.L for m in ref.m)
    M = F * Lx
    EI = min(min(np.min(np.abs(c[0])) for _, _, c in m.EI) for m in ref.m)
    th = max(np.max(np.abs(ref.nodal[1::2])), np.max(np.abs(ref.nodal[0::2])) / Lx, M * Lx / EI * 1e-3)
    for m in ref.m:
        th = max(th, abs(m.kap(np.linspace(0.0, m.L, 9))).max() * m.L)
    # round-off floor: a rigid-body or restraint-free displacement d gives forces
    # of the order eps * EI d / L^3 in any stiffness solution
    for m in ref.m:
        EIm = max(np.max(np.abs(m.EIx(np.array([0.0, m.L / 2, m.L])))), EI)
        F = max(F, 1e-5 * EIm * th / m.L**2)
    M = max(M, F * Lx)
    return F, M, th * Lx, th


def reactions(ba, ref, rtol=1e-7, forces_scale=None):
    F, M, _, _ = scales(ref)
    rt = max(rtol, 1e-13 / max(ref.rc, 1e-12))
    exp = np.array([v for _, v in sorted(ref.reac.items())])
    tol = np.array([rt * (F if i % 2 == 0 else M) for i in sorted(ref.reac)])
    close(ba.beam_results.R, exp, tol if len(tol) else 0.0, "support reactions")
    exp = np.array([v for _, v in sorted(ref.springs.items())])
    tol = np.array([rt * (F if i % 2 == 0 else M) for i in sorted(ref.springs)])
    close(ba.beam_results.Rs, exp, tol if len(tol) else 0.0, "spring forces")


def nodal(ba, ref, rtol=1e-7):
    """Nodal displacements (rotation dofs where every member end is released are free)."""
    _, _, d, th = scales(ref)
    rt = max(rtol, 1e-13 / max(ref.rc, 1e-12))
    tol = np.array([rt * (d if i % 2 == 0 else th) for i in range(len(ref.nodal))])
    close(ba.beam_results.D, ref.nodal, tol, "nodal displacements")


def forces(ba, ref, rtol=1e-7, which=("V", "M")):
    """V and M at every station; either one-sided limit at a discontinuity."""
    F, M, _, _ = scales(ref)
    rt = max(rtol, 1e-13 / max(ref.rc, 1e-12))
    x0 = 0.0
    for i, m in enumerate(ref.m):
        res = ba.beam_results.vRes[i]
        s = np.asarray(res.x[1:-1], float) - x0
        x0 += m.L
        snap = np.array([a for a, _ in m.pts] + [a for a, _ in m.moms] + [0.0, m.L])
        j = np.argmin(np.abs(s[:, None] - snap[None, :]), axis=1)
        near = np.abs(s - snap[j]) < 1e-8 * m.L
        s = np.where(near, snap[j], s)
        s = np.clip(s, 0.0, m.L)
        VL, ML = ref.VM(i, s, -1)
        VR, MR = ref.VM(i, s, +1)
        # a couple exactly at a member end belongs to the member: the stations at
        # the two ends report the moment on its inner side
        if m.moms:
            ends = [q for q, a in ((0, 0.0), (-1, m.L)) if abs(s[q] - a) < 1e-12 * m.L and any(p == a for p, _ in m.moms)]
            for q in ends:
                if q == 0:
                    ML[q] = MR[q]
                else:
                    MR[q] = ML[q]
        for name, lo, hi, sc in (("V", VL, VR, F), ("M", ML, MR, M)):
            if name not in which:
                continue
            got = np.asarray(getattr(res, name), float)[1:-1]
            require(np.all(np.isfinite(got)), f"{name} in member {i+1} not finite")
            a, b = np.minimum(lo, hi) - rt * sc, np.maximum(lo, hi) + rt * sc
            bad = (got < a) | (got > b)
            if np.any(bad):
                k = int(np.argmax(np.where(bad, np.maximum(a - got, got - b), -1)))
                require(
                    False,
                    f"{name} in member {i+1} at local x={s[k]:.6g} is {got[k]:.10g}, "
                    f"expected {lo[k]:.10g}"
                    + ("" if lo[k] == hi[k] else f" .. {hi[k]:.10g}"),
                )


def disp_tol(ref, i, s, rtol=1e-6, factor=3.0):
    """Exact rotation and deflection of member i at the stations s, and how far a
    trapezoidal integration of the *reference* curvature on these stations may be off."""
    _, _, dsc, thsc = scales(ref)
    rt = max(rtol, 1e-13 / max(ref.rc, 1e-12))
    m = ref.m[i]
    psi, v = ref.RD(i, s)
    kl, kr = ref.curvature(i, s, -1), ref.curvature(i, s, +1)
    eR, eD = 0.0, 0.0
    h = np.diff(s)
    cum = lambda f: np.concatenate([[0.0], np.cumsum(0.5 * h * (f[1:] + f[:-1]))])
    gam_l = gam_r = np.zeros_like(s)
    if m.GA is not None:
        from .refbeam import poly_on

        gam_l = -ref.VM(i, s, -1)[0] / poly_on(m.GA, s)
        gam_r = -ref.VM(i, s, +1)[0] / poly_on(m.GA, s)
    for k, g in ((kl, gam_l), (kr, gam_r), (0.5 * (kl + kr), 0.5 * (gam_l + gam_r))):
        p = cum(k)
        eR = max(eR, np.max(np.abs(p - (psi - psi[0]))))
        dd = cum(psi + g)
        eD = max(eD, np.max(np.abs(dd - (v - v[0]))))
    # jumps of curvature / shear strain between stations
    jump = sum(abs(mm) for _, mm in m.moms) / float(np.min(m.EIx(s)))
    hm = float(h.max())
    eR += hm * jump
    if m.GA is not None:
        from .refbeam import poly_on

        eD += hm * sum(abs(P) for _, P in m.pts) / float(np.min(poly_on(m.GA, s)))
        kk = np.abs(np.diff(gam_l)).max() if len(gam_l) > 1 else 0.0
        eD += hm * kk
        # a released end takes its rotation from the chord, i.e. from D
        eR += eD / m.L
    dk = np.abs(np.diff(kl)).max() if len(kl) > 1 else 0.0
    eR += hm * dk * 0.5
    return psi, v, factor * eR + rt * thsc, factor * (eD + eR * m.L) + rt * dsc


def displacements(ba, ref, rtol=1e-6, factor=3.0):
    """R and D at every station, within a multiple of the error of trapezoidal
    integration of the *reference* curvature on the same stations (so any method at
    least about that accurate passes)."""
    x0 = 0.0
    for i, m in enumerate(ref.m):
        res = ba.beam_results.vRes[i]
        s = np.clip(np.asarray(res.x[1:-1], float) - x0, 0.0, m.L)
        x0 += m.L
        psi, v, tolR, tolD = disp_tol(ref, i, s, rtol, factor)
        close(res.R[1:-1], psi, tolR, f"rotation in member {i+1}")
        close(res.D[1:-1], v, tolD, f"deflection in member {i+1}")
