"""Independent reference analysis of a continuous beam.

Shares no code with pycba and uses a different route to the same mechanics:

* ordinary members (prismatic or not, Euler-Bernoulli or Timoshenko, with imposed
  curvature): simply-supported basic system, end rotations by Gauss-Legendre
  quadrature of curvature/shear strain over smooth pieces, released ends carried
  as *extra rotational unknowns* (no condensed element matrices);
* members on a Winkler foundation: exact transfer matrices (matrix exponential of
  the beam-on-elastic-foundation equation), no sub-elements;
* displacements inside a member by quadrature of the virtual-work integral.

Conventions: v up, rotations/moments counter-clockwise, loads positive down,
M sagging positive, V = dM/dx, concentrated moments counter-clockwise.
"""
from __future__ import annotations

import numpy as np
from scipy.linalg import expm

_GX, _GW = np.polynomial.legendre.leggauss(24)


class Mechanism(Exception):
    pass


def poly_on(pieces, s):
    """Evaluate piecewise polynomials [(x0, x1, [c0, c1, ..])] (local x - x0)."""
    s = np.asarray(s, float)
    out = np.full(s.shape, np.nan)
    for x0, x1, c in pieces:
        m = (s >= x0 - 1e-12) & (s <= x1 + 1e-12) & np.isnan(out)
        out[m] = np.polynomial.polynomial.polyval(s[m] - x0, c)
    return out


class Member:
    def __init__(self, L, EI, GA=None, kf=None, rel=(False, False)):
        self.L = float(L)
        self.EI = EI if isinstance(EI, list) else [(0.0, self.L, [float(EI)])]
        self.const = not isinstance(EI, list)
        self.GA = None if GA is None else (GA if isinstance(GA, list) else [(0.0, self.L, [float(GA)])])
        self.kf = kf
        self.rel = rel
        self.dist = []  # (a, b, wa, wb): linear load wa at a to wb at b, downwards
        self.pts = []  # (a, P)
        self.moms = []  # (a, m) counter-clockwise
        self.curv = np.zeros(1)  # imposed curvature polynomial

    # -- loads ---------------------------------------------------------------
    def add(self, row):
        t = int(row[1])
        L = self.L
        if t == 1:
            self.dist.append((0.0, L, row[2], row[2]))
        elif t == 2:
            self.pts.append((row[3], row[2]))
        elif t == 3:
            w, a, c = row[2:5]
            b = min(a + c, L)
            if a < L and b > a:
                self.dist.append((a, b, w, w))
        elif t == 4:
            self.moms.append((row[3], row[2]))
        elif t == 5:
            w1, w2 = row[2:4]
            a = row[4] if len(row) > 4 else 0.0
            c = row[5] if len(row) > 5 else L - a
            if a < L and c > 0:
                b = min(a + c, L)
                self.dist.append((a, b, w1, w1 + (w2 - w1) * (b - a) / c))
        elif t == 6:
            k = np.asarray(row[2:], float)
            n = max(len(k), len(self.curv))
            z = np.zeros(n)
            z[: len(self.curv)] += self.curv
            z[: len(k)] += k
            self.curv = z
        else:
            raise ValueError(f"load type {t}")

    def breaks(self, extra=()):
        p = [0.0, self.L]
        for a, b, _, _ in self.dist:
            p += [a, b]
        p += [a for a, _ in self.pts] + [a for a, _ in self.moms]
        for pc in (self.EI, self.GA or []):
            for x0, x1, _ in pc:
                p += [x0, x1]
        p += list(extra)
        p = np.unique(np.clip(np.asarray(p, float), 0.0, self.L))
        keep = [p[0]]
        for v in p[1:]:
            if v - keep[-1] > 1e-13 * self.L:
                keep.append(v)
        keep[-1] = self.L
        return np.array(keep)

    # -- simply supported statics (side=-1: left limits, +1: right limits) -----
    def _ra(self):
        L, r = self.L, 0.0
        for a, b, wa, wb in self.dist:
            c = b - a
            W = 0.5 * (wa + wb) * c
            first = c * c * (wa / 6 + wb / 3)  # moment of the load about its start
            r += (W * (L - a) - first) / L
        for a, P in self.pts:
            r += P * (L - a) / L
        for a, m in self.moms:
            r += m / L
        return r

    def total(self):
        return sum(0.5 * (wa + wb) * (b - a) for a, b, wa, wb in self.dist) + sum(
            P for _, P in self.pts
        )

    def ss(self, s, side=1, V0=None, M0=0.0):
        """V, M at s for left-end values V0 (default SS reaction), M0."""
        s = np.asarray(s, float)
        V0 = self._ra() if V0 is None else V0
        V = np.full(s.shape, float(V0))
        M = M0 + V0 * s
        for a, b, wa, wb in self.dist:
            t = np.clip(s, a, b) - a  # loaded length passed
            g = (wb - wa) / (b - a)
            W = wa * t + g * t * t / 2
            first = wa * t * t / 2 + g * t**3 / 3  # about a
            V = V - W
            M = M - (W * (s - a) - first)
        for a, P in self.pts:
            on = (s > a) if side < 0 else (s >= a)
            V = V - np.where(on, P, 0.0)
            M = M - P * np.clip(s - a, 0, None)
        for a, m in self.moms:
            on = (s > a) if side < 0 else (s >= a)
            M = M - np.where(on, m, 0.0)
        return V, M

    # -- quadrature over smooth pieces ----------------------------------------
    def _quad(self, f, lo=0.0, hi=None, extra=()):
        """Integral of f(s_nodes, piece_mid) over [lo, hi], split at breaks."""
        hi = self.L if hi is None else hi
        e = [p for p in self.breaks(extra) if lo < p < hi]
        e = [lo] + e + [hi]
        tot = 0.0
        for a, b in zip(e[:-1], e[1:]):
            if b <= a:
                continue
            s = 0.5 * (b - a) * _GX + 0.5 * (a + b)
            tot = tot + 0.5 * (b - a) * np.sum(_GW * f(s), axis=-1)
        return tot

    def kap(self, s):
        return np.polynomial.polynomial.polyval(np.asarray(s, float), self.curv)

    def EIx(self, s):
        return poly_on(self.EI, s)

    def basic(self):
        """F (2x2) and free rotations phi0 of the simply supported basic system."""
        L = self.L
        n = lambda s: np.vstack([-(1 - s / L), s / L])  # virtual slope weights
        # unit sagging end moments: M = ma (1 - s/L) + mb s/L
        def fF(s):
            w = n(s)
            m = np.vstack([1 - s / L, s / L])
            out = w[:, None, :] * m[None, :, :] / self.EIx(s)
            return out

        F = self._quad(fF)
        V0 = self._ra()
        def f0(s):
            _, M = self.ss(s, V0=V0)
            return n(s) * (M / self.EIx(s) + self.kap(s))

        p0 = self._quad(f0)
        if self.GA is not None:
            sh = self._quad(lambda s: 1.0 / poly_on(self.GA, s)[None, :])[0]
            F = F + np.array([[-1.0, 1.0], [-1.0, 1.0]]) * sh / L**2
            p0 = p0 + self._quad(
                lambda s: (self.ss(s, V0=V0)[0] / poly_on(self.GA, s))[None, :]
            )[0] / L
        return F, p0

    def element(self):
        """k (4x4) and fixed-end forces for end displacements [va, ta, vb, tb]."""
        if self.kf is not None:
            return self._element_found()
        L = self.L
        F, p0 = self.basic()
        B = np.array([[1 / L, 1, -1 / L, 0], [1 / L, 0, -1 / L, 1]])
        Fi = np.linalg.inv(F)
        # end forces up/ccw from sagging moments ma, mb
        S = np.array([[-1 / L, 1 / L], [-1, 0], [1 / L, -1 / L], [0, 1]])
        k = S @ Fi @ B
        Ra = self._ra()
        pf = S @ (-Fi @ p0) + np.array([Ra, 0, self.total() - Ra, 0])
        return k, pf

    # -- Winkler foundation by transfer matrices --------------------------------
    def _A(self, wa, g):
        EI, kf = self.EI[0][2][0], self.kf
        A = np.zeros((6, 6))
        A[0, 1] = 1
        A[1, 2] = 1 / EI
        A[2, 3] = 1
        A[3, 0] = -kf
        A[3, 4] = -wa
        A[3, 5] = -g
        A[5, 4] = 1
        return A

    def _pieces(self, extra=()):
        e = self.breaks(extra)
        out = []
        for a, b in zip(e[:-1], e[1:]):
            mid = 0.5 * (a + b)
            wa = g = 0.0
            for da, db, w1, w2 in self.dist:
                if da <= mid <= db:
                    gg = (w2 - w1) / (db - da)
                    wa += w1 + gg * (a - da)
                    g += gg
            out.append((a, b, wa, g))
        return out

    def _jump(self, a):
        z = np.zeros(6)
        tol = 1e-12 * self.L
        for p, P in self.pts:
            if abs(p - a) <= tol:
                z[3] -= P
        for p, m in self.moms:
            if abs(p - a) <= tol:
                z[2] -= m
        return z

    def _transfer(self, extra=(), upto=None):
        T = np.eye(6)
        T = T.copy()
        T[:, 4] += self._jump(0.0)
        for a, b, wa, g in self._pieces(extra):
            if upto is not None and a >= upto - 1e-13 * self.L:
                break
            E = expm(self._A(wa, g) * (b - a))
            # within a piece the ramp restarts at the piece's start
            R = np.eye(6)
            R[5, 4] = 0.0
            R[5, 5] = 0.0
            T = E @ R @ T
            J = np.zeros((6, 6))
            if upto is None and b >= self.L - 1e-13 * self.L:
                J[:, 4] = self._jump(self.L)
            elif b < self.L - 1e-13 * self.L:
                J[:, 4] = self._jump(b)
            T = T + J @ T
        return T

    def _element_found(self):
        T = self._transfer()
        T11, T12, c1 = T[:2, :2], T[:2, 2:4], T[:2, 4]
        T21, T22, c2 = T[2:4, :2], T[2:4, 2:4], T[2:4, 4]
        iT = np.linalg.inv(T12)
        # [M0,V0] = iT (qL - T11 q0 - c1)
        A0, AL, A1 = -iT @ T11, iT, -iT @ c1
        B0 = T21 + T22 @ A0
        BL = T22 @ AL
        B1 = T22 @ A1 + c2
        k = np.zeros((4, 4))
        f = np.zeros(4)
        # forces on the member: left up = V0, left ccw = -M0, right up = -VL, ccw = ML
        k[0, :2], k[0, 2:], f[0] = A0[1], AL[1], A1[1]
        k[1, :2], k[1, 2:], f[1] = -A0[0], -AL[0], -A1[0]
        k[2, :2], k[2, 2:], f[2] = -B0[1], -BL[1], -B1[1]
        k[3, :2], k[3, 2:], f[3] = B0[0], BL[0], B1[0]
        return k, f


class RefBeam:
    def __init__(self, members, R, D=None):
        self.m = members
        self.R = [float(r) for r in R]
        self.D = list(D) if D is not None else [None] * len(R)
        n = len(members)
        assert len(R) == 2 * n + 2
        self.nn = n + 1

    def load(self, LM):
        for row in LM:
            self.m[int(row[0]) - 1].add(row)
        return self

    def _dofs(self):
        """Global dofs: 2 per node, plus one per released member end."""
        nd = 2 * self.nn
        maps = []
        for i, m in enumerate(self.m):
            d = [2 * i, 2 * i + 1, 2 * i + 2, 2 * i + 3]
            if m.rel[0]:
                d[1] = nd
                nd += 1
            if m.rel[1]:
                d[3] = nd
                nd += 1
            maps.append(d)
        return nd, maps

    def assemble(self):
        nd, maps = self._dofs()
        K = np.zeros((nd, nd))
        F = np.zeros(nd)
        els = []
        for m, d in zip(self.m, maps):
            k, f = m.element()
            K[np.ix_(d, d)] += k
            F[d] -= f
            els.append((k, f))
        for i, r in enumerate(self.R):
            if r > 0:
                K[i, i] += r
        known = {}
        for i in range(2 * self.nn):
            if self.D[i] is not None:
                known[i] = float(self.D[i])
            elif self.R[i] < 0:
                known[i] = 0.0
        return nd, maps, els, K, F, known

    def conditioning(self):
        """Reciprocal condition of the scaled free stiffness (mechanism measure).

        Translational unknowns are scaled by a length so the measure does not
        depend on the units used."""
        nd, maps, els, K, F, known = self.assemble()
        free = [i for i in range(nd) if i not in known]
        if not free:
            return 1.0
        ls = np.mean([m.L for m in self.m])
        s = np.array([(ls if (i < 2 * self.nn and i % 2 == 0) else 1.0) for i in free])
        Kf = K[np.ix_(free, free)] * s[:, None] * s[None, :]
        d = np.sqrt(np.maximum(np.abs(np.diag(Kf)), 1e-300))
        dz = np.where(np.abs(np.diag(Kf)) < 1e-12 * np.abs(Kf).max(), 1.0, d)
        Kn = Kf / dz[:, None] / dz[None, :]
        ev = np.abs(np.linalg.eigvalsh(0.5 * (Kn + Kn.T)))
        return float(ev.min() / ev.max())

    def solve(self):
        nd, maps, els, K, F, known = self.assemble()
        u = np.zeros(nd)
        for i, v in known.items():
            u[i] = v
        free = [i for i in range(nd) if i not in known]
        if free:
            ki = list(known)
            rhs = F[free] - (K[np.ix_(free, ki)] @ u[ki] if ki else 0.0)
            u[free] = np.linalg.solve(K[np.ix_(free, free)], rhs)
        self.u = u
        self.maps = maps
        self.nodal = u[: 2 * self.nn]
        self.q = [u[d] for d in maps]  # member end displacements (true end rotations)
        self.f = [k @ q + f for (k, f), q in zip(els, self.q)]
        res = K @ u - F
        self.reac = {i: res[i] for i in range(2 * self.nn) if self.R[i] < 0}
        self.resid = res
        self.springs = {i: -self.R[i] * u[i] for i in range(2 * self.nn) if self.R[i] > 0}
        return self

    # ---- fields ------------------------------------------------------------
    def VM(self, i, s, side=1):
        m = self.m[i]
        if m.kf is not None:
            z = self._found_state(i, s, side)
            return z[3], z[2]
        f = self.f[i]
        return m.ss(s, side, V0=f[0], M0=-f[1])

    def curvature(self, i, s, side=1):
        m = self.m[i]
        V, M = self.VM(i, s, side)
        return M / m.EIx(np.asarray(s, float)) + m.kap(s)

    def RD(self, i, s):
        """Cross-section rotation psi and deflection v at local stations s."""
        m = self.m[i]
        s = np.atleast_1d(np.asarray(s, float))
        if m.kf is not None:
            z = self._found_state(i, s, 1)
            return z[1], z[0]
        q, f = self.q[i], self.f[i]
        order = np.argsort(s)
        psi = np.empty(len(s))
        v = np.empty(len(s))
        # march: psi += int kappa, v += psi*h + int (x1-s) kappa - int V/GA
        x0, p, d = 0.0, q[1], q[0]
        brk = self.m[i].breaks()
        for j in order:
            x1 = s[j]
            e = [x0] + [b for b in brk if x0 < b < x1] + [x1]
            for a, b in zip(e[:-1], e[1:]):
                if b <= a:
                    continue
                t = 0.5 * (b - a) * _GX + 0.5 * (a + b)
                w = 0.5 * (b - a) * _GW
                V, M = m.ss(t, V0=f[0], M0=-f[1])
                k = M / m.EIx(t) + m.kap(t)
                dv = p * (b - a) + np.sum(w * (b - t) * k)
                if m.GA is not None:
                    dv -= np.sum(w * V / poly_on(m.GA, t))
                p = p + np.sum(w * k)
                d = d + dv
            x0 = x1
            psi[j], v[j] = p, d
        return psi, v

    def _found_state(self, i, s, side=1):
        m = self.m[i]
        q, f = self.q[i], self.f[i]
        z0 = np.array([q[0], q[1], -f[1], f[0], 1.0, 0.0])
        s = np.atleast_1d(np.asarray(s, float))
        out = np.empty((4, len(s)))
        for j, x in enumerate(s):
            z = z0.copy()
            tol = 1e-12 * m.L
            if x > tol or side > 0:
                z = z + m._jump(0.0)
            for a, b, wa, g in m._pieces():
                if a >= x - tol:
                    break
                z[5] = 0.0
                z = expm(m._A(wa, g) * (min(b, x) - a)) @ z
                if b < x - tol or (abs(b - x) <= tol and side > 0):
                    z = z + m._jump(b)
            out[:, j] = z[:4]
        return out


REL = {1: (False, False), 2: (False, True), 3: (True, False), 4: (True, True)}


def section_pieces(segs):
    """Reference reading of a documented SectionEI segment list, as poly pieces."""
    out = []
    for seg in segs:
        kind, x, ei = seg["kind"], seg["x"], seg["ei"]
        if kind == "const":
            out.append((x[0], x[-1], [ei]))
        elif kind == "linear":
            out.append((x[0], x[1], [ei[0], (ei[1] - ei[0]) / (x[1] - x[0])]))
        elif kind == "pwl":
            for a, b, p, q in zip(x[:-1], x[1:], ei[:-1], ei[1:]):
                out.append((a, b, [p, (q - p) / (b - a)]))
        elif kind == "poly":
            xs = np.asarray(x, float) - x[0]
            c = np.polynomial.polynomial.polyfit(xs, ei, len(xs) - 1)
            out.append((x[0], x[-1], list(c)))
        else:
            raise ValueError(kind)
    return out
