From 210b0124caeaeee4b8ab10ad6bd5ece39e86ed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 01/48] fix: pinned-pinned member keeps its simply-supported
 end shears

Releasing both end moments subtracts the end-moment couple from the fixed-fixed
shears; the sign was reversed, so an asymmetric load on a PP member broke
vertical equilibrium between the reactions and the loads.
---
 src/pycba/beam.py | 15 +++++++--------
 src/pycba/load.py |  4 ++--
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 062f631..dec0a2c 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -847,14 +847,13 @@ class Beam:
         )
 
         if eType == 4:
-            # Pinned-pinned: release both end moments.  Mirror the prismatic
-            # :meth:`pycba.load.Load.get_ref` convention exactly (the vertical
-            # correction is ``(Ma + Mb)/L`` applied to the fixed-fixed CNL),
-            # so the constant-EI limit is reproduced.
+            # Pinned-pinned: release both end moments, removing the end-moment
+            # couple so that the simply-supported shears remain (mirrors the
+            # prismatic :meth:`pycba.load.Load.get_ref`).
             Va_ff, Vb_ff = ref[0], ref[2]
-            ref[0] = Va_ff + (Ma + Mb) / L
+            ref[0] = Va_ff - (Ma + Mb) / L
             ref[1] = 0.0
-            ref[2] = Vb_ff - (Ma + Mb) / L
+            ref[2] = Vb_ff + (Ma + Mb) / L
             ref[3] = 0.0
         elif eType in (2, 3):
             # Single moment release: condense the released rotational DOF so
@@ -1607,9 +1606,9 @@ class Beam:
         if eType == 4:
             # Pinned-pinned: release both end moments (mirror _ref_nonprismatic).
             Va_ff, Vb_ff = ref[0], ref[2]
-            ref[0] = Va_ff + (Ma + Mb) / L
+            ref[0] = Va_ff - (Ma + Mb) / L
             ref[1] = 0.0
-            ref[2] = Vb_ff - (Ma + Mb) / L
+            ref[2] = Vb_ff + (Ma + Mb) / L
             ref[3] = 0.0
         elif eType in (2, 3):
             # Single moment release: condense the released rotational DOF using
diff --git a/src/pycba/load.py b/src/pycba/load.py
index 68e7929..6056cb9 100644
--- a/src/pycba/load.py
+++ b/src/pycba/load.py
@@ -116,9 +116,9 @@ class Load:
             ref[2] = -fm * cnl.Ma
             ref[3] = 0.5 * cnl.Ma
         elif eType == 4:  # keep only vertical, remove moments
-            ref[0] = -(cnl.Ma + cnl.Mb) / L
+            ref[0] = (cnl.Ma + cnl.Mb) / L
             ref[1] = 1.0 * cnl.Ma
-            ref[2] = (cnl.Ma + cnl.Mb) / L
+            ref[2] = -(cnl.Ma + cnl.Mb) / L
             ref[3] = 1.0 * cnl.Mb
         else:
             # no nothing if it is FF
-- 
2.43.0


From 84ec9a366881d094584b574c96e337a694d52002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 02/48] fix: ignore the overhang of a partial UDL in member
 results too

get_cnl clips the load at the member end (documented) but the diagrams used the
unclipped load, so V/M/D did not match the reactions; a load starting beyond the
member returned a plain list and crashed.
---
 src/pycba/load.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pycba/load.py b/src/pycba/load.py
index 6056cb9..a222ddf 100644
--- a/src/pycba/load.py
+++ b/src/pycba/load.py
@@ -355,7 +355,7 @@ class LoadPUDL(Load):
         w = self.w
         # Check if on span, if not, return zeros
         if self.a > L:
-            return [0.0] * 4
+            return LoadCNL(Va=0.0, Ma=0.0, Vb=0.0, Mb=0.0)
         # Actual cover on span
         d = L - (a + c)
         # If cover hangs off span, adjust it
@@ -397,8 +397,9 @@ class LoadPUDL(Load):
         res = MemberResults(vals=None, n=npts)
         res.x = x
 
-        a = self.a
-        c = self.c
+        # The part of the load beyond the member is ignored, as in get_cnl
+        a = min(self.a, L)
+        c = min(self.c, L - a)
         w = self.w
         b = c + a
 
-- 
2.43.0


From 309895d34b48abcfb536d1d55aa5fdc0ce45f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 03/48] fix: integrate variable-EI/GAv fixed-end moments across
 load and EI steps exactly

The Simpson stations at each piece end were closed to zero by the member results
(or took the wrong side of an EI step / moment-load jump), giving fixed-end
moments wrong by 1e-4 .. 1e-3 on members documented as exact.
---
 src/pycba/beam.py | 77 +++++++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 36 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index dec0a2c..b0c63f5 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -3,7 +3,6 @@ PyCBA - Beam Class definition
 """
 from typing import Optional, Sequence, Union
 import numpy as np
-from scipy import integrate
 from .load import parse_LM, LoadType, LoadMatrix, LoadCNL, LoadIC
 from .types import MemberType
 from .section import SectionEI
@@ -801,28 +800,20 @@ class Beam:
         # curvature kappa_imp(x) is the primary curvature instead.
         #
         # The integral is split at the section breakpoints (segment joins and
-        # pwl kinks) so that any EI discontinuity / kink is honoured exactly;
-        # within each piece a fine Simpson grid captures the (possibly
-        # non-polynomial, e.g. point-load-kinked) moment diagram.  For a single
-        # constant segment this reproduces the prismatic get_ref.
+        # pwl kinks) and at the load's own discontinuities, so that any EI or
+        # moment step / kink is honoured exactly.  For a single constant segment
+        # this reproduces the prismatic get_ref.
         bps = EI.breakpoints
         edges = np.unique(np.concatenate([bps, [0.0, L]]))
         edges = edges[(edges >= -1e-12) & (edges <= L + 1e-12)]
         edges[0], edges[-1] = 0.0, L
         theta0 = np.zeros(2)
-        for a, b in zip(edges[:-1], edges[1:]):
-            if b <= a:
-                continue
-            n = 2001
-            xx = np.linspace(a, b, n)
-            M = load.get_mbr_results(xx, L).M
-            curv = M / EI(xx)
-            if isinstance(load, LoadIC):
-                curv = curv + load.kappa_imp(xx)
-            mi = 1.0 - xx / L
-            mj = -xx / L
-            theta0[0] += integrate.simpson(mi * curv, x=xx)
-            theta0[1] += integrate.simpson(mj * curv, x=xx)
+        xx, ww, M, _ = self._load_quadrature(load, edges, L)
+        curv = M / EI(xx)
+        if isinstance(load, LoadIC):
+            curv = curv + load.kappa_imp(xx)
+        theta0[0] = np.sum(ww * (1.0 - xx / L) * curv)
+        theta0[1] = np.sum(ww * (-xx / L) * curv)
 
         # Fixed-end moments (PyCBA nodal-moment sign convention)
         Kth = self.k_theta(EI, L)
@@ -1092,6 +1083,28 @@ class Beam:
             ws.append(0.5 * (b - a) * wi)
         return np.concatenate(xs), np.concatenate(ws)
 
+    @staticmethod
+    def _load_quadrature(load, edges: np.ndarray, L: float):
+        """
+        Gauss-Legendre nodes/weights between ``edges`` (also split where the
+        load itself starts, ends or acts), with the simply-supported moment and
+        shear of the load at the nodes.  No node lies on a step of EI, of the
+        load or at a member end, so one-sided values are never mixed up.
+        """
+        a = getattr(load, "a", None)
+        if a is not None:
+            c = getattr(load, "c", None) or getattr(load, "_c", None) or 0.0
+            marks = [m for m in (a, a + c) if 0.0 < m < L]
+            edges = np.unique(np.concatenate([edges, marks]))
+        xi, wi = np.polynomial.legendre.leggauss(32)
+        half = 0.5 * np.diff(edges)[:, None]
+        x = (edges[:-1, None] + half * (xi + 1.0)).ravel()
+        w = (half * wi).ravel()
+        # The member results are closed to zero at their first and last station,
+        # so the nodes are bracketed by the member ends.
+        mr = load.get_mbr_results(np.concatenate([[0.0], x, [L]]), L)
+        return x, w, mr.M[1:-1], mr.V[1:-1]
+
     @staticmethod
     def _flexibility(EI: SectionEI, L: float) -> np.ndarray:
         """
@@ -1506,24 +1519,16 @@ class Beam:
             edges = np.array([0.0, L])
 
         theta0 = np.zeros(2)
-        for a, b in zip(edges[:-1], edges[1:]):
-            if b <= a:
-                continue
-            n = 2001
-            xx = np.linspace(a, b, n)
-            mr = load.get_mbr_results(xx, L)
-            EIx = EI(xx) if isinstance(EI, SectionEI) else EI
-            curv = mr.M / EIx
-            if isinstance(load, LoadIC):
-                curv = curv + load.kappa_imp(xx)
-            GAvx = GAv(xx) if isinstance(GAv, SectionEI) else GAv
-            gamma = mr.V / GAvx
-            mi = 1.0 - xx / L
-            mj = -xx / L
-            vi = -1.0 / L  # unit-moment shear (constant), same for both ends
-            shear = integrate.simpson(vi * gamma, x=xx)
-            theta0[0] += integrate.simpson(mi * curv, x=xx) + shear
-            theta0[1] += integrate.simpson(mj * curv, x=xx) + shear
+        xx, ww, M, V = self._load_quadrature(load, edges, L)
+        EIx = EI(xx) if isinstance(EI, SectionEI) else EI
+        curv = M / EIx
+        if isinstance(load, LoadIC):
+            curv = curv + load.kappa_imp(xx)
+        GAvx = GAv(xx) if isinstance(GAv, SectionEI) else GAv
+        # unit-moment shear -1/L (constant), same for both ends
+        shear = np.sum(ww * (-1.0 / L) * V / GAvx)
+        theta0[0] = np.sum(ww * (1.0 - xx / L) * curv) + shear
+        theta0[1] = np.sum(ww * (-xx / L) * curv) + shear
         return theta0
 
     def _ref_timoshenko(
-- 
2.43.0


From b882405ed53036fc2634f6a65585eda76d9cd5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 04/48] fix: Timoshenko fixed-end moments of a concentrated
 moment include shear flexibility

The closed-form transform assumes the shear area of the load on a simple span is
zero, which does not hold for a moment load (V = m/L), so prismatic members
disagreed with the flexibility-integrated (variable GAv) path.
---
 src/pycba/beam.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index b0c63f5..7e8f99b 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -3,7 +3,7 @@ PyCBA - Beam Class definition
 """
 from typing import Optional, Sequence, Union
 import numpy as np
-from .load import parse_LM, LoadType, LoadMatrix, LoadCNL, LoadIC
+from .load import parse_LM, LoadType, LoadMatrix, LoadCNL, LoadIC, LoadML
 from .types import MemberType
 from .section import SectionEI
 from .utils import supports_to_R, SupportType
@@ -1581,6 +1581,10 @@ class Beam:
         """
         eType = int(np.asarray(eType).item())
         prismatic = not isinstance(EI, SectionEI) and not isinstance(GAv, SectionEI)
+        if isinstance(load, LoadML):
+            # A concentrated moment has a net shear area on the simple span, so
+            # the closed-form transform (flexure only) does not apply.
+            prismatic = False
         cnl = load.get_cnl(L, 1)  # fixed-fixed Euler-Bernoulli CNL
 
         if prismatic:
-- 
2.43.0


From d6681babe6e21af625db293d8edc298b42e9238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 05/48] fix: point queries use the evaluation stations, not the
 padded diagram closure

at() (results, envelopes, target combinations) picked the padded zero station at
x = 0, and at any member boundary whose coordinate differed in the last bit;
padded rotations were not divided by EI and padded deflections were zero; a
foundation member kept the padding of every internal sub-element.
---
 src/pycba/foundation.py | 17 ++++++++++++++---
 src/pycba/load_cases.py |  2 ++
 src/pycba/results.py    | 24 ++++++++++++++++++++++--
 3 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/pycba/foundation.py b/src/pycba/foundation.py
index 99ae12e..09ea8e1 100644
--- a/src/pycba/foundation.py
+++ b/src/pycba/foundation.py
@@ -98,13 +98,22 @@ def _eb_member_values(L, EI, f, d, loads, npts) -> MemberResults:
     D = integrate.cumulative_trapezoid(psi, dx=dx, initial=0) + d[0]
     res.R[1:-1] = psi
     res.D[1:-1] = D
+    res.R[0], res.R[-1] = psi[0], psi[-1]
+    res.D[0], res.D[-1] = D[0], D[-1]
     return res
 
 
 def _concat_results(res_list: List[MemberResults]) -> MemberResults:
-    """Concatenate per-sub-element results into a single member result."""
+    """
+    Concatenate per-sub-element results into a single member result, keeping the
+    padded (closed to zero) stations at the two member ends only.
+    """
     arrays = [
-        np.concatenate([getattr(r, a) for r in res_list])
+        np.concatenate(
+            [getattr(res_list[0], a)[:1]]
+            + [getattr(r, a)[1:-1] for r in res_list]
+            + [getattr(res_list[-1], a)[-1:]]
+        )
         for a in ("x", "M", "V", "R", "D")
     ]
     return MemberResults(vals=tuple(arrays))
@@ -225,4 +234,6 @@ class FoundationElement:
             res = _eb_member_values(self.h, self.EI, f_e, d_e, per[e], npts_sub)
             res.x = res.x + e * self.h
             res_list.append(res)
-        return _concat_results(res_list)
+        member = _concat_results(res_list)
+        member.x[-2:] = self.L  # exactly: matches the start of the next member
+        return member
diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index c30c5ed..11d2c61 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -1046,6 +1046,8 @@ def _response_at(x: np.ndarray, B: np.ndarray, x_target: float) -> np.ndarray:
         )
 
     unique_x, unique_index = np.unique(x, return_index=True)
+    if len(x) > 1 and x[1] == x[0]:
+        unique_index[0] = 1  # the first station is the padded closure to zero
     unique_B = B[:, unique_index]
     return np.array([np.interp(x_target, unique_x, row) for row in unique_B])
 
diff --git a/src/pycba/results.py b/src/pycba/results.py
index cba6398..50b45c8 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -187,6 +187,7 @@ class BeamResults:
 
         dx = L / self.npts
         xr = dx * np.arange(0, self.npts + 1)  # uniform interior stations [0, L]
+        xr[-1] = L  # exactly: member-boundary stations of neighbours coincide
 
         # Optionally splice in paired "shear point" stations either side of each
         # requested section so the closed-form shear is sampled just-left and
@@ -290,9 +291,26 @@ class BeamResults:
 
         res.R[1:-1] = psi
         res.D[1:-1] = D
+        # Only the moment and shear close to zero at the padded end stations
+        res.R[0], res.R[-1] = psi[0], psi[-1]
+        res.D[0], res.D[-1] = D[0], D[-1]
 
         return res
 
+    def _evaluation_stations(self) -> np.ndarray:
+        """
+        Indices into the concatenated results of the evaluation stations, i.e.
+        without the padded end stations that close the diagrams to zero; sorted
+        and de-duplicated in ``x``, keeping the left-hand one of coincident
+        stations.
+        """
+        idx, start = [], 0
+        for m in self.vRes:
+            idx.append(np.arange(start + 1, start + len(m.x) - 1))
+            start += len(m.x)
+        idx = np.concatenate(idx)
+        return idx[np.unique(self.results.x[idx], return_index=True)[1]]
+
     def at(self, x: float, attrs: Tuple[str, ...] = ("M", "V", "R", "D")) -> Dict:
         """
         Interpolate the load effects at a global coordinate.
@@ -315,7 +333,8 @@ class BeamResults:
             load) the left-hand value is returned.
         """
         res = self.results
-        ux, uidx = np.unique(res.x, return_index=True)
+        uidx = self._evaluation_stations()
+        ux = res.x[uidx]
         out: Dict[str, float] = {}
         for a in attrs:
             vals = np.asarray(getattr(res, a))
@@ -784,7 +803,8 @@ class Envelopes:
     def _unique_x(self) -> Tuple[np.ndarray, np.ndarray]:
         """Return the de-duplicated station coordinates and their indices."""
 
-        return np.unique(self.x, return_index=True)
+        idx = self.vResults[0]._evaluation_stations()
+        return self.x[idx], idx
 
     def at(
         self,
-- 
2.43.0


From 09baa2c90558fac407a8c363a67a6c72468f9f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 06/48] fix: influence lines survive re-creation, spring
 supports and step round-off

create_ils() appended to the previous positions, reaction lines indexed with a
float when any restraint is a float (spring), and the last position could fall
off the beam by one ulp (zero ordinate at a free tip).
---
 src/pycba/inf_lines.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycba/inf_lines.py b/src/pycba/inf_lines.py
index c1c061d..2b05123 100644
--- a/src/pycba/inf_lines.py
+++ b/src/pycba/inf_lines.py
@@ -67,6 +67,7 @@ class InfluenceLines:
         None.
         """
         self.vResults = []  # reset
+        self.pos = []
 
         if step is None:
             step = self.L / 100
@@ -76,6 +77,8 @@ class InfluenceLines:
         for i in range(npts):
             # load position
             pos = i * step
+            if np.isclose(pos, self.L, rtol=1e-9):
+                pos = self.L  # round-off must not push the load off the end
             self.pos.append(pos)
             # locate load on span
             ispan, pos_in_span = self.ba.beam.get_local_span_coords(pos)
@@ -127,7 +130,7 @@ class InfluenceLines:
         # Get vector of the node locations
         node_locations = np.cumsum(np.insert(self.ba.beam.mbr_lengths, 0, 0))
         # Link the supported DOF to the index in the BeamAnalysis reactions vector
-        idx_mask = np.zeros_like(self.ba._beam.restraints)
+        idx_mask = np.zeros(len(self.ba._beam.restraints), dtype=int)
         idx_mask[np.where(np.array(self.ba._beam.restraints) == -1)] = np.arange(
             self.ba.beam.no_fixed_restraints
         )
-- 
2.43.0


From 8d0a94f47b205838490805b0861f884b53314477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 07/48] fix: modal analysis rejects Winkler-foundation spans
 instead of ignoring them

---
 src/pycba/modal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycba/modal.py b/src/pycba/modal.py
index 5b0593a..5f19614 100644
--- a/src/pycba/modal.py
+++ b/src/pycba/modal.py
@@ -227,6 +227,10 @@ def solve_modal(beam, mass, n_modes: int = 10, nseg: int = 12) -> ModalResults:
             raise NotImplementedError(
                 "Modal analysis does not yet support shear-deformable (GAv) spans."
             )
+        if i < len(beam.mbr_kf) and beam.mbr_kf[i] is not None:
+            raise NotImplementedError(
+                "Modal analysis does not yet support Winkler-foundation (kf) spans."
+            )
         if int(np.asarray(beam.mbr_eletype[i]).item()) != 1:
             raise NotImplementedError(
                 "Modal analysis supports fixed-fixed spans only (no moment releases)."
-- 
2.43.0


From cda3343697b51dd0b05dc2cbfe39304ccfe360e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 08/48] fix: load-case models keep the template's foundation
 and accept incremental beams

build_pycba_model dropped kf (a foundation span became unsupported) and failed on
a Beam built with add_member, whose prescribed displacements are empty.
---
 src/pycba/load_cases.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index 11d2c61..a245866 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -866,8 +866,9 @@ def build_pycba_model(
         R=list(beam.restraints),
         LM=_load_case_loads(load_case),
         eletype=list(beam.mbr_eletype),
-        D=list(beam.prescribed_displacements),
+        D=list(beam.prescribed_displacements) or None,
         GAv=list(getattr(beam, "mbr_GAv", [])) or None,
+        kf=list(getattr(beam, "mbr_kf", [])) or None,
     )
 
 
-- 
2.43.0


From 799c10b34bede9aa502b49cc28e56f2a9c721e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 09/48] fix: a reaction history dropped by a merge of envelopes
 stays dropped

---
 src/pycba/results.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pycba/results.py b/src/pycba/results.py
index 50b45c8..80fdc45 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -420,6 +420,10 @@ class Envelopes:
         Maximum and minimum reaction per support.
     """
 
+    # Whether Rmax/Rmin still hold the full reaction history; cleared for good
+    # once envelopes of differing numbers of analyses have been merged.
+    _has_history = True
+
     def __init__(self, vResults: List[MemberResults]):
         """
         Constructs the envelope of each load effect given a vector of results for
@@ -566,6 +570,7 @@ class Envelopes:
             A :class:`pycba.results.Envelopes` object of zero-valued envelopes.
         """
         zero_env = deepcopy(env)
+        zero_env._has_history = True
         zero_env.Vmax = np.zeros(env.npts)
         zero_env.Vmin = np.zeros(env.npts)
         zero_env.Mmax = np.zeros(env.npts)
@@ -718,11 +723,12 @@ class Envelopes:
         self.Rmaxval = np.maximum(self.Rmaxval, env.Rmaxval)
         self.Rminval = np.minimum(self.Rminval, env.Rminval)
 
-        if self.nres == env.nres:
+        if self.nres == env.nres and self._has_history and env._has_history:
             self.Rmax = np.maximum(self.Rmax, env.Rmax)
             self.Rmin = np.minimum(self.Rmin, env.Rmin)
         else:
             # Ensure no misleading results returned
+            self._has_history = False
             self.Rmax = np.zeros((self.nsup, self.nres))
             self.Rmin = np.zeros((self.nsup, self.nres))
 
@@ -764,11 +770,12 @@ class Envelopes:
         self.Rmaxval = np.add(self.Rmaxval, env.Rmaxval)
         self.Rminval = np.add(self.Rminval, env.Rminval)
 
-        if self.nres == env.nres:
+        if self.nres == env.nres and self._has_history and env._has_history:
             self.Rmax = np.add(self.Rmax, env.Rmax)
             self.Rmin = np.add(self.Rmin, env.Rmin)
         else:
             # Ensure no misleading results returned
+            self._has_history = False
             self.Rmax = np.zeros((self.nsup, self.nres))
             self.Rmin = np.zeros((self.nsup, self.nres))
 
-- 
2.43.0


From f816acf31fdb227bd532d27b71b089cbb86e7e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 10/48] fix: make_train accepts one common spacing and keeps
 zero axle spacings

---
 src/pycba/vehicle.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index f0796cd..fe09dd2 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -194,6 +194,10 @@ def make_train(vehicles: List[Vehicle], spacings: np.ndarray):
 
     """
 
+    spacings = np.atleast_1d(spacings)
+    if len(spacings) == 1 and len(vehicles) > 1:
+        spacings = np.repeat(spacings, len(vehicles) - 1)
+
     if len(vehicles) - 1 != len(spacings):
         raise ValueError("Inconsistent vehicle and spacing counts")
 
@@ -203,12 +207,12 @@ def make_train(vehicles: List[Vehicle], spacings: np.ndarray):
     new_vehicle_axles = np.array([])
     new_vehicle_spaces = np.array([])
 
-    # loop through each vehicle
-    for veh in vehicles:
+    # loop through each vehicle and the gap ahead of it
+    for veh, gap in zip(vehicles, np.insert(spacings, 0, 0)):
         new_vehicle_axles = np.append(new_vehicle_axles, veh.axw)
-        new_vehicle_spaces = np.append(new_vehicle_spaces, np.insert(veh.axs, 0, 0))
-
-    new_vehicle_spaces[new_vehicle_spaces == 0] = np.insert(spacings, 0, 0)
+        new_vehicle_spaces = np.concatenate(
+            (new_vehicle_spaces, [gap], veh.axs)
+        )
 
     return Vehicle(new_vehicle_spaces[1:], new_vehicle_axles)
 
-- 
2.43.0


From 71ff00608ace8742b468fd6e496ac46d2f8da607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 11/48] fix: a vehicle reversed in place stays reversed in
 trains and copies

---
 src/pycba/vehicle.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index fe09dd2..a111bc1 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -71,7 +71,11 @@ class Vehicle:
 
         """
         if in_place:
-            self.axle_coords = +self.L - self.axle_coords
+            # Keep the axle data in travel order, so that everything derived from
+            # this vehicle later (a train, a reversed copy) sees it reversed.
+            self.axs = self.axs[::-1]
+            self.axw = self.axw[::-1]
+            self.axle_coords = +self.L - self.axle_coords[::-1]
         else:
             return Vehicle(np.copy(self.axs[::-1]), np.copy(self.axw[::-1]))
 
-- 
2.43.0


From bf62f77d00b8992da304f033df5f83a540cf7243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:12 +0000
Subject: [PATCH 12/48] fix: critical shear at a member boundary reads the
 stations at the boundary

---
 src/pycba/bridge.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 3d00c78..f3ebea1 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -703,6 +703,9 @@ class BridgeAnalysis:
         # supports (at x = 0 and x = L) are identifiable in the results.
         if len(self.shear_points_x) > 0:
             support_xs = _vertical_support_xs(self.ba.beam)
+            members = env.vResults[0].vRes
+            ends = np.cumsum([len(m.x) for m in members])
+            node_x = np.cumsum(np.asarray(self.ba.beam.mbr_lengths, dtype=float))
             sp_block = {}
             for xg in self.shear_points_x:
                 left = np.nonzero(env.x < xg)[0]
@@ -711,6 +714,13 @@ class BridgeAnalysis:
                     continue
                 il = left[np.argmax(env.x[left])]
                 ir = right[np.argmin(env.x[right])]
+                # No pair is placed at a member boundary: there the limits are
+                # the end stations (inside the padding) of the two members.
+                inode = int(np.argmin(np.abs(node_x - xg)))
+                if inode < len(members) - 1 and np.isclose(
+                    xg, node_x[inode], rtol=0.0, atol=2e-9 * node_x[-1]
+                ):
+                    il, ir = ends[inode] - 2, ends[inode] + 1
                 entry = {
                     "Vmax": max(env.Vmax[il], env.Vmax[ir]),
                     "Vmin": min(env.Vmin[il], env.Vmin[ir]),
-- 
2.43.0


From 11639fad9f77a11f4581e86be244634d2b642be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 13/48] fix: critical shear at a section on a regular station
 reads the pair around it

---
 src/pycba/bridge.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index f3ebea1..3e263a1 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -6,7 +6,7 @@ from typing import Optional, Union, Dict, List
 import numpy as np
 import matplotlib.pyplot as plt
 from .analysis import BeamAnalysis
-from .results import Envelopes, BeamResults
+from .results import Envelopes, BeamResults, _shear_point_offset
 from .vehicle import Vehicle
 from .load import add_LM
 
@@ -708,8 +708,12 @@ class BridgeAnalysis:
             node_x = np.cumsum(np.asarray(self.ba.beam.mbr_lengths, dtype=float))
             sp_block = {}
             for xg in self.shear_points_x:
-                left = np.nonzero(env.x < xg)[0]
-                right = np.nonzero(env.x > xg)[0]
+                # A regular station may coincide with the section to round-off;
+                # only stations clear of it are on one definite side.
+                ispan, _ = self.ba.beam.get_local_span_coords(xg)
+                gap = 0.5 * _shear_point_offset(self.ba.beam.mbr_lengths[ispan])
+                left = np.nonzero(env.x < xg - gap)[0]
+                right = np.nonzero(env.x > xg + gap)[0]
                 if len(left) == 0 or len(right) == 0:
                     continue
                 il = left[np.argmax(env.x[left])]
-- 
2.43.0


From 210927213e18c31713345984943f17850c3118d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:23 +0000
Subject: [PATCH 14/48] fix: ABAG semi-trailer tri-axle shares its 22.5 t over
 three axles

---
 src/pycba/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index a111bc1..6a5cdd0 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -286,7 +286,7 @@ class VehicleLibrary:
         ]
 
         abag_semitrailer_aw = (
-            np.array([6, 17 / 2, 17 / 2, 22.5 / 2, 22.5 / 2, 22.5 / 3]) * 9.81
+            np.array([6, 17 / 2, 17 / 2, 22.5 / 3, 22.5 / 3, 22.5 / 3]) * 9.81
         )  # t to kN
 
         abag_semitrailer_as = [
-- 
2.43.0


From cb6d2dd9c7f5f45630553ed941dd0f251d04fd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 15/48] fix: collapse is declared when, and only when, the
 hinges form a mechanism

---
 src/pycba/nonlinear.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index d7feb32..25ffaf2 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -15,8 +15,8 @@ Each plastic hinge is *owned* by a single element end so that the adjacent
 element retains rotational stiffness at the shared node.  This keeps the
 global stiffness matrix non-singular during load redistribution and allows
 the analysis to continue past first-hinge formation.  True collapse is
-detected by a separate rank test that zeros both element ends at every
-hinged node and checks for global singularity.
+detected by a separate rank test that releases the owning element end at
+every hinged node and checks for global singularity.
 
 References
 ----------
@@ -864,19 +864,21 @@ class NonlinearBeamAnalysis:
     def _is_mechanism(self, hinged_nodes):
         """Test whether the current hinge pattern forms a collapse mechanism.
 
-        Builds a test stiffness matrix with *R* = 0 at both element ends
+        Builds a test stiffness matrix with *R* = 0 at the owning element end
         of every clustered hinge location.  If this matrix is rank-deficient
-        the structure has become a mechanism.
+        the structure has become a mechanism.  Only one end is released at each
+        node: releasing both would leave the nodal rotation without stiffness
+        and make any pattern singular.
         """
         reps = self._cluster_hinges(hinged_nodes)
-        if len(reps) < 2:
+        if not reps:
             return False
         R_test = np.ones((self.n_elem, 2))
         for j in reps:
             if j > 0:
                 R_test[j - 1, 1] = 0.0
-            if j < self.n_elem:
-                R_test[j, 0] = 0.0
+            else:
+                R_test[0, 0] = 0.0
         K_test = self._assemble_from_elem_R(R_test)
         self._apply_bc_inplace(K_test)
         return np.linalg.matrix_rank(K_test, tol=1e-6) < self.n_dof
-- 
2.43.0


From 1e8661756dee036b9a61efc64e803e504f0d5f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 16/48] fix: nonlinear moment at the left end has the sign of
 the others

---
 src/pycba/nonlinear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 25ffaf2..0d937b3 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -778,7 +778,7 @@ class NonlinearBeamAnalysis:
                 k = R1 * self._ke_all[i] + (R2 - R1) * self._k1_all[i]
             fe = k @ u[d : d + 4]
             if i == 0:
-                moments[0] = fe[1]
+                moments[0] = -fe[1]  # sagging positive, as at the right ends
             moments[i + 1] = fe[3]
         return moments
 
@@ -789,7 +789,7 @@ class NonlinearBeamAnalysis:
             d = 2 * i
             fe = self._ke_all[i] @ u[d : d + 4]
             if i == 0:
-                moments[0] = fe[1]
+                moments[0] = -fe[1]  # sagging positive, as at the right ends
             moments[i + 1] = fe[3]
         return moments
 
-- 
2.43.0


From b81371f11c02c08e31b8f0b081a9a13ea8044c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 17/48] fix: a support between spans of different capacity
 yields in the weaker span

---
 src/pycba/nonlinear.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 0d937b3..3313e5e 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -637,8 +637,12 @@ class NonlinearBeamAnalysis:
 
         # Per-element / per-node properties
         self.elem_EI = self.span_EI[self.node_to_span[: self.n_elem]]
-        self.node_Mp = self.span_Mp[self.node_to_span]
-        self.node_My = self.span_My[self.node_to_span]
+        # (a node between two spans yields in the weaker of them)
+        left = self.node_to_span
+        right = np.append(left[1:], left[-1])
+        weaker = np.where(self.span_Mp[right] < self.span_Mp[left], right, left)
+        self.node_Mp = self.span_Mp[weaker]
+        self.node_My = self.span_My[weaker]
         self.node_gamma_y = self.node_My / self.node_Mp
 
         # ---- Precompute element stiffness matrices (n_elem, 4, 4) ----
-- 
2.43.0


From 5d635e20c906379cb7c3de7c005eabd906f48e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 18/48] fix: nonlinear analysis includes elastic supports

---
 src/pycba/nonlinear.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 3313e5e..dd24334 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -498,6 +498,8 @@ def _build_mesh(span_L, span_R, mesh_size):
         Length of each element.
     bc_dofs : list[int]
         Global DOF indices that are restrained.
+    springs : list[tuple[int, float]]
+        Global DOF index and stiffness of each elastic support.
     node_to_span : ndarray
         Maps each node index to its parent span index.
     """
@@ -521,15 +523,18 @@ def _build_mesh(span_L, span_R, mesh_size):
     node_to_span = np.array(n2s)
 
     bc_dofs = []
+    springs = []
     support_x = np.concatenate(([0.0], np.cumsum(span_L)))
     for i_sup in range(n_spans + 1):
         mn = int(np.argmin(np.abs(node_coords - support_x[i_sup])))
-        if span_R[2 * i_sup] == -1:
-            bc_dofs.append(2 * mn)
-        if span_R[2 * i_sup + 1] == -1:
-            bc_dofs.append(2 * mn + 1)
+        for dof in range(2):
+            r = span_R[2 * i_sup + dof]
+            if r == -1:
+                bc_dofs.append(2 * mn + dof)
+            elif r > 0:
+                springs.append((2 * mn + dof, float(r)))
 
-    return node_coords, elem_lengths, bc_dofs, node_to_span
+    return node_coords, elem_lengths, bc_dofs, springs, node_to_span
 
 
 # ---------------------------------------------------------------------------
@@ -560,7 +565,8 @@ class NonlinearBeamAnalysis:
     EI : float or array_like
         Flexural rigidity (kNm²), scalar or per-span.
     R : array_like
-        Restraint vector in pycba convention (``-1`` = fixed, ``0`` = free).
+        Restraint vector in pycba convention (``-1`` = fixed, ``0`` = free,
+        positive = spring stiffness).
     Mp : float or array_like
         Plastic moment capacity (kNm), scalar or per-span.
     My : float or array_like, optional
@@ -627,9 +633,13 @@ class NonlinearBeamAnalysis:
         self.span_My = (self.span_Mp / 1.15) if My is None else _as(My, self.n_spans)
 
         # Build mesh
-        self.node_coords, self.elem_L, self.bc_dofs, self.node_to_span = _build_mesh(
-            self.span_L, self.span_R, mesh_size
-        )
+        (
+            self.node_coords,
+            self.elem_L,
+            self.bc_dofs,
+            self.springs,
+            self.node_to_span,
+        ) = _build_mesh(self.span_L, self.span_R, mesh_size)
         self.n_nodes = len(self.node_coords)
         self.n_elem = len(self.elem_L)
         self.n_dof = 2 * self.n_nodes
@@ -670,6 +680,8 @@ class NonlinearBeamAnalysis:
         for i in range(self.n_elem):
             d = 2 * i
             K[d : d + 4, d : d + 4] += self._ke_all[i]
+        for dof, ks in self.springs:
+            K[dof, dof] += ks
         return K
 
     def _assemble_from_elem_R(self, R_elem: np.ndarray) -> np.ndarray:
@@ -688,6 +700,8 @@ class NonlinearBeamAnalysis:
                 k = R1 * self._ke_all[i] + (R2 - R1) * self._k1_all[i]
             d = 2 * i
             K[d : d + 4, d : d + 4] += k
+        for dof, ks in self.springs:
+            K[dof, dof] += ks
         return K
 
     def _apply_bc_inplace(self, K: np.ndarray) -> np.ndarray:
-- 
2.43.0


From b099b03433dc27592ba8d8e5dafe66c2dcd9166b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 19/48] fix: nonlinear analysis refuses load types it does not
 model

---
 src/pycba/nonlinear.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index dd24334..dfa4897 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -749,6 +749,11 @@ class NonlinearBeamAnalysis:
                     F[2 * (ie + 1)] -= val * h / 2
             elif lt == 2:  # Point load
                 self._add_point_load(F, val, span_starts[i_span] + float(ld[3]))
+            else:
+                raise ValueError(
+                    "NonlinearBeamAnalysis supports load types 1 (UDL) and 2 "
+                    f"(point load) only, not {lt}."
+                )
         return F
 
     def _add_point_load(self, F: np.ndarray, P: float, x: float):
-- 
2.43.0


From 4a2af64e63f534ee69ab59a8ee97cdb8f02e5c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 20/48] fix: the first mesh element of a span takes that span's
 own EI

---
 src/pycba/nonlinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index dfa4897..ed9e8e3 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -646,7 +646,7 @@ class NonlinearBeamAnalysis:
         self.support_coords = np.concatenate(([0.0], np.cumsum(self.span_L)))
 
         # Per-element / per-node properties
-        self.elem_EI = self.span_EI[self.node_to_span[: self.n_elem]]
+        self.elem_EI = self.span_EI[self.node_to_span[1:]]
         # (a node between two spans yields in the weaker of them)
         left = self.node_to_span
         right = np.append(left[1:], left[-1])
-- 
2.43.0


From b6acc5b885099b437f85b3301f8b47446ce3f466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 21/48] fix: a section within round-off of Mp is plastic, not
 numerically singular

---
 src/pycba/nonlinear.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index ed9e8e3..c140974 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -818,6 +818,11 @@ class NonlinearBeamAnalysis:
 
     # ---- R update (vectorized) ----
 
+    # The degrading stiffness makes the moment approach M_p asymptotically, so a
+    # section this close to M_p is fully plastic.  Waiting for round-off to carry
+    # it over would leave the stiffness matrix numerically singular meanwhile.
+    _PLASTIC_GAMMA = 1.0 - 1e-6
+
     def _update_R(
         self, moments, gamma_max, R_elem, yielded, hinged, hinge_events, pos_label
     ):
@@ -842,7 +847,7 @@ class NonlinearBeamAnalysis:
                 g, gy = gamma[j], self.node_gamma_y[j]
                 if g <= gy:
                     R_elem[ie, end] = 1.0
-                elif g >= 1.0:
+                elif g >= self._PLASTIC_GAMMA:
                     R_elem[ie, end] = self.q
                 else:
                     R_elem[ie, end] = 1.0 - (g - gy) / (1.0 - gy) * (1.0 - self.q)
@@ -854,7 +859,7 @@ class NonlinearBeamAnalysis:
                 hinge_events.append(
                     HingeEvent(pos_label, self.node_coords[j], j, "initial_yield")
                 )
-            if gamma[j] >= 1.0 and j not in hinged:
+            if gamma[j] >= self._PLASTIC_GAMMA and j not in hinged:
                 hinged.add(j)
                 hinge_events.append(
                     HingeEvent(pos_label, self.node_coords[j], j, "plastic_hinge")
-- 
2.43.0


From c1c5a67b13f34dd1d069cce0773e1a7dcc474f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 22/48] fix: moving-load collapse counts hinges formed at the
 first position and within a step

---
 src/pycba/nonlinear.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index c140974..e6884df 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -1103,6 +1103,7 @@ class NonlinearBeamAnalysis:
 
         for i_pos, x_front in enumerate(positions):
             F_cur = self._vehicle_force_vector(aw, ax_coords, x_front)
+            n_hinged = len(hinged)
 
             if i_pos == 0:
                 for _ in range(n_sub):
@@ -1165,13 +1166,14 @@ class NonlinearBeamAnalysis:
                         )
                     moments += self._extract_moments(u, R_elem)
 
-                nh = self._update_R(
-                    moments, gamma_max, R_elem, yielded, hinged, hinge_events, x_front
+            # A hinge may also have formed within the sub-increments of this step
+            self._update_R(
+                moments, gamma_max, R_elem, yielded, hinged, hinge_events, x_front
+            )
+            if len(hinged) > n_hinged and self._is_mechanism(hinged):
+                return self._mr(
+                    x_front, True, hinge_events, moments, R_elem, lam_hist, mom_hist
                 )
-                if nh and self._is_mechanism(hinged):
-                    return self._mr(
-                        x_front, True, hinge_events, moments, R_elem, lam_hist, mom_hist
-                    )
 
             F_prev = F_cur
             if record_every > 0 and i_pos % record_every == 0:
-- 
2.43.0


From 51204d6165fc83d74a3d6f4dc6a2bddf100300ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 23/48] fix: compound parabola joins smoothly at the right
 contraflexure

---
 src/pycba/prestress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/prestress.py b/src/pycba/prestress.py
index 79c5341..9ee4986 100644
--- a/src/pycba/prestress.py
+++ b/src/pycba/prestress.py
@@ -192,7 +192,7 @@ class CompoundParabola:
         el, em, er = self.e_left, self.e_mid, self.e_right
         a1 = (a / c) * (em - el)
         a2 = (em - el) - a1
-        a4 = (b / d) * (em - er)
+        a4 = (b / (L - c)) * (em - er)
         a3 = (em - er) - a4
         # epp of each segment from sag over its half-span (sag a_i over length):
         # piece 1 [0,a] concave down, piece 2 [a,c] concave up,
-- 
2.43.0


From 1f47f969fb9d9cb6fc2ac85212bc9eeef4021708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 24/48] fix: only the end spans of a beam can be tendon
 cantilevers

---
 src/pycba/prestress.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/pycba/prestress.py b/src/pycba/prestress.py
index 9ee4986..f072acd 100644
--- a/src/pycba/prestress.py
+++ b/src/pycba/prestress.py
@@ -358,13 +358,7 @@ def equivalent_loads(
         span = i + 1
         Li, Fi = L[i], F[i]
         # a span with a free end node is a cantilever (tendon anchored at the tip)
-        if R[2 * i] == 0 and R[2 * i + 1] == 0:
-            cant = "left"
-        elif R[2 * (i + 1)] == 0 and R[2 * (i + 1) + 1] == 0:
-            cant = "right"
-        else:
-            cant = None
-        segs = prof.segments(Li, cant)
+        segs = prof.segments(Li, _cantilever_side(R, i, n))
         # distributed loads from curvature; point loads from interior kinks
         prev_end_slope = None
         for k, s in enumerate(segs):
@@ -417,9 +411,11 @@ def _eval_e(segs: List[_Seg], x: float) -> float:
 
 
 def _cantilever_side(R, i, n):
-    if R[2 * i] == 0 and R[2 * i + 1] == 0:
+    # only the beam's own end nodes are tips: an interior node without support
+    # (a hinge, or a plain joint between members) still carries the next span
+    if i == 0 and R[0] == 0 and R[1] == 0:
         return "left"
-    if R[2 * (i + 1)] == 0 and R[2 * (i + 1) + 1] == 0:
+    if i == n - 1 and R[2 * n] == 0 and R[2 * n + 1] == 0:
         return "right"
     return None
 
-- 
2.43.0


From 9ce0f72ceb510bd668f66f31936a690411293074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 25/48] fix: anchorages sit at the ends of the stressed length,
 not of the beam

---
 src/pycba/prestress.py | 50 ++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/pycba/prestress.py b/src/pycba/prestress.py
index f072acd..38d6dc7 100644
--- a/src/pycba/prestress.py
+++ b/src/pycba/prestress.py
@@ -347,10 +347,7 @@ def equivalent_loads(
         raise ValueError(f"expected {n} force values, got {len(F)}")
 
     LM: LoadMatrix = []
-    first_e: Optional[float] = None
-    first_F = 0.0
-    last_e: Optional[float] = None
-    last_F = 0.0
+    ends: List[Optional[tuple]] = [None] * n  # (F, e, e') at both ends of a span
 
     for i, prof in enumerate(profiles):
         if prof is None:
@@ -376,28 +373,29 @@ def equivalent_loads(
                     LM.append([span, 2, P, s.x1])
             prev_end_slope = s.slope_end()
 
-        # remember tendon eccentricity AND slope at the two ends of the beam
-        if first_e is None:
-            first_e, first_F = segs[0].e1, Fi
-            first_slope = segs[0].slope_start()
-        last_e, last_F = segs[-1].e2, Fi
-        last_slope = segs[-1].slope_end()
-
-    # Anchorage actions  M = F e (couple) and V = F e' (vertical).  At the left
-    # end +F e; at the right end -F e, so the moment pair is self-equilibrating
-    # (a constant eccentricity gives the correct uniform -F e).  The vertical
-    # anchorage force is reacted directly by any support there, so it is applied
-    # only at a free tip (where it is not absorbed).
-    left_free = R[0] == 0 and R[1] == 0
-    right_free = R[2 * n] == 0 and R[2 * n + 1] == 0
-    if first_e is not None and abs(first_e) > _TOL:
-        LM.append([1, 4, first_F * first_e, 0.0])
-    if last_e is not None and abs(last_e) > _TOL:
-        LM.append([n, 4, -last_F * last_e, L[-1]])
-    if left_free and abs(first_slope) > _TOL:
-        LM.append([1, 2, first_F * first_slope, 0.0])
-    if right_free and abs(last_slope) > _TOL:
-        LM.append([n, 2, -last_F * last_slope, L[-1]])
+        # remember tendon eccentricity AND slope at the two ends of the span
+        ends[i] = (
+            (Fi, segs[0].e1, segs[0].slope_start()),
+            (Fi, segs[-1].e2, segs[-1].slope_end()),
+        )
+
+    # Anchorage actions  M = F e (couple) and V = F e' (vertical), at the start
+    # and end of every stressed length: +F e at its left end and -F e at its right
+    # end, so the moment pair is self-equilibrating (a constant eccentricity gives
+    # the correct uniform -F e).  Where the tendon runs on with the same force and
+    # eccentricity the two sides cancel.  The vertical force is reacted directly
+    # by any rigid support there, so it is applied only where there is none.
+    for j in range(n + 1):
+        (fl, el, sl) = ends[j - 1][1] if j > 0 and ends[j - 1] else (0.0, 0.0, 0.0)
+        (fr, er, sr) = ends[j][0] if j < n and ends[j] else (0.0, 0.0, 0.0)
+        if abs(fr * er - fl * el) > _TOL * max(abs(fl), abs(fr)):
+            if abs(el) > _TOL:
+                LM.append([j, 4, -fl * el, L[j - 1]])
+            if abs(er) > _TOL:
+                LM.append([j + 1, 4, fr * er, 0.0])
+        V = fr * sr - fl * sl
+        if R[2 * j] >= 0 and abs(V) > _TOL * max(abs(fl), abs(fr)):
+            LM.append([j + 1, 2, V, 0.0] if j < n else [n, 2, V, L[-1]])
 
     return LM
 
-- 
2.43.0


From de25d750e1abc8b7c926941584c430c00503a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 26/48] fix: a moving-load run that fails to start leaves no
 shear points armed

---
 src/pycba/bridge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 3e263a1..933f5e9 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -412,7 +412,6 @@ class BridgeAnalysis:
         self._check_objects()
         self.pos = []
         self.vResults = []
-        self._apply_shear_points(shear_points, dv)
 
         if pos_start is None:
             pos_start = 0.0
@@ -424,6 +423,7 @@ class BridgeAnalysis:
         if plot_all:
             fig, axs = plt.subplots(2, 1, sharex=True, figsize=(10, 6))
 
+        self._apply_shear_points(shear_points, dv)
         try:
             for i in range(npts):
                 # load position
@@ -544,7 +544,6 @@ class BridgeAnalysis:
         self._check_objects()
         self.pos = []
         self.vResults = []
-        self._apply_shear_points(shear_points, dv)
 
         length = self.ba.beam.length
         if pos_start is None:
@@ -554,6 +553,7 @@ class BridgeAnalysis:
 
         npts = round((pos_end - pos_start) / step) + 1
 
+        self._apply_shear_points(shear_points, dv)
         try:
             for i in range(npts):
                 pos = pos_start + i * step
-- 
2.43.0


From 560cf8a2a5ef3985879c334f2cd39f9c8384d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 27/48] fix: point queries interpolate within the span, not
 across a support

---
 src/pycba/results.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/pycba/results.py b/src/pycba/results.py
index 80fdc45..1e25f4b 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -297,18 +297,22 @@ class BeamResults:
 
         return res
 
-    def _evaluation_stations(self) -> np.ndarray:
+    def _evaluation_stations(self, x: float) -> np.ndarray:
         """
-        Indices into the concatenated results of the evaluation stations, i.e.
+        Indices into the concatenated results of the evaluation stations of the
+        member containing ``x`` (the left-hand one at a shared node), i.e.
         without the padded end stations that close the diagrams to zero; sorted
         and de-duplicated in ``x``, keeping the left-hand one of coincident
         stations.
         """
-        idx, start = [], 0
-        for m in self.vRes:
-            idx.append(np.arange(start + 1, start + len(m.x) - 1))
+        start = 0
+        for m in self.vRes[:-1]:
+            if x <= m.x[-1]:
+                break
             start += len(m.x)
-        idx = np.concatenate(idx)
+        else:
+            m = self.vRes[-1]
+        idx = np.arange(start + 1, start + len(m.x) - 1)
         return idx[np.unique(self.results.x[idx], return_index=True)[1]]
 
     def at(self, x: float, attrs: Tuple[str, ...] = ("M", "V", "R", "D")) -> Dict:
@@ -333,7 +337,7 @@ class BeamResults:
             load) the left-hand value is returned.
         """
         res = self.results
-        uidx = self._evaluation_stations()
+        uidx = self._evaluation_stations(float(x))
         ux = res.x[uidx]
         out: Dict[str, float] = {}
         for a in attrs:
@@ -807,10 +811,10 @@ class Envelopes:
 
         return Envelopes.combine([self, other], mode="sum")
 
-    def _unique_x(self) -> Tuple[np.ndarray, np.ndarray]:
-        """Return the de-duplicated station coordinates and their indices."""
+    def _unique_x(self, x: float) -> Tuple[np.ndarray, np.ndarray]:
+        """De-duplicated station coordinates of the member at ``x``, and indices."""
 
-        idx = self.vResults[0]._evaluation_stations()
+        idx = self.vResults[0]._evaluation_stations(float(x))
         return self.x[idx], idx
 
     def at(
@@ -841,7 +845,7 @@ class Envelopes:
             at ``x``.
         """
 
-        unique_x, unique_index = self._unique_x()
+        unique_x, unique_index = self._unique_x(x)
         out: Dict[str, float] = {}
         for attr in attrs:
             values = np.asarray(getattr(self, attr))
-- 
2.43.0


From 4515f61e22ac6e864585f77f5ec5c752f65698f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 28/48] fix: a beam keeps its own load list instead of
 extending the caller's

---
 src/pycba/beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 7e8f99b..2da2c14 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -149,7 +149,7 @@ class Beam:
             else:
                 self._prescribed_displacements = [None] * len(R)
         if LM is not None:
-            self.LM = LM
+            self.LM = list(LM)  # own list: add_load must not extend the caller's
 
     @staticmethod
     def _broadcast_GAv(GAv, n_spans: int) -> list:
@@ -301,7 +301,7 @@ class Beam:
         None
 
         """
-        self.LM = LM
+        self.LM = list(LM)  # own list: add_load must not extend the caller's
         self.no_loads = len(self.LM)
 
     def add_load(self, load: LoadType):
-- 
2.43.0


From 47c1e3cd2e69c728723654f7a895404596e6874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 29/48] fix: Beam without member types is fixed-fixed, not
 empty

---
 src/pycba/beam.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 2da2c14..8a90be0 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -119,7 +119,9 @@ class Beam:
                 raise ValueError("supports requires L to set the node count.")
             R = supports_to_R(supports, n_nodes=len(L) + 1)
 
-        if L is not None and eletype is not None:
+        if L is not None:
+            if eletype is None:
+                eletype = [MemberType.FF] * len(L)
             # Normalise GAv / kf to one entry per span (None => off).
             GAv_list = self._broadcast_GAv(GAv, len(L))
             kf_list = self._broadcast_kf(kf, len(L))
-- 
2.43.0


From 6cfedb06b66f196184f43bae3d17f0892b44fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 30/48] fix: refuse a member-type list that does not match the
 spans

---
 src/pycba/beam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 8a90be0..7d9ff94 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -125,6 +125,8 @@ class Beam:
             # Normalise GAv / kf to one entry per span (None => off).
             GAv_list = self._broadcast_GAv(GAv, len(L))
             kf_list = self._broadcast_kf(kf, len(L))
+            if len(eletype) != len(L):
+                raise ValueError("Define eletype for each span")
             # A single rigidity (scalar EI, or one SectionEI) applies to all
             # spans; otherwise one rigidity per span is required.
             if isinstance(EI, (float, int, SectionEI)):
-- 
2.43.0


From 1ae2be3958db6585a5de307223f8305a841063cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:21 +0000
Subject: [PATCH 31/48] fix: refuse unknown load types and loads on members
 that do not exist

---
 src/pycba/beam.py      | 3 +++
 src/pycba/inf_lines.py | 7 ++++---
 src/pycba/load.py      | 2 ++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 7d9ff94..6700dbe 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -340,6 +340,9 @@ class Beam:
 
         """
         self._loads = parse_LM(self.LM)
+        for load in self._loads:
+            if not 0 <= load.i_span < self.no_members:
+                raise ValueError(f"Load on non-existent member {load.i_span + 1}")
         # Imposed-curvature loads need the member rigidity to evaluate their
         # fixed-end forces; supply it from the span definition.
         for load in self._loads:
diff --git a/src/pycba/inf_lines.py b/src/pycba/inf_lines.py
index 2b05123..744c611 100644
--- a/src/pycba/inf_lines.py
+++ b/src/pycba/inf_lines.py
@@ -82,10 +82,11 @@ class InfluenceLines:
             self.pos.append(pos)
             # locate load on span
             ispan, pos_in_span = self.ba.beam.get_local_span_coords(pos)
-            if ispan == -1:
-                load_val = 0.0
             # assemble and set load matrix
-            self.ba.set_loads([[ispan + 1, 2, load_val, pos_in_span, 0]])
+            on_beam = ispan != -1
+            self.ba.set_loads(
+                [[ispan + 1, 2, load_val, pos_in_span, 0]] if on_beam else []
+            )
             # analyze
             out = self.ba.analyze()
             if out != 0:
diff --git a/src/pycba/load.py b/src/pycba/load.py
index a222ddf..ccccb36 100644
--- a/src/pycba/load.py
+++ b/src/pycba/load.py
@@ -1117,6 +1117,8 @@ def parse_LM(LM: LoadMatrix) -> List[Load]:
             # [k0, k1, k2, ...] in increasing powers of x.
             kappa = load[2:]
             loads.append(LoadIC(span, kappa))
+        else:
+            raise ValueError(f"Unknown load type {ltype!r} in load {load}")
     return loads
 
 
-- 
2.43.0


From 45ed6a002e011388654618ea20982f3f2b30fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:56 +0000
Subject: [PATCH 32/48] fix: a single numpy number is one value for all spans

---
 src/pycba/beam.py      | 6 +++---
 src/pycba/modal.py     | 2 +-
 src/pycba/nonlinear.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 6700dbe..5aff51a 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -129,7 +129,7 @@ class Beam:
                 raise ValueError("Define eletype for each span")
             # A single rigidity (scalar EI, or one SectionEI) applies to all
             # spans; otherwise one rigidity per span is required.
-            if isinstance(EI, (float, int, SectionEI)):
+            if isinstance(EI, (float, int, np.number, SectionEI)):
                 for l, et, gav, k in zip(L, eletype, GAv_list, kf_list):
                     self.add_span(l, EI, et, gav, k)
             else:
@@ -167,7 +167,7 @@ class Beam:
         """
         if GAv is None:
             return [None] * n_spans
-        if isinstance(GAv, (float, int, SectionEI)):
+        if isinstance(GAv, (float, int, np.number, SectionEI)):
             return [GAv] * n_spans
         GAv = list(GAv)
         if len(GAv) != n_spans:
@@ -185,7 +185,7 @@ class Beam:
         """
         if kf is None:
             return [None] * n_spans
-        if isinstance(kf, (float, int)):
+        if isinstance(kf, (float, int, np.number)):
             return [kf] * n_spans
         kf = list(kf)
         if len(kf) != n_spans:
diff --git a/src/pycba/modal.py b/src/pycba/modal.py
index 5f19614..e32a008 100644
--- a/src/pycba/modal.py
+++ b/src/pycba/modal.py
@@ -192,7 +192,7 @@ class ModalResults:
 
 def _broadcast_mass(mass, n_spans: int) -> list:
     """Normalise the mass-per-length argument to one entry per span."""
-    if isinstance(mass, (float, int)):
+    if isinstance(mass, (float, int, np.number)):
         return [float(mass)] * n_spans
     mass = list(mass)
     if len(mass) != n_spans:
diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index e6884df..4e1eeca 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -625,7 +625,7 @@ class NonlinearBeamAnalysis:
 
         _as = (
             lambda v, n: np.full(n, float(v))
-            if isinstance(v, (int, float))
+            if isinstance(v, (int, float, np.number))
             else np.atleast_1d(np.asarray(v, dtype=float))
         )
         self.span_EI = _as(EI, self.n_spans)
-- 
2.43.0


From bcd4bf36299c1aaaf84145c800668962028b4381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 33/48] fix: dimensions on schematics carry the chosen length
 unit, not always m

---
 src/pycba/render.py | 4 ++--
 src/pycba/units.py  | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index cefdece..af44ec8 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -848,7 +848,7 @@ class BeamPlotter:
             ax.text(
                 0.5 * (x0 + x1),
                 yd - 0.15 * sh,
-                f"{x1 - x0:g} m",
+                self._us.fmt_length(x1 - x0),
                 ha="center",
                 va="top",
                 color="0.35",
@@ -871,7 +871,7 @@ class BeamPlotter:
         ax.text(
             0.5 * (x0 + x1),
             yd - 0.12 * sh,
-            f"{x1 - x0:g} m",
+            self._us.fmt_length(x1 - x0),
             ha="center",
             va="top",
             color="0.45",
diff --git a/src/pycba/units.py b/src/pycba/units.py
index 616be23..164c97e 100644
--- a/src/pycba/units.py
+++ b/src/pycba/units.py
@@ -98,6 +98,9 @@ class UnitSystem:
     def fmt_moment(self, value: float) -> str:
         return self._val(f"{value:g}", self.moment)
 
+    def fmt_length(self, value: float) -> str:
+        return self._val(f"{value:g}", self.length)
+
     def fmt_distributed(self, w0: float, w1: Optional[float] = None) -> str:
         """Format a (possibly varying) distributed load, e.g. ``5→8 kN/m``."""
         if w1 is None or w1 == w0:
-- 
2.43.0


From 4f191415611e37038a5457f1c0a232c6c5f4fb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 34/48] fix: plot the reaction extremes, not a zero history,
 for merged envelopes

---
 src/pycba/bridge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 933f5e9..b89bab6 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -1210,8 +1210,8 @@ class BridgeAnalysis:
 
         # Reactions may be force or moment; show both unit labels.
         react_u = f" ({us.force}/{us.moment})" if us.force and us.moment else ""
-        # Check if consistent envelope
-        if len(self.pos) == env.Rmax.shape[1]:
+        # Check if consistent envelope (one that still has its reaction histories)
+        if env._has_history and len(self.pos) == env.Rmax.shape[1]:
             axsRight = np.atleast_1d(subfigs[1].subplots(nreactions, 1, sharex=True))
             pos = np.asarray(self.pos)
             for i, ax in enumerate(axsRight):
-- 
2.43.0


From e826ded85a902c23d18c346c77f186b7b524ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 35/48] fix: draw a rotational spring support as a spiral, not
 a vertical spring

---
 src/pycba/render.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index af44ec8..f59626a 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -614,9 +614,11 @@ class BeamPlotter:
                     lw=0.8,
                     zorder=3,
                 )
-        elif s.kind in (SPRING, TORSION_SPRING):
+        elif s.kind == SPRING:
             self._spring_mpl(ax, x, sh)
             self._ground_mpl(ax, x, -1.2 * sh, 1.3 * sh)
+        elif s.kind == TORSION_SPRING:
+            self._rot_spring_mpl(ax, x, sh)
         elif s.kind == GUIDED:
             ax.plot(
                 [x - 0.5 * sh, x + 0.5 * sh],
-- 
2.43.0


From 0d4a24a0a74f8b0dcd3fbba88ad644b542f56011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 36/48] fix: TikZ schematics show hinges located at an internal
 support

---
 src/pycba/render.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index f59626a..8d6614a 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -1063,14 +1063,16 @@ class BeamPlotter:
     def _hinges_tikz(self, nodes: List[str]) -> List[str]:
         out: List[str] = []
         support_nodes = set()
+        hinge_nodes = {h.node for h in self.hinges}
         # Little pin at every pin/roller support: a full circle at an end
         # support, and a half-circle (clipped to the member side) at an internal
-        # support - matching the doc examples (e.g. B in intro_ex_1).
+        # support - matching the doc examples (e.g. B in intro_ex_1) - unless
+        # the members are hinged there.
         for s in self.supports:
             if s.kind in (PIN, ROLLER):
                 i = s.node
                 support_nodes.add(i)
-                if s.at_left_end or s.at_right_end:
+                if s.at_left_end or s.at_right_end or i in hinge_nodes:
                     out.append(f"\\hinge{{1}}{{{nodes[i]}}};")
                 else:
                     out.append(
-- 
2.43.0


From c0db16749db8b94b0ee3af0963f7c93021058636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 37/48] fix: label the nodes beyond Z with letters instead of
 punctuation

---
 src/pycba/render.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index 8d6614a..6ccc7ba 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -381,7 +381,7 @@ class BeamPlotter:
                 ax.text(
                     s.x + (0.8 * sh if right else -0.8 * sh),
                     -0.55 * sh,
-                    chr(ord("A") + s.node),
+                    self._node_letter(s.node),
                     ha="left" if right else "right",
                     va="center",
                     fontsize=9,
@@ -969,7 +969,7 @@ class BeamPlotter:
                     if s.at_right_end
                     else "below left=1mm and 4mm"
                 )
-                letter = chr(ord("A") + s.node)
+                letter = self._node_letter(s.node)
                 lines.append(
                     f"\t\\notation{{1}}{{{nodes[s.node]}}}{{${letter}$}}[{pos}];"
                 )
@@ -1030,6 +1030,16 @@ class BeamPlotter:
             )
         return pdf
 
+    @staticmethod
+    def _node_letter(i: int) -> str:
+        """The label of node ``i``: ``A`` ... ``Z``, ``AA``, ``AB``, ..."""
+        letters = ""
+        i += 1
+        while i > 0:
+            i, k = divmod(i - 1, 26)
+            letters = chr(ord("A") + k) + letters
+        return letters
+
     # --- TikZ helpers --------------------------------------------------- #
     @staticmethod
     def _node_name(i: int) -> str:
-- 
2.43.0


From 44b22bad8d6ef7ef7cd0f9b3eecc11eae01bca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 38/48] fix: schematics label a load that changes sign with its
 signs

---
 src/pycba/render.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index 6ccc7ba..243eca8 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -274,6 +274,14 @@ class BeamPlotter:
                 hinges.append(Hinge(self.node_x[i], i))
         return hinges
 
+    @staticmethod
+    def _label_values(d: DistLoad) -> Tuple[float, float]:
+        """The end intensities as labelled: the arrows tell the direction, so
+        the signs are only kept when the load changes direction."""
+        if d.w0 * d.w1 < 0:
+            return d.w0, d.w1
+        return abs(d.w0), abs(d.w1)
+
     def _is_partial_dist(self, d: DistLoad) -> bool:
         """True if a distributed load covers less than its full span (so its
         extent is worth dimensioning)."""
@@ -771,10 +779,11 @@ class BeamPlotter:
             )
         if show_val:
             same = abs(d.w0 - d.w1) < 1e-9
+            w0, w1 = self._label_values(d)
             lbl = (
-                self._us.fmt_distributed(abs(d.w0))
+                self._us.fmt_distributed(w0)
                 if same
-                else self._us.fmt_distributed(abs(d.w0), abs(d.w1))
+                else self._us.fmt_distributed(w0, w1)
             )
             ax.text(
                 0.5 * (x0 + x1),
@@ -1123,7 +1132,8 @@ class BeamPlotter:
                     if abs(d.w0 - d.w1) < 1e-9:
                         lbl = f"${abs(d.w0):g}${du}"
                     else:
-                        lbl = f"${abs(d.w0):g}\\rightarrow{abs(d.w1):g}${du}"
+                        w0, w1 = self._label_values(d)
+                        lbl = f"${w0:g}\\rightarrow{w1:g}${du}"
                     out.append(
                         f"\\notation{{5}}{{dl{k}a}}{{dl{k}b}}[{lbl}][0.5][above=8mm];"
                     )
-- 
2.43.0


From eb674ab43f8b639b60c18a881c5419c17107c176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 39/48] fix: draw a partial UDL that overhangs its member only
 on the member

---
 src/pycba/render.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index 243eca8..d55791a 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -241,9 +241,9 @@ class BeamPlotter:
             if isinstance(ld, LoadUDL):
                 dist.append(DistLoad(ld.i_span, off, off + span_len, ld.w, ld.w))
             elif isinstance(ld, LoadPUDL):
-                dist.append(
-                    DistLoad(ld.i_span, off + ld.a, off + ld.a + ld.c, ld.w, ld.w)
-                )
+                # The part beyond the member carries no load (see LoadPUDL)
+                b = min(ld.a + ld.c, span_len)
+                dist.append(DistLoad(ld.i_span, off + ld.a, off + b, ld.w, ld.w))
             elif isinstance(ld, LoadTrapez):
                 w1, w2, _dw, a, c = ld._resolve(span_len)
                 if c > 0:
-- 
2.43.0


From 64291cbca720cba1e80354936ff943bd218fa7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 40/48] fix: TikZ schematics draw upward distributed loads
 upward

---
 src/pycba/render.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index d55791a..3aedf16 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -1120,9 +1120,20 @@ class BeamPlotter:
                 f1 = self._span_fraction(d.i_span, d.x1)
                 out.append(f"\\node (dl{k}a) at ($({ni})!{f0:g}!({nj})$){{}};")
                 out.append(f"\\node (dl{k}b) at ($({ni})!{f1:g}!({nj})$){{}};")
-                h0 = 0.3 + 0.4 * abs(d.w0) / wmax
-                h1 = 0.3 + 0.4 * abs(d.w1) / wmax
-                out.append(f"\\lineload{{1}}{{dl{k}a}}{{dl{k}b}}[{h0:g}][{h1:g}];")
+                parts = [(f"dl{k}a", d.w0, f"dl{k}b", d.w1)]
+                if d.w0 * d.w1 < 0:  # split where the load changes direction
+                    fz = f0 + (f1 - f0) * d.w0 / (d.w0 - d.w1)
+                    out.append(f"\\node (dl{k}z) at ($({ni})!{fz:g}!({nj})$){{}};")
+                    parts = [
+                        (f"dl{k}a", d.w0, f"dl{k}z", 0.0),
+                        (f"dl{k}z", 0.0, f"dl{k}b", d.w1),
+                    ]
+                for a, wa, b, wb in parts:
+                    ha = 0.3 + 0.4 * abs(wa) / wmax
+                    hb = 0.3 + 0.4 * abs(wb) / wmax
+                    if min(wa, wb) < 0:  # upward: on the other side of the beam
+                        a, ha, b, hb = b, hb, a, ha
+                    out.append(f"\\lineload{{1}}{{{a}}}{{{b}}}[{ha:g}][{hb:g}];")
             out.append("\\end{scope}")
             if show_val:
                 pdist = -max(0.6, 0.055 * self.L)
@@ -1134,8 +1145,9 @@ class BeamPlotter:
                     else:
                         w0, w1 = self._label_values(d)
                         lbl = f"${w0:g}\\rightarrow{w1:g}${du}"
+                    side = "below" if max(d.w0, d.w1) <= 0 > min(d.w0, d.w1) else "above"
                     out.append(
-                        f"\\notation{{5}}{{dl{k}a}}{{dl{k}b}}[{lbl}][0.5][above=8mm];"
+                        f"\\notation{{5}}{{dl{k}a}}{{dl{k}b}}[{lbl}][0.5][{side}=8mm];"
                     )
                     # The extent of a partial distributed load is a load
                     # annotation (shown with the magnitudes), not a span
-- 
2.43.0


From 41af2379045da2726238410451aaa39c07166d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 41/48] fix: TikZ schematics show rotational springs at pins
 and rollers

---
 src/pycba/render.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index 3aedf16..fb7618a 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -946,6 +946,8 @@ class BeamPlotter:
         lines.append("\t% Supports")
         for s in self.supports:
             lines.append("\t" + self._support_tikz(s, nodes))
+            if s.rot_spring:
+                lines.append(f"\t\\support{{6}}{{{nodes[s.node]}}};")
 
         hinge_lines = self._hinges_tikz(nodes)
         if hinge_lines:
-- 
2.43.0


From b33b9ce78097ca2e5f5dc7d6be9703234f95fda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:52 +0000
Subject: [PATCH 42/48] fix: judge stability on the equilibrated stiffness
 matrix

---
 src/pycba/analysis.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pycba/analysis.py b/src/pycba/analysis.py
index addedb1..4e80e92 100644
--- a/src/pycba/analysis.py
+++ b/src/pycba/analysis.py
@@ -524,7 +524,9 @@ class BeamAnalysis:
         over-released internal hinge) makes it singular: its smallest
         eigenvalue collapses to zero relative to the largest.  The reciprocal
         condition number ``min|λ| / max|λ|`` is therefore compared against
-        :attr:`_STABILITY_RCOND`; a value below it indicates a mechanism.
+        :attr:`_STABILITY_RCOND`; a value below it indicates a mechanism.  The
+        partition is first scaled to a unit diagonal, so that neither the units
+        (displacements against rotations) nor a very stiff spring affect it.
 
         Parameters
         ----------
@@ -550,9 +552,13 @@ class BeamAnalysis:
             return  # fully constrained: nothing to solve, trivially stable
 
         kff = ksysU[np.ix_(free, free)]
-        ev = np.abs(np.linalg.eigvalsh(kff))
-        ev_max = ev.max()
-        if ev_max == 0.0 or (ev.min() / ev_max) < self._STABILITY_RCOND:
+        diag = np.diag(kff)
+        stable = diag.min() > 0.0
+        if stable:
+            s = 1.0 / np.sqrt(diag)
+            ev = np.abs(np.linalg.eigvalsh(kff * np.outer(s, s)))
+            stable = ev.min() / ev.max() >= self._STABILITY_RCOND
+        if not stable:
             raise ValueError(
                 "Structure is geometrically unstable: the free-DOF stiffness "
                 "is singular, indicating a mechanism (e.g. insufficient support "
-- 
2.43.0


From 320e8530d5f35ae5c6f0b90444db44e5be77bb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:34 +0000
Subject: [PATCH 43/48] fix: envelopes of a beam without fixed supports can be
 plotted

---
 src/pycba/bridge.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index b89bab6..0060085 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -1205,6 +1205,9 @@ class BridgeAnalysis:
         ax.set_ylabel(us.shear_axis)
         ax.set_xlabel(us.distance_axis)
 
+        if nreactions == 0:  # no fixed restraints, e.g. all supports are springs
+            return
+
         # Reactions in right panel
         subfigs[1].suptitle("Support Reactions")
 
@@ -1294,9 +1297,9 @@ class BridgeAnalysis:
 
         us = resolve(units)
         # Set of keys we want to confirm are present
-        check_keys = set(
-            ["x", "Mmax", "Mmin", "Vmax", "Vmin", "nsup", "Rmax0", "Rmin0"]
-        )
+        check_keys = set(["x", "Mmax", "Mmin", "Vmax", "Vmin", "nsup"])
+        if env_ratios.get("nsup") != 0:  # no fixed restraints: no reaction ratios
+            check_keys |= {"Rmax0", "Rmin0"}
         if not check_keys.issubset(env_ratios.keys()):
             raise ValueError(
                 "Dictionary argument does not contain sufficient ratios information"
-- 
2.43.0


From ced6c1aebfa75554bba73db3f8f9b91218351461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:20 +0000
Subject: [PATCH 44/48] fix: a segment load ending just short of a support
 keeps its length

---
 src/pycba/load_cases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index a245866..721a60b 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -1145,7 +1145,7 @@ def _make_segment_udl(
         a = overlap_start - span_start
         if np.isclose(a, 0.0, atol=tol):
             a = 0.0
-        if np.isclose(cover, span_length, atol=tol):
+        if np.isclose(cover, span_length, rtol=0.0, atol=tol):
             cover = span_length
 
         if a == 0.0 and cover == span_length:
-- 
2.43.0


From 496259d6cf0685648ad0b2f4797517c2aaa8939d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:20 +0000
Subject: [PATCH 45/48] fix: a partial load ending just short of a foundation
 mesh point keeps its length

---
 src/pycba/foundation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/foundation.py b/src/pycba/foundation.py
index 09ea8e1..6f91f88 100644
--- a/src/pycba/foundation.py
+++ b/src/pycba/foundation.py
@@ -182,7 +182,7 @@ class FoundationElement:
                     x0, x1 = e * h, (e + 1) * h
                     lo, hi = max(a0, x0), min(a1, x1)
                     if hi - lo > 1e-12 * L:
-                        if np.isclose(lo, x0) and np.isclose(hi, x1):
+                        if lo == x0 and hi == x1:
                             per[e].append(LoadUDL(0, load.w))
                         else:
                             per[e].append(LoadPUDL(0, load.w, lo - x0, hi - lo))
-- 
2.43.0


From 5a79ea7054987fb3d1bb63bcdfd50d60a94d58d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:07 +0000
Subject: [PATCH 46/48] fix: the plastic mechanism test does not depend on the
 units

---
 src/pycba/nonlinear.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 4e1eeca..6d17931 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -909,7 +909,10 @@ class NonlinearBeamAnalysis:
                 R_test[0, 0] = 0.0
         K_test = self._assemble_from_elem_R(R_test)
         self._apply_bc_inplace(K_test)
-        return np.linalg.matrix_rank(K_test, tol=1e-6) < self.n_dof
+        # (diagonally scaled, so that the tolerance does not depend on the units)
+        d = np.diag(K_test)
+        s = 1.0 / np.sqrt(np.where(d > 0.0, d, 1.0))
+        return np.linalg.matrix_rank(K_test * np.outer(s, s), tol=1e-12) < self.n_dof
 
     # ---- Static incremental analysis ----
 
-- 
2.43.0


From 403c32a79fb7f686eb29aa3bf201a3581328cc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:04 +0000
Subject: [PATCH 47/48] fix: critical vehicle positions do not depend on the
 units

---
 src/pycba/bridge.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 0060085..abb9512 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -633,26 +633,29 @@ class BridgeAnalysis:
         Vmax = env.Vmax.max()
         Vmin = env.Vmin.min()
 
-        # Find the indices of the critical vehicle positions
+        # Find the indices of the critical vehicle positions (round-off is judged
+        # against the size of the effect, whatever the units)
+        tolM = 1e-9 * max(abs(Mmax), abs(Mmin))
+        tolV = 1e-9 * max(abs(Vmax), abs(Vmin))
         indx["Mmax"] = [
             i
             for i, res in enumerate(self.vResults)
-            if np.isclose(res.results.M.max(), Mmax)
+            if np.isclose(res.results.M.max(), Mmax, atol=tolM)
         ]
         indx["Mmin"] = [
             i
             for i, res in enumerate(self.vResults)
-            if np.isclose(res.results.M.min(), Mmin)
+            if np.isclose(res.results.M.min(), Mmin, atol=tolM)
         ]
         indx["Vmax"] = [
             i
             for i, res in enumerate(self.vResults)
-            if np.isclose(res.results.V.max(), Vmax)
+            if np.isclose(res.results.V.max(), Vmax, atol=tolV)
         ]
         indx["Vmin"] = [
             i
             for i, res in enumerate(self.vResults)
-            if np.isclose(res.results.V.min(), Vmin)
+            if np.isclose(res.results.V.min(), Vmin, atol=tolV)
         ]
 
         # Now check for any errors
-- 
2.43.0


From aa01f24d726a4eed0e4205011d368fb98dd6ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:04 +0000
Subject: [PATCH 48/48] fix: the distributed load of a shallow tendon is kept
 in small length units

---
 src/pycba/prestress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/prestress.py b/src/pycba/prestress.py
index 38d6dc7..1f159b8 100644
--- a/src/pycba/prestress.py
+++ b/src/pycba/prestress.py
@@ -359,7 +359,7 @@ def equivalent_loads(
         # distributed loads from curvature; point loads from interior kinks
         prev_end_slope = None
         for k, s in enumerate(segs):
-            if abs(s.epp) > _TOL:
+            if abs(s.epp) * Li > _TOL:  # a change of slope, whatever the units
                 w = Fi * s.epp  # +down (pycba); upward tendon load is negative
                 if s.x1 <= _TOL and s.x2 >= Li - _TOL:
                     LM.append([span, 1, w])  # full-span UDL
-- 
2.43.0

