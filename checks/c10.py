"""C10: imposed (free) curvatures: restraint forces against the reference, none if determinate."""
import numpy as np
from hypothesis import strategies as st

from harness import cmp, gen
from harness.core import Check, Sub, require


def check(case, rec):
    if not any(r[1] == 6 for r in case["LM"]):
        L = case["L"][0]
        case = dict(case, LM=case["LM"] + [[1, 6, 1e-4, -2e-5 / L]])
    ref = gen.solved_reference(case)
    ba = gen.analysed(case)
    gen.classify(case, rec)
    rec.mark()
    cmp.reactions(ba, ref)
    cmp.nodal(ba, ref)
    cmp.forces(ba, ref)
    cmp.displacements(ba, ref)


@st.composite
def determinate(draw):
    """Statically determinate beams: simple spans, cantilevers, Gerber beams."""
    kind = draw(st.sampled_from(["simple", "cantilever", "cantileverR", "gerber", "springs", "overhang"]))
    E = draw(gen.EI0)
    n = {"simple": 1, "cantilever": 1, "cantileverR": 1, "springs": 1, "gerber": draw(st.integers(3, 4)), "overhang": 2}[kind]
    L = [draw(gen.lengths(2, 30)) for _ in range(n)]
    et = [1] * n
    if kind == "simple":
        R = [-1, 0, -1, 0]
    elif kind == "cantilever":
        R = [-1, -1, 0, 0]
    elif kind == "cantileverR":
        R = [0, 0, -1, -1]
    elif kind == "springs":
        R = [gen.r4(E / L[0] ** 3 * 5), 0, gen.r4(E / L[0] ** 3 * 40), 0]
    elif kind == "overhang":
        R = [-1, 0, -1, 0, 0, 0]
    else:  # fixed - free hinge - pin - hinge ...: one release per extra support
        R = [-1, -1, 0, 0, -1, 0, 0, 0][:6] + [0, 0]
        L = L[:3]
        n, et = 3, [2, 1, 1]
        R = [-1, -1, 0, 0, -1, 0, 0, 0]
    EI = [E * draw(st.sampled_from([1.0, 2.0, 0.5])) for _ in range(n)]
    for i in range(n):
        if draw(st.integers(0, 2)) == 0:
            s = draw(gen.section_segs(L[i], EI[i]))
            if gen.segs_positive(s):
                EI[i] = s
    LM = draw(gen.load_matrix(L, (6,), 1, 3))
    return {"L": L, "EI": EI, "et": et, "R": R, "D": None, "GA": None, "kf": None, "LM": LM, "kind": kind}


def free(case, rec):
    """No internal force; the free shape is the double integral of the curvature."""
    ba = gen.analysed(case)
    b = ba.beam_results
    rec.cls(case["kind"])
    rec.mark()
    kmax = 0.0
    for r in case["LM"]:
        L = case["L"][r[0] - 1]
        kmax = max(kmax, sum(abs(k) * L**j for j, k in enumerate(r[2:])))
    EI = gen.eimax(case)
    tol = 1e-7 * EI * kmax * max(1.0, max(case["L"]) / min(case["L"])) ** 3
    Lm = min(case["L"])
    require(np.max(np.abs(b.results.M)) <= tol, f"imposed curvature causes moment {np.max(np.abs(b.results.M)):.4g} in a determinate beam")
    require(np.max(np.abs(b.results.V)) <= tol / Lm, f"imposed curvature causes shear {np.max(np.abs(b.results.V)):.4g} in a determinate beam")
    require(np.max(np.abs(np.concatenate([b.R, b.Rs, [0.0]]))) <= tol / min(Lm, 1.0), "imposed curvature causes reactions in a determinate beam")
    ref = gen.solved_reference(case)
    cmp.nodal(ba, ref)
    cmp.displacements(ba, ref)


CHECK = Check(
    "C10",
    "non-trivial = at least one imposed curvature field is present (always)",
    [
        Sub("restrained", lambda: gen.any_npts(st.one_of(
            gen.beams(max_spans=4, types=(6, 6, 1, 2, 4)),
            gen.beams(max_spans=3, types=(6,), nonprismatic=True),
            gen.beams(max_spans=3, types=(6, 6, 1), timo=True),
            gen.beams(max_spans=2, types=(6, 6, 3), timo=True, nonprismatic=True))), check, 2000, 40000),
        Sub("determinate", lambda: gen.any_npts(determinate()), free, 1000, 20000),
    ],
    ["the reference solution (initial-strain flexibility method) is right"],
)
