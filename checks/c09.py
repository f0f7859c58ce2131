"""C09: Timoshenko members against the independent reference."""
from harness import cmp, gen
from harness.core import Check, Sub


def check(case, rec):
    ref = gen.solved_reference(case)
    ba = gen.analysed(case)
    gen.classify(case, rec)
    rec.cls(*["GA-" + ("none" if g is None else "var" if isinstance(g, list) else "const") for g in case["GA"]])
    rec.mark(any(g is not None for g in case["GA"]))
    cmp.reactions(ba, ref)
    cmp.nodal(ba, ref)
    cmp.forces(ba, ref)
    cmp.displacements(ba, ref)


CHECK = Check(
    "C09",
    "non-trivial = at least one shear-flexible member",
    [
        Sub("prismatic", lambda: gen.any_npts(gen.beams(max_spans=4, timo=True)), check, 800, 16000),
        Sub("variable_EI", lambda: gen.any_npts(gen.beams(max_spans=3, timo=True, nonprismatic=True)), check, 800, 16000),
    ],
    ["the reference solution (quadrature of curvature and shear strain) is right"],
)
