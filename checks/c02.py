"""C02: prismatic Euler-Bernoulli beams against the independent reference."""
import numpy as np

from harness import cmp, gen
from harness.core import Check, Sub


def check(case, rec, fields=True):
    ref = gen.solved_reference(case)
    ba = gen.analysed(case)
    gen.classify(case, rec)
    rec.mark(len(case["L"]) > 1 or any(e != 1 for e in case["et"]) or case["D"] is not None)
    cmp.reactions(ba, ref)
    cmp.nodal(ba, ref)
    cmp.forces(ba, ref)
    cmp.displacements(ba, ref)


def npts(case, rec):
    """Any number of evaluation points reports the same exact field."""
    from hypothesis import strategies as st  # noqa: F401

    ref = gen.solved_reference(case)
    ba = gen.analysed(case, npts=case["npts"])
    rec.mark(case["npts"] != 100)
    rec.cls("npts<20" if case["npts"] < 20 else "npts>=20")
    for m in ba.beam_results.vRes:
        L = float(m.x[-1] - m.x[0])
        cmp.close(np.asarray(m.x[1:-1], float), m.x[0] + L * np.arange(case["npts"] + 1) / case["npts"], 1e-9 * max(sum(case["L"]), L), "evaluation points")
        if len(m.x) != case["npts"] + 3:
            from harness.core import Violation

            raise Violation(f"npts={case['npts']} gave {len(m.x)} stations")
    cmp.reactions(ba, ref)
    cmp.forces(ba, ref)
    cmp.displacements(ba, ref)


def _with_npts():
    from hypothesis import strategies as st

    return st.tuples(gen.beams(max_spans=3), st.one_of(st.integers(4, 250), st.integers(4, 250), st.integers(251, 1500))).map(lambda t: dict(t[0], npts=t[1]))


CHECK = Check(
    "C02",
    "non-trivial = statically indeterminate, released, settled or multi-span prismatic beam; "
    "for 'npts' a resolution other than the default",
    [
        Sub("reference", lambda: gen.beams(max_spans=5, types=(1, 2, 3, 4, 5)), check, 1500, 30000),
        Sub("npts", _with_npts, npts, 500, 8000),
    ],
    [
        "the reference solution (flexibility method by quadrature, extra release dofs) is right",
        "reported deflections/rotations may carry the error of trapezoidal integration on the reported stations",
    ],
)
