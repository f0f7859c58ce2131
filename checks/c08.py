"""C08: non-prismatic members against the independent reference."""
import numpy as np
from hypothesis import strategies as st

from harness import cmp, gen
from harness import refbeam as rb
from harness.core import Check, Sub, require


def check(case, rec):
    ref = gen.solved_reference(case)
    ba = gen.analysed(case)
    gen.classify(case, rec)
    for e in case["EI"]:
        if isinstance(e, list):
            rec.cls(*["seg-" + g["kind"] + (str(len(g["x"])) if g["kind"] == "poly" else "") for g in e])
            rec.cls(f"segs{len(e)}")
    rec.mark(any(isinstance(e, list) for e in case["EI"]))
    cmp.reactions(ba, ref)
    cmp.nodal(ba, ref)
    cmp.forces(ba, ref)
    cmp.displacements(ba, ref)


def spelled(segs, how):
    """One rigidity, described in the other ways the builder accepts."""
    from pycba import SectionEI

    out = []
    for k, g in enumerate(segs):
        kind, x, ei = g["kind"], list(g["x"]), g["ei"]
        w = (how + k) % 6
        pc = rb.section_pieces([g])
        at = lambda q, pc=pc: rb.poly_on(pc, np.atleast_1d(np.asarray(q, float)))
        if kind == "linear" and w == 1:
            kind = "poly"
        elif kind == "const" and w in (1, 2):
            kind, ei = ("linear", "poly")[w - 1], [ei, ei]
        elif kind == "linear" and w == 2:
            m = 0.3 * x[0] + 0.7 * x[1]
            kind, x, ei = "pwl", [x[0], m, x[1]], [ei[0], float(at(m)[0]), ei[1]]
        elif kind == "poly" and w in (1, 2):  # more samples than the degree needs
            d = len(x) - 1
            x = [x[0] + (x[-1] - x[0]) * j / (d + 3) for j in range(d + 3)] + [x[-1]]
            out.append((kind, np.array(x), at(x), d) if w == 1 else dict(seg_type=kind, x=x, ei=list(at(x)), degree=d))
            continue
        elif kind == "poly" and w == 3 and x[0] <= 0.5 * x[-1]:
            out.append((kind, [x[0], x[-1]], at) if k % 2 else (kind, [x[0], x[-1]], at, len(x) - 1))
            continue
        elif kind == "poly" and w == 4 and x[0] == 0.0:  # its own samples, irregular stations
            d = len(x) - 1
            x = [0.0] + [x[-1] * (j / d) ** 1.3 for j in range(1, d)] + [x[-1]]
            ei = list(at(x))
        if w == 5:
            x, ei = np.array(x), (ei if kind == "const" else np.array(ei))
        out.append((kind, x, ei) if k % 2 else dict(seg_type=kind, x=x, ei=ei))
    if how % 2:
        return SectionEI(out)
    s = SectionEI()
    for o in out:
        r = s.add_segment(*([o["seg_type"], o["x"], o["ei"], o.get("degree")] if isinstance(o, dict) else o))
        require(r is s, "add_segment does not return the section")
    return s


def description(c, rec):
    """The section is the rigidity described, in every way of describing it."""
    case = c["beam"]
    L = case["L"]
    secs = [spelled(e, c["how"] + i) if isinstance(e, list) else e for i, e in enumerate(case["EI"])]
    plain = [gen.section(e) if isinstance(e, list) else e for e in case["EI"]]
    rec.mark()
    for e, s, p, l in zip(case["EI"], secs, plain, L):
        if not isinstance(e, list):
            continue
        rec.cls(*["seg-" + g["kind"] for g in e])
        pc = rb.section_pieces(e)
        joins = sorted({q for g in e for q in ([g["x"][0], g["x"][-1]] if g["kind"] != "pwl" else g["x"])})
        q = np.array([v for a, b in zip(joins[:-1], joins[1:]) for v in (0.999999 * a + 1e-6 * b, 0.7 * a + 0.3 * b, 0.5 * (a + b), 0.1 * a + 0.9 * b)] + [0.0, l])
        want = rb.poly_on(pc, q)
        for nm, o in (("other", s), ("plain", p)):
            got = np.asarray(o(q))
            k = int(np.argmax(np.abs(got - want) / want))
            require(np.all(np.abs(got - want) <= 1e-6 * want), f"{nm} description: EI({q[k]:.6g}) = {got[k]:.10g}, expected {want[k]:.10g}")
            one = o(float(q[1]))
            require(isinstance(one, float) and one == got[1], "a single query differs from the same query in an array")
            require(abs(o.length - l) <= 1e-9 * l, f"section of length {o.length}, expected {l}")
            bp = np.asarray(o.breakpoints)
            require(np.all(np.diff(bp) > 0) and all(np.min(np.abs(bp - j)) <= 1e-9 * l for j in joins), f"breakpoints {bp}, segments join at {joins}")
            for j0, j1 in zip(joins[:-1], joins[1:]):  # at a step the piece ending there
                a_, b_ = float(rb.poly_on(pc, np.array([j1 - 1e-9 * l]))[0]), o(float(j1))
                require(abs(a_ - b_) <= 1e-6 * a_, f"EI at the join {j1:.6g} is {b_:.8g}, the segment ending there has {a_:.8g}")
        const = len({g["ei"] for g in e}) == 1 if all(g["kind"] == "const" for g in e) else False
        if all(g["kind"] == "const" for g in e) or max(want) > min(want) * 1.01:
            require(p.is_constant == const, f"is_constant is {p.is_constant}")
    gen.solved_reference(case)
    kw = gen.kwargs(case)
    ra = gen.analysed(case).beam_results
    import pycba as cba

    b = cba.BeamAnalysis(**dict(kw, EI=secs))
    b.analyze()
    for a in "MVDR":
        u, w = np.asarray(getattr(ra.results, a)), np.asarray(getattr(b.beam_results.results, a))
        sc = max(np.abs(u).max(), np.abs(w).max(), 1e-300)
        F, T = gen.load_force(case, case["LM"]), float(sum(L))
        sc = max(sc, {"V": F, "M": F * T, "R": 1e-6 * F * T**2 / gen.eimax(case), "D": 1e-6 * F * T**3 / gen.eimax(case)}[a])
        require(u.shape == w.shape and np.all(np.abs(u - w) <= 2e-6 * sc), f"{a} depends on how the rigidity is described: {np.abs(u - w).max():.4g} of {sc:.4g}")


def description_st():
    return st.fixed_dictionaries({"beam": gen.beams(max_spans=2, nonprismatic=True), "how": st.integers(0, 11)})


CHECK = Check(
    "C08",
    "non-trivial = at least one member with a variable EI",
    [Sub("reference", lambda: gen.any_npts(gen.beams(max_spans=4, nonprismatic=True)), check, 1200, 24000),
     Sub("description", description_st, description, 600, 8000)],
    ["the reference solution (Gauss quadrature of curvature over smooth pieces) is right"],
)
