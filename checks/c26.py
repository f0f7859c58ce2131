"""C26: equivalent loads of a tendon against the imposed-curvature view of prestress.

The prestressing moment is -F e(x) at every section.  Its effect on the structure is
that of a free curvature -F e / EI; the restraint moment that the curvature causes is
the secondary moment M2, and the balanced moment is M2 - F e.  Deflections and spring
forces are those of the curvature analysis; a rigid support carries, besides, the
tendon's own vertical kink there.
"""
import numpy as np
from hypothesis import strategies as st

from harness import cmp, gen, refbeam as rb
from harness.core import Check, SkipCase, Sub, require

P = np.polynomial.polynomial


# ------------------------------------------------------- tendon geometry -----
def quad(x0, x1, f):
    """Polynomial (local) of a quadratic function given as a callable."""
    h = x1 - x0
    y0, ym, y1 = f(x0), f(0.5 * (x0 + x1)), f(x1)
    return (x0, x1, [y0, (4 * ym - 3 * y0 - y1) / h, 2 * (y0 + y1 - 2 * ym) / h**2])


def pieces(p, L, side):
    """Documented tendon shape as polynomial pieces over the span."""
    k = p["kind"]
    if k in ("parabola", "harp", "double"):
        cl, cr = p["cl"], p["cr"]
        if k == "parabola" and side == "right":
            cr = 0.0
        if k == "parabola" and side == "left":
            cl = 0.0
        a, b = cl, L - cr
        el, er = p["e"][0], p["e"][-1]
        if k == "parabola":
            t = lambda x: (x - a) / (b - a)
            if side == "right":
                f = lambda x: el + (er - el) * t(x) ** 2
            elif side == "left":
                f = lambda x: er + (el - er) * (1 - t(x)) ** 2
            else:
                em = p["e"][1]
                f = lambda x: el * (1 - t(x)) * (1 - 2 * t(x)) + 4 * em * t(x) * (1 - t(x)) + er * t(x) * (2 * t(x) - 1)
            out = [quad(a, b, f)]
        else:
            xs = [a] + list(p["x"]) + [b]
            out = [(u, v, [y, (z - y) / (v - u)]) for u, v, y, z in zip(xs[:-1], xs[1:], p["e"][:-1], p["e"][1:])]
        if cl > 0:
            out.insert(0, (0.0, cl, [el]))
        if cr > 0:
            out.append((b, L, [er]))
        return out
    a, b, c = p["x"]
    el, em, er = p["e"]
    d, cc = L - b, L - c
    # parabolas flat over the supports and at the low point, tangent where they meet
    return [
        quad(0.0, a, lambda x: el + (em - el) * x**2 / (a * c)),
        quad(a, c, lambda x: em - (em - el) * (c - x) ** 2 / (c * (c - a))),
        quad(c, d, lambda x: em - (em - er) * (x - c) ** 2 / (cc * (d - c))),
        quad(d, L, lambda x: er + (em - er) * (L - x) ** 2 / (b * cc)),
    ]


def slope(pc, end):
    x0, x1, c = pc[0] if end == 0 else pc[-1]
    return float(P.polyval(0.0 if end == 0 else x1 - x0, P.polyder(c))) if len(c) > 1 else 0.0


def value(pc, end):
    x0, x1, c = pc[0] if end == 0 else pc[-1]
    return float(P.polyval(0.0 if end == 0 else x1 - x0, c))


def make(p):
    from pycba import prestress as ps

    e, k = p["e"], p["kind"]
    if k == "parabola":
        return ps.Parabola(*e, c_left=p["cl"], c_right=p["cr"])
    if k == "harp":
        return ps.Harp(*e, a=p["x"][0], c_left=p["cl"], c_right=p["cr"])
    if k == "double":
        return ps.DoubleHarp(*e, a=p["x"][0], b=p["x"][1], c_left=p["cl"], c_right=p["cr"])
    return ps.CompoundParabola(*e, *p["x"])


# ------------------------------------------------------------- generation ----
def sides(case):
    n, R = len(case["L"]), case["R"]
    out = [None] * n
    if R[0] == 0 and R[1] == 0:
        out[0] = "left"
    elif R[2 * n] == 0 and R[2 * n + 1] == 0:
        out[-1] = "right"
    if n > 1 and R[2 * n] == 0 and R[2 * n + 1] == 0:
        out[-1] = "right"
    return out


@st.composite
def profile(draw, L, side, el, er):
    k = draw(st.sampled_from(["parabola", "parabola", "harp", "double"] + ([] if side else ["compound", "compound"])))
    ecc = st.sampled_from([-0.05, -0.02, -0.01, 0.0, 0.01, 0.03, 0.05]).map(lambda v: gen.r4(v * L))
    el = draw(ecc) if el is None else el
    er = draw(ecc) if er is None else er
    q = sorted(draw(st.sets(st.integers(1, 19), min_size=4, max_size=4)))
    q = [v * L / 20 for v in q]
    ends = draw(st.integers(0, 3))
    cl = q[0] if ends in (1, 3) else 0.0
    cr = L - q[3] if ends in (2, 3) else 0.0
    p = {"kind": k, "cl": cl, "cr": cr}
    if k == "parabola":
        p["e"], p["x"] = [el, draw(ecc), er], []
    elif k == "harp":
        p["e"], p["x"] = [el, draw(ecc), er], [q[1]]
    elif k == "double":
        p["e"], p["x"] = [el, draw(ecc), draw(ecc), er], [q[1], q[2]]
    else:
        p["e"], p["x"] = [el, draw(ecc), er], [q[0], L - q[2], q[1]]
    return p


@st.composite
def determinate(draw):
    kind = draw(st.sampled_from(["simple", "cantilever", "cantileverR", "springs", "overhang", "overhangL", "gerber", "joint"]))
    n = {"overhang": 2, "overhangL": 2, "gerber": 3, "joint": 2}.get(kind, 1)
    L = [draw(gen.lengths(2, 30)) for _ in range(n)]
    E = draw(gen.EI0)
    et = [1] * n
    kv = gen.r4(E / L[0] ** 3 * draw(st.sampled_from([5.0, 40.0])))
    R = {
        "simple": [-1, 0, -1, 0],
        "cantilever": [-1, -1, 0, 0],
        "cantileverR": [0, 0, -1, -1],
        "springs": [kv, 0, kv * 3, 0],
        "overhang": [-1, 0, -1, 0, 0, 0],
        "overhangL": [0, 0, -1, 0, -1, 0],
        "gerber": [-1, -1, 0, 0, -1, 0, 0, 0],
        "joint": [-1, 0, 0, 0, -1, 0],
    }[kind]
    if kind == "gerber":
        et = [2, 1, 1]
    return {"L": L, "EI": [E] * n, "et": et, "R": R, "D": None, "GA": None, "kf": None, "LM": [], "kind": kind}


@st.composite
def cases(draw):
    if draw(st.integers(0, 2)) == 0:
        case = draw(determinate())
    else:
        case = draw(gen.beams(max_spans=4, settlements=False, nonprismatic=draw(st.integers(0, 3)) == 0, llo=3.0))
        case["LM"] = []
    n = len(case["L"])
    sd = sides(case)
    if n == 1 and case["R"][2] == 0 and case["R"][3] == 0 and case["R"][0] == 0 and case["R"][1] == 0:
        case["R"][0] = case["R"][1] = -1
        sd = sides(case)
    prof = []
    F0 = draw(st.sampled_from([100.0, 1500.0, 4000.0, 1e6]))
    same = draw(st.booleans())
    F = [F0 if same else F0 * draw(st.sampled_from([1.0, 0.8, 1.25])) for _ in range(n)]
    for i in range(n):
        if n > 1 and draw(st.integers(0, 5)) == 0 and (i > 0 and any(prof) or i < n - 1):
            prof.append(None)
            continue
        # a release cannot carry the tendon's moment: the tendon passes it at e = 0
        hl = i > 0 and (case["et"][i - 1] in (2, 4) or case["et"][i] in (3, 4)) or case["et"][i] in (3, 4)
        hr = i < n - 1 and (case["et"][i] in (2, 4) or case["et"][i + 1] in (3, 4)) or case["et"][i] in (2, 4)
        el = 0.0 if hl else None
        if el is None and i > 0 and prof[i - 1] and draw(st.integers(0, 5)) > 0:
            el = prof[i - 1]["e"][-1]  # continuous tendon
        prof.append(draw(profile(case["L"][i], sd[i], el, 0.0 if hr else None)))
    case["profiles"] = prof
    case["F"] = F
    case["scalar"] = same
    case["model"] = draw(st.sampled_from(["beam", "analysis"]))
    return case


# ------------------------------------------------------------------ oracle ---
class Stressed(rb.Member):
    """Member whose imposed curvature is -F e / EI."""

    def stress(self, F, pc):
        self.F, self.pc = F, pc
        return self

    def e(self, s):
        return rb.poly_on(self.pc, np.clip(np.asarray(s, float), 0, self.L))

    def kap(self, s):
        return -self.F * self.e(s) / self.EIx(np.clip(np.asarray(s, float), 0, self.L))

    def de(self, s, side):
        s = np.asarray(s, float)
        out = np.zeros(s.shape)
        for x0, x1, c in self.pc:
            m = (s > x0 + 1e-9 * self.L) & (s < x1 - 1e-9 * self.L)
            m |= np.abs(s - (x0 if side > 0 else x1)) <= 1e-9 * self.L
            if len(c) > 1:
                out[m] = P.polyval(s[m] - x0, P.polyder(c))
            else:
                out[m] = 0.0
        return out

    def breaks(self, extra=()):
        return super().breaks(list(extra) + [x for p in self.pc for x in p[:2]])


def model(case):
    sd = sides(case)
    n = len(case["L"])
    ref = gen.reference(case, LM=[])
    for i in range(n):
        p = case["profiles"][i]
        L = case["L"][i]
        m = ref.m[i]
        m.__class__ = Stressed
        m.stress(case["F"][i] if p else 0.0, pieces(p, L, sd[i]) if p else [(0.0, L, [0.0])])
    ref.rc = ref.conditioning()
    if ref.rc < 1e-8:
        raise SkipCase
    return ref.solve()


def loads(case):
    from pycba import prestress as ps

    ba = gen.beam_analysis(case, LM=[])
    m = ba if case["model"] == "analysis" else ba.beam
    F = case["F"][0] if case["scalar"] else list(case["F"])
    prof = [None if p is None else make(p) for p in case["profiles"]]
    LM = ps.equivalent_loads(m, F, prof)
    return ba, LM


def balanced(case, rec):
    ref = model(case)
    ba, LM = loads(case)
    n = len(case["L"])
    for p in case["profiles"]:
        rec.cls(p["kind"] if p else "unstressed")
    rec.cls(case.get("kind", "redundant"))
    mx = max(abs(m.F) * np.max(np.abs(m.e(np.linspace(0, m.L, 41)))) for m in ref.m)
    if mx > 0:
        rec.mark()
    ba.set_loads(LM)
    ba.analyze()
    if not LM:
        return
    # scales: the prestressing moments and the forces that go with them
    Lmin = min(case["L"])
    fx = max(abs(m.F) * max(np.max(np.abs(m.de(np.linspace(0, m.L, 41), s))) for s in (-1, 1)) for m in ref.m)
    sM = max(mx, fx * Lmin)
    F_, M_, d_, th_ = cmp.scales(ref)
    rt = max(1e-8, 1e-13 / ref.rc)
    tM, tF = rt * (sM + M_), rt * (sM / Lmin + fx + F_)
    # nodal kinks: carried by rigid supports, applied everywhere else
    kink = np.zeros(n + 1)
    couple = np.zeros(n + 1)
    for i, m in enumerate(ref.m):
        kink[i] += m.F * slope(m.pc, 0)
        kink[i + 1] -= m.F * slope(m.pc, 1)
        couple[i] += m.F * value(m.pc, 0)
        couple[i + 1] -= m.F * value(m.pc, 1)
    if np.any(np.abs(couple[1:-1]) > 1e-9 * sM):
        rec.cls("anchorage inside")
    b = ba.beam_results
    exp, tol = [], []
    for i, r in sorted(ref.reac.items()):
        exp.append(r - (kink[i // 2] if i % 2 == 0 else 0.0))
        tol.append(tF if i % 2 == 0 else tM)
    cmp.close(b.R, np.array(exp), np.array(tol), "reactions under the equivalent loads")
    sp = sorted(ref.springs.items())
    cmp.close(b.Rs, np.array([v for _, v in sp]), np.array([tF if i % 2 == 0 else tM for i, _ in sp]), "spring forces under the equivalent loads")
    cmp.nodal(ba, ref, 1e-7)
    cmp.displacements(ba, ref)
    x0 = 0.0
    for i, m in enumerate(ref.m):
        v = b.vRes[i]
        s = np.clip(np.asarray(v.x[2:-2], float) - x0, 0, m.L)
        x0 += m.L
        V2, M2 = ref.VM(i, s)
        cmp.close(v.M[2:-2], M2 - m.F * m.e(s), tM, f"balanced moment in span {i + 1}")
        if case.get("kind"):
            cmp.close(v.M[2:-2], -m.F * m.e(s), tM, f"determinate beam: moment in span {i + 1} against -F e")
        a, c = V2 - m.F * m.de(s, -1), V2 - m.F * m.de(s, 1)
        lo, hi = np.minimum(a, c) - tF, np.maximum(a, c) + tF
        got = np.asarray(v.V[2:-2], float)
        k = int(np.argmax(np.maximum(lo - got, got - hi)))
        require(np.all((got >= lo) & (got <= hi)), f"shear in span {i + 1} at {s[k]:.6g}: {got[k]:.8g}, expected {a[k]:.8g}..{c[k]:.8g}")


# ------------------------------------------------------------------- plot ----
def drape(case, rec):
    import matplotlib.pyplot as plt
    from pycba.prestress import plot_tendon

    n = len(case["L"])
    sd = sides(case)
    ba = gen.beam_analysis(case, LM=[])
    F = case["F"][0] if case["scalar"] else list(case["F"])
    fig, axs = plot_tendon(ba if case["model"] == "analysis" else ba.beam, F, [None if p is None else make(p) for p in case["profiles"]])
    try:
        rec.mark()
        offs = np.concatenate([[0.0], np.cumsum(case["L"])])
        curves = [ln for ln in axs[1].lines if len(ln.get_xdata()) > 10]
        want = [i for i in range(n) if case["profiles"][i]]
        require(len(curves) == len(want), f"{len(curves)} drape curves for {len(want)} stressed spans")
        curves.sort(key=lambda ln: np.mean(ln.get_xdata()))
        for ln, i in zip(curves, want):
            x = np.asarray(ln.get_xdata(), float) - offs[i]
            L = case["L"][i]
            cmp.close([x[0], x[-1]], [0.0, L], 1e-9 * offs[-1], f"extent of the drape of span {i + 1}")
            pc = pieces(case["profiles"][i], L, sd[i])
            y = rb.poly_on(pc, np.clip(x, 0, L))
            cmp.close(ln.get_ydata(), y, 1e-9 * L, f"drape of span {i + 1}")
        y0, y1 = axs[1].get_ylim()
        require(y0 > y1, "eccentricity below the centroid is not drawn downwards")
    finally:
        plt.close(fig)


# ---------------------------------------------------------------- refusals ---
@st.composite
def outside(draw):
    return {
        "kind": draw(st.sampled_from(["count", "forces", "overlap", "harp", "double", "order", "tip", "model"])),
        "L": [draw(gen.lengths(3, 30)) for _ in range(draw(st.integers(1, 3)))],
        "f": draw(st.floats(0.05, 0.95).map(gen.r4)),
        "g": draw(st.floats(0.0, 0.5).map(gen.r4)),
    }


def refused(case, rec):
    import pycba as cba
    from pycba import prestress as ps

    rec.cls(case["kind"])
    rec.mark()
    k, L, f, g = case["kind"], case["L"], case["f"], case["g"]
    n = len(L)
    R = [-1, 0] * (n + 1)
    ok = [ps.Parabola(0.0, 0.1, 0.0) for _ in L]
    F = 1000.0
    model = cba.BeamAnalysis(L, 1e5, R)
    err = ValueError
    if k == "count":
        ok = ok + [ok[0]] if f > 0.5 else ok[:-1]
    elif k == "forces":
        F = [F] * (n + 1) if f > 0.5 else [F] * (n - 1)
    elif k == "overlap":
        ok[0] = ps.Parabola(0.1, 0.2, 0.1, c_left=f * L[0], c_right=(1 - f + g) * L[0])
    elif k == "harp":
        a = -g * L[0] if f > 0.7 else L[0] * (1 + g) if f > 0.4 else 0.3 * L[0]
        ok[0] = ps.Harp(0.1, 0.2, 0.1, a=a, c_left=0.3 * L[0] + g)
    elif k == "double":
        a, b = sorted([f * L[0], g * L[0]])
        ok[0] = ps.DoubleHarp(0.1, 0.2, 0.2, 0.1, a=b, b=a) if f > 0.5 else ps.DoubleHarp(0.1, 0.2, 0.2, 0.1, a=a, b=b, c_left=a, c_right=0.0)
    elif k == "order":
        a, c, b = f * L[0], f * L[0] * (1 - g), 0.1 * L[0]
        ok[-1] = ps.CompoundParabola(0.1, 0.2, 0.1, a=a, b=b, c=c) if f > 0.5 else ps.CompoundParabola(0.1, 0.2, 0.1, a=0.1 * L[0], c=0.5 * L[0], b=(0.5 + g) * L[0])
        ok[0], ok[-1] = ok[-1], ok[0]
    elif k == "tip":
        R = [-1, -1] + [-1, 0] * (n - 1) + [0, 0]
        model = cba.BeamAnalysis(L, 1e5, R)
        ok[-1] = ps.CompoundParabola(0.1, 0.2, 0.1, a=0.1 * L[-1], b=0.1 * L[-1], c=0.5 * L[-1])
        err = NotImplementedError
    else:
        model, err = (L, TypeError)
        try:
            ps.equivalent_loads(model, F, ok)
        except (TypeError, AttributeError):
            return
        require(False, "a list of lengths was accepted as a model")
    try:
        LM = ps.equivalent_loads(model, F, ok)
    except err:
        return
    require(False, f"{k}: accepted, loads {LM}")


CHECK = Check(
    "C26",
    "non-trivial = some stressed span has a non-zero eccentricity",
    [
        Sub("balanced", cases, balanced, 2000, 20000),
        Sub("drape", cases, drape, 64, 800),
        Sub("refused", outside, refused, 200, 2000),
    ],
    ["a tendon passes a moment release at zero eccentricity", "Euler-Bernoulli members without foundation (no shear strain from the tendon is modelled)", "a span with both ends free is not generated (which tip is the cantilever is not documented)"],
)
