"""Generators of structurally valid beam models (JSON-able cases) and builders."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from . import refbeam as rb
from .core import SkipCase

# ---------------------------------------------------------------- numbers ----
def r4(x):
    return float(f"{x:.6g}")


def lengths(lo=1.0, hi=40.0):
    return st.one_of(
        st.integers(max(1, math.ceil(lo)), int(hi)).map(float),
        st.integers(int(lo * 10), int(hi * 10)).map(lambda n: n / 10),
        st.integers(int(lo * 3), int(hi * 3)).map(lambda n: max(lo, n / 3)),
        st.floats(lo, hi, allow_nan=False).map(r4),
    )


def mags(hi=100.0):
    """Load magnitudes, both signs, never zero."""
    return st.one_of(
        st.integers(1, int(hi)).map(float),
        st.integers(1, int(hi)).map(lambda n: -float(n)),
        st.floats(0.1, hi).map(r4),
        st.floats(-hi, -0.1).map(r4),
    )


def frac(ends=True):
    """Position as a fraction of the member."""
    base = [
        st.integers(1, 19).map(lambda n: n / 20),
        st.floats(0.01, 0.99).map(r4),
        st.integers(1, 19).map(lambda n: n / 20),
        st.floats(0.01, 0.99).map(r4),
        st.sampled_from([1e-3, 0.999, 2e-5, 1 - 2e-5, 0.004, 0.5001]),  # next to an end or to midspan
    ]
    if ends:
        base.append(st.sampled_from([0.0, 1.0, 0.5, 1 / 3]))
    return st.one_of(*base)


EI0 = st.one_of(
    st.sampled_from([1.0e4, 3.0e4, 1.8e5, 30 * 600e3]),
    st.floats(2.0, 7.0).map(lambda e: r4(10**e)),
)


@st.composite
def section_segs(draw, L, E):
    """A SectionEI segment list over [0, L] (contiguous, strictly positive)."""
    n = draw(st.integers(1, 3))
    cuts = sorted(set(draw(st.lists(st.integers(1, 9), min_size=n - 1, max_size=n - 1))))
    x = [0.0] + [L * c / 10 for c in cuts] + [L]
    segs = []
    val = lambda: E * draw(st.sampled_from([0.4, 0.7, 1.0, 1.0, 1.6, 2.5, 4.0]))
    for a, b in zip(x[:-1], x[1:]):
        kind = draw(st.sampled_from(["const", "linear", "pwl", "poly"]))
        if kind == "const":
            segs.append({"kind": kind, "x": [a, b], "ei": val()})
        elif kind == "linear":
            segs.append({"kind": kind, "x": [a, b], "ei": [val(), val()]})
        elif kind == "pwl":
            m = a + (b - a) * draw(st.sampled_from([0.25, 0.5, 0.6]))
            segs.append({"kind": kind, "x": [a, m, b], "ei": [val(), val(), val()]})
        elif a <= 0.5 * b and draw(st.integers(0, 2)) == 0:
            # a straight line or a smooth polynomial through two or four to six samples
            m = draw(st.sampled_from([2, 4, 5, 6]))
            # no zero near the segment (the 16-point rule of the elements is then exact enough)
            cf = [draw(st.sampled_from([-1.0, -0.5, 0.0, 0.5, 1.0])) * 1.3 / (m - 1) / 1.8**k for k in range(1, m)]
            xs = [a + (b - a) * k / (m - 1) for k in range(m - 1)] + [b]
            e0 = val()
            t = [2 * k / (m - 1) - 1 for k in range(m)]
            segs.append({"kind": "poly", "x": xs, "ei": [e0 * (1.4 + float(np.polynomial.chebyshev.chebval(u, [0.0] + cf))) for u in t]})
        else:
            p, q = val(), val()
            m = 0.5 * (p + q) * draw(st.sampled_from([0.9, 0.8, 1.0, 1.1]))
            # keep the parabola positive: middle value between ends (+/-)
            m = min(max(m, 0.6 * min(p, q)), 1.4 * max(p, q))
            segs.append({"kind": kind, "x": [a, 0.5 * (a + b), b], "ei": [p, m, q]})
    return segs


def segs_positive(segs):
    for x0, x1, c in rb.section_pieces(segs):
        s = np.linspace(0, x1 - x0, 60)
        v = np.polynomial.polynomial.polyval(s, c)
        if v.min() <= 0.1 * abs(v).max():
            return False
    return True


# ---------------------------------------------------------------- loads ------
@st.composite
def load_row(draw, Ls, types=(1, 2, 3, 4, 5), kinds_ends=True, spans=None, overhang=True):
    i = draw(st.sampled_from(spans) if spans else st.integers(1, len(Ls)))
    L = Ls[i - 1]
    t = draw(st.sampled_from(types))
    if t == 1:
        return [i, 1, draw(mags(60))]
    if t == 2:
        return [i, 2, draw(mags()), L * draw(frac(kinds_ends))]
    if t == 3 or t == 5:
        over = overhang and draw(st.integers(0, 7)) == 0
        # the closed forms of a load of length c lose a factor L/c in round-off
        a = L * min(0.99, draw(st.one_of(st.just(0.0), frac(False))))
        if over:
            c = L * draw(st.sampled_from([0.6, 1.0, 1.7]))
            c = max(c, (L - a) * 1.2)
        else:
            f = draw(st.one_of(st.just(1.0), frac(False)))
            c = max((L - a) * f, 0.002 * L)
        if t == 3:
            return [i, 3, draw(mags(60)), a, c]
        w1 = draw(st.one_of(st.just(0.0), mags(60)))
        w2 = draw(mags(60)) if w1 == 0.0 else draw(st.one_of(st.sampled_from([0.0, -w1, 1.004 * w1, 0.997 * w1]), mags(60)))
        if draw(st.booleans()):
            return [i, 5, w1, w2]
        if draw(st.integers(0, 4)) == 0:
            return [i, 5, w1, w2, a]  # to the end of the member
        return [i, 5, w1, w2, a, c]
    if t == 4:
        return [i, 4, draw(mags()), L * draw(frac(kinds_ends))]
    if t == 6:
        k = draw(st.lists(mags(50), min_size=1, max_size=draw(st.sampled_from([3, 3, 6]))))
        return [i, 6] + [v * 1e-5 / L**j for j, v in enumerate(k)]
    raise ValueError(t)


def cover(row, L):
    """Start and length of a trapezoidal row, with its defaults."""
    a = row[4] if len(row) > 4 else 0.0
    return a, row[5] if len(row) > 5 else L - a


def load_matrix(Ls, types=(1, 2, 3, 4, 5), min_size=1, max_size=5, **kw):
    return st.lists(load_row(Ls, types, **kw), min_size=min_size, max_size=max_size)


# ---------------------------------------------------------------- beams ------
SUP = ["pin", "pin", "pin", "pin", "fixed", "free", "vspring", "spring2", "rotspring", "guide"]


def sup_dofs(kind, kv, kr):
    return {
        "pin": [-1, 0],
        "fixed": [-1, -1],
        "free": [0, 0],
        "vspring": [kv, 0],
        "spring2": [kv, kr],
        "rotspring": [-1, kr],
        "guide": [0, -1],
    }[kind]


def reference(case, LM=None, D="case"):
    """RefBeam of a case."""
    mem = []
    n = len(case["L"])
    for i in range(n):
        EI = case["EI"][i]
        GA = (case.get("GA") or [None] * n)[i]
        kf = (case.get("kf") or [None] * n)[i]
        mem.append(
            rb.Member(
                case["L"][i],
                rb.section_pieces(EI) if isinstance(EI, list) else EI,
                rb.section_pieces(GA) if isinstance(GA, list) else GA,
                kf,
                rb.REL[case["et"][i]],
            )
        )
    ref = rb.RefBeam(mem, case["R"], case.get("D") if D == "case" else D)
    ref.load(case["LM"] if LM is None else LM)
    return ref


def stabilise(case, rc_min=1e-6):
    """Deterministically restrain the model until it is well away from a mechanism."""
    def rc():
        try:
            return reference(case, LM=[], D=None).conditioning()
        except np.linalg.LinAlgError:
            return 0.0

    n = len(case["L"])
    if rc() > rc_min:
        return case
    for i in range(n + 1):  # hold free / guided nodes vertically
        if case["R"][2 * i] == 0:
            case["R"][2 * i] = -1
            if rc() > rc_min:
                return case
    for i in range(n):
        if case["et"][i] != 1:
            case["et"][i] = 1
            if rc() > rc_min:
                return case
    case["R"][1] = -1
    return case


@st.composite
def beams(
    draw,
    max_spans=4,
    min_spans=1,
    hinges=True,
    springs=True,
    settlements=True,
    nonprismatic=False,
    timo=False,
    found=False,
    types=(1, 2, 3, 4, 5),
    min_loads=1,
    max_loads=5,
    overhang=True,
    free_ends=True,
    llo=1.0,
    lhi=40.0,
):
    n = draw(st.integers(min_spans, max_spans))
    many = max_spans >= 3 and not found and draw(st.integers(0, 19)) == 19
    if many:  # now and then a long viaduct
        n = draw(st.one_of(st.integers(max_spans + 1, 12), st.integers(max_spans + 1, 12), st.integers(13, 24)))
    same = draw(st.integers(0, 3)) == 0
    L0 = draw(lengths(llo, lhi))
    L = [L0] * n if same else [L0] + [draw(lengths(max(llo, L0 / 5), min(lhi, L0 * 5))) for _ in range(n - 1)]
    E = draw(EI0)
    EI = []
    for i in range(n):
        e = E * draw(st.sampled_from([1.0, 1.0, 1.0, 0.5, 2.0, 3.7, 25.0] if max_spans > 1 else [1.0, 1.0, 0.5, 3.7]))
        if nonprismatic and draw(st.integers(0, 2)) > 0:
            s = draw(section_segs(L[i], e))
            EI.append(s if segs_positive(s) else e)
        else:
            EI.append(e)
    if nonprismatic and not any(isinstance(e, list) for e in EI):
        k = draw(st.integers(0, n - 1))
        EI[k] = [{"kind": "linear", "x": [0.0, L[k]], "ei": [E, 2 * E]}]
    GA = None
    if timo:
        GA = []
        for i in range(n):
            r = draw(st.sampled_from([3.0, 10.0, 50.0, 400.0, 0.6, 2e4]))
            g = r4(r * E / L[i] ** 2)
            kind = draw(st.integers(0, 5))
            if kind == 0:
                GA.append(None)
            elif kind == 1:
                s = draw(section_segs(L[i], g))
                GA.append(s if segs_positive(s) else g)
            else:
                GA.append(g)
        if all(g is None for g in GA):
            GA[0] = r4(10.0 * E / L[0] ** 2)
    kf = None
    if found:
        kf = []
        for i in range(n):
            lam = draw(st.sampled_from([None, 0.5, 1.0, 2.0, 4.0, 0.2, 7.0]))
            e = EI[i] if not isinstance(EI[i], list) else E
            kf.append(None if lam is None else r4(4 * e * (lam / L[i]) ** 4))
        if all(k is None for k in kf):
            kf[0] = r4(4 * E * (1.5 / L[0]) ** 4)
    et = [1] * n
    if hinges and n > 1 and draw(st.integers(0, 1)):
        for node in draw(st.sets(st.integers(1, n - 1), min_size=1, max_size=min(5 if many else 2, n - 1))):
            if draw(st.booleans()):  # left member released at its right end
                et[node - 1] = {1: 2, 3: 4}.get(et[node - 1], et[node - 1])
            else:
                et[node] = {1: 3, 2: 4}.get(et[node], et[node])
    R = []
    kinds = []
    for i in range(n + 1):
        pool = [k for k in SUP if (springs or "spring" not in k) and (free_ends or k not in ("free", "guide"))]
        kind = draw(st.sampled_from(pool))
        kinds.append(kind)
        kv = r4(E / L0**3 * draw(st.sampled_from([0.03, 0.5, 10.0, 300.0])))
        kr = r4(E / L0 * draw(st.sampled_from([0.02, 0.3, 3.0, 50.0])))
        R += sup_dofs(kind, kv, kr)
    if kf:
        for i in range(n):
            if kf[i] is not None:
                et[i] = 1
    case = {"L": L, "EI": EI, "et": et, "R": R, "GA": GA, "kf": kf, "D": None}
    case["LM"] = []
    # a released outer end needs its rotation held (documented: one release per hinge)
    stabilise(case)
    if hinges and draw(st.integers(0, 7)) == 0:  # release at a clamped outer end
        for e, code in ((0, {1: 3, 2: 4}), (n - 1, {1: 2, 3: 4})):
            node = 0 if e == 0 else n
            if case["R"][2 * node + 1] == -1 and (not kf or kf[e] is None) and draw(st.booleans()):
                old = case["et"][e]
                case["et"][e] = code.get(old, old)
                if reference(case, LM=[], D=None).conditioning() < 1e-6:
                    case["et"][e] = old
    if settlements and draw(st.integers(0, 2)) == 0:
        D = [None] * (2 * n + 2)
        fixed = [i for i, r in enumerate(case["R"]) if r == -1]
        for i in draw(st.sets(st.sampled_from(fixed), min_size=1, max_size=3)) if fixed else []:
            if i % 2 == 0:
                D[i] = draw(st.sampled_from([-0.01, -0.025, 0.004, 0.0, -2e-5, 0.3]))
            else:
                D[i] = draw(st.sampled_from([0.001, -0.002, 3e-6, 0.05]))
        case["D"] = D
    heavy = max_loads >= 4 and draw(st.integers(0, 19)) == 19
    case["LM"] = draw(load_matrix(L, types, 8 if heavy else min_loads, 30 if heavy else max_loads, overhang=overhang))
    if kf:
        case["LM"] = [r for r in case["LM"] if not (kf[r[0] - 1] is not None and r[1] not in (1, 2, 3))]
        if not case["LM"]:
            case["LM"] = [[1, 1, 10.0]]
    return case


# ------------------------------------------------------------ build pycba ----
def section(segs):
    from pycba import SectionEI

    s = SectionEI()
    for g in segs:
        s.add_segment(g["kind"], g["x"], g["ei"])
    return s


def kwargs(case, LM=None):
    n = len(case["L"])
    conv = lambda v: section(v) if isinstance(v, list) else v
    kw = dict(
        L=list(case["L"]),
        EI=[conv(e) for e in case["EI"]],
        R=list(case["R"]),
        LM=[list(r) for r in (case["LM"] if LM is None else LM)],
        eletype=list(case["et"]),
        D=None if case.get("D") is None else list(case["D"]),
    )
    if case.get("GA"):
        kw["GAv"] = [conv(g) for g in case["GA"]]
    if case.get("kf"):
        kw["kf"] = list(case["kf"])
    return kw


def beam_analysis(case, LM=None):
    from pycba import BeamAnalysis

    return BeamAnalysis(**kwargs(case, LM))


def analysed(case, npts=None, LM=None):
    ba = beam_analysis(case, LM)
    out = ba.analyze(case.get("npts") if npts is None else npts)
    if out != 0:
        from .core import Violation

        raise Violation(f"analyze() returned {out!r} for a stable model")
    return ba


def solved_reference(case, LM=None, rc_min=1e-8):
    ref = reference(case, LM)
    try:
        rc = ref.conditioning()
    except np.linalg.LinAlgError:
        raise SkipCase("reference singular")
    if rc < rc_min:
        raise SkipCase("ill conditioned")
    ref.solve()
    ref.rc = rc
    return ref


def classify(case, rec):
    if case.get("D") and any(v for v in case["D"]):
        rec.cls("settlement")
    if any(r > 0 for r in case["R"]):
        rec.cls("spring")
    if any(e != 1 for e in case["et"]):
        rec.cls("release")
    if 4 in case["et"]:
        rec.cls("PP")
    for r in case["LM"]:
        rec.cls(f"load{int(r[1])}")
    rec.cls(f"spans{len(case['L'])}")


def eimax(case):
    return max(
        max(s["ei"]) if isinstance(s["ei"], list) else s["ei"]
        for e in case["EI"]
        for s in (e if isinstance(e, list) else [{"ei": e}])
    )


def eimin(case):
    return min(
        min(s["ei"]) if isinstance(s["ei"], list) else s["ei"]
        for e in case["EI"]
        for s in (e if isinstance(e, list) else [{"ei": e}])
    )


def load_force(case, LM):
    """A force scale of a load matrix (total load, couples as force pairs)."""
    F = 0.0
    for r in LM:
        L = case["L"][int(r[0]) - 1]
        t = r[1]
        if t == 1:
            F += abs(r[2]) * L
        elif t == 2:
            F += abs(r[2])
        elif t == 3:
            F += abs(r[2]) * min(r[4], L)
        elif t == 4:
            F += abs(r[2]) / L
        elif t == 5:
            F += 0.5 * (abs(r[2]) + abs(r[3])) * L
        else:
            F += eimax(case) * sum(abs(k) * L**j for j, k in enumerate(r[2:])) / L
    return F


def any_npts(strategy, choices=(None, None, None, 4, 5, 13, 64, 151, 400, 1001)):
    """The same beams, analysed with any number of evaluation points."""
    return st.tuples(strategy, st.sampled_from(choices)).map(lambda t: dict(t[0], npts=t[1]))
