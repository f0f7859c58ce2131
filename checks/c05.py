"""C05: cutting a member in two at an unsupported node changes nothing."""
import numpy as np
from hypothesis import strategies as st

from checks.c03 import fields, scales
from harness import cmp, gen
from harness import refbeam as rb
from harness.core import Check, Sub, require

SPLIT = {1: (1, 1), 2: (1, 2), 3: (3, 1), 4: (3, 2)}


def split_secs(v, a, L):
    """Two segment lists for [0, a] and [a, L]; poly segments are re-sampled."""
    if not isinstance(v, list):
        return v, v
    left, right = [], []
    for s in v:
        kind, x, e = s["kind"], s["x"], s["ei"]
        if x[-1] <= a + 1e-12 * L:
            left.append({"kind": kind, "x": [min(q, a) for q in x], "ei": e})
        elif x[0] >= a - 1e-12 * L:
            right.append({"kind": kind, "x": [max(0.0, q - a) for q in x], "ei": e})
        else:
            pc = rb.section_pieces([s])
            at = lambda q: float(rb.poly_on(pc, np.array([q]))[0])
            if kind == "const":
                left.append({"kind": kind, "x": [x[0], a], "ei": e})
                right.append({"kind": kind, "x": [0.0, x[-1] - a], "ei": e})
            elif kind in ("linear", "pwl"):
                xl = [q for q in x if q < a - 1e-9 * L] + [a]
                xr = [a] + [q for q in x if q > a + 1e-9 * L]
                if kind == "linear" or len(xl) == 2:
                    left.append({"kind": "linear", "x": [xl[0], a], "ei": [at(xl[0]), at(a)]} if len(xl) == 2 else {"kind": "pwl", "x": xl, "ei": [at(q) for q in xl]})
                else:
                    left.append({"kind": "pwl", "x": xl, "ei": [at(q) for q in xl]})
                right.append({"kind": "linear" if len(xr) == 2 else "pwl", "x": [q - a for q in xr], "ei": [at(q) for q in xr]})
            else:
                m = len(x) - 1
                xl = [x[0] + (a - x[0]) * k / m for k in range(m)] + [a]
                xr = [a + (x[-1] - a) * k / m for k in range(m)] + [x[-1]]
                left.append({"kind": "poly", "x": xl, "ei": [at(q) for q in xl]})
                right.append({"kind": "poly", "x": [q - a for q in xr], "ei": [at(q) for q in xr]})
    for segs in (left, right):
        segs[0]["x"][0] = 0.0
        for p, q in zip(segs[:-1], segs[1:]):
            q["x"][0] = p["x"][-1]
    left[-1]["x"][-1] = a
    right[-1]["x"][-1] = L - a
    return left, right


def split_row(r, i, a, L):
    """Loads of member i (0-based) moved to members i and i+1."""
    j = r[0] - 1
    if j < i:
        return [list(r)]
    if j > i:
        return [[r[0] + 1] + list(r[1:])]
    p, q = i + 1, i + 2
    t = r[1]
    if t == 1:
        return [[p, 1, r[2]], [q, 1, r[2]]]
    if t in (2, 4):
        return [[p, t, r[2], r[3]]] if r[3] <= a else [[q, t, r[2], r[3] - a]]
    if t == 3:
        b = min(r[3] + r[4], L)
        out = []
        if r[3] < a:
            out.append([p, 3, r[2], r[3], min(b, a) - r[3]])
        if b > a:
            lo = max(r[3], a)
            out.append([q, 3, r[2], lo - a, b - lo])
        return [o for o in out if o[4] > 1e-9 * L]
    if t == 5:
        s, c = gen.cover(r, L)
        b = min(s + c, L)
        w = lambda x: r[2] + (r[3] - r[2]) * (x - s) / c
        out = []
        if s < a:
            e = min(a, b)
            out.append([p, 5, w(s), w(e), s, e - s])
        if b > a:
            lo = max(a, s)
            out.append([q, 5, w(lo), w(b), lo - a, b - lo])
        return [o for o in out if o[5] > 1e-9 * L]
    pol = np.polynomial.Polynomial(r[2:])
    sh = pol(np.polynomial.Polynomial([a, 1.0]))
    return [[p, 6] + list(r[2:]), [q, 6] + [float(c) for c in sh.coef]]


def cut(case, i, f):
    L = case["L"][i]
    a = L * f
    out = dict(case)
    out["L"] = case["L"][:i] + [a, L - a] + case["L"][i + 1 :]
    l, r = split_secs(case["EI"][i], a, L)
    out["EI"] = case["EI"][:i] + [l, r] + case["EI"][i + 1 :]
    out["et"] = case["et"][:i] + list(SPLIT[case["et"][i]]) + case["et"][i + 1 :]
    if case["GA"]:
        l, r = split_secs(case["GA"][i], a, L)
        out["GA"] = case["GA"][:i] + [l, r] + case["GA"][i + 1 :]
    if case["kf"]:
        out["kf"] = case["kf"][:i] + [case["kf"][i]] * 2 + case["kf"][i + 1 :]
    out["R"] = case["R"][: 2 * i + 2] + [0, 0] + case["R"][2 * i + 2 :]
    if case["D"] is not None:
        out["D"] = case["D"][: 2 * i + 2] + [None, None] + case["D"][2 * i + 2 :]
    out["LM"] = [q for row in case["LM"] for q in split_row(row, i, a, L)]
    return out


def check(c, rec):
    case, i, f = c["beam"], c["span"] - 1, c["f"]
    other = cut(case, i, f)
    ref1, ref2 = gen.solved_reference(case, rc_min=1e-7), gen.solved_reference(other, rc_min=1e-8)
    rc = min(ref1.rc, ref2.rc)
    rt = max(1e-6, 2e-13 / rc)
    if case["kf"] and case["kf"][i] is not None:
        rt = max(rt, 2e-4)  # internal foundation mesh differs
    gen.classify(case, rec)
    rec.mark(any(r[0] == i + 1 for r in case["LM"]) or case["D"] is not None)
    b1, b2 = gen.analysed(case), gen.analysed(other)
    f1 = fields(b1)
    sc = scales(case, f1, LM=case["LM"])
    F, Lx = sc["V"], max(case["L"])
    F = max(F, 1e-6 * gen.eimax(case) * sc["rot"] / min(other["L"]) ** 2)
    for key in ("R", "Rs"):
        a, b = getattr(b1.beam_results, key), getattr(b2.beam_results, key)
        require(len(a) == len(b), f"{key}: {len(b)} values after the cut, {len(a)} before")
        if len(a):
            e = float(np.max(np.abs(a - b)))
            require(e <= rt * F * max(Lx, 1.0), f"{key} changes by {e:.4g} when member {i+1} is cut at {f:.4g} L")
    u1, u2 = b1.beam_results.D, b2.beam_results.D
    u2 = np.concatenate([u2[: 2 * i + 2], u2[2 * i + 4 :]])
    require(np.max(np.abs(u1 - u2)[0::2]) <= rt * sc["defl"], "nodal deflections change when a member is cut")
    # rotation of a node whose only unreleased member is unchanged stays put
    require(np.max(np.abs(u1 - u2)[1::2]) <= rt * sc["rot"], "nodal rotations change when a member is cut")
    if case["kf"] and case["kf"][i] is not None:
        return
    x1, x2 = b1.beam_results.results.x, b2.beam_results.results.x
    # stations of the uncut member that coincide with a station of either part
    L = case["L"][i]
    off = float(sum(case["L"][:i]))
    m1 = b1.beam_results.vRes[i]
    nxt = 0
    hits = 0
    for p, lo in ((i, 0.0), (i + 1, L * f)):
        part = b2.beam_results.vRes[p]
        s1, s2 = m1.x[1:-1] - off, part.x[1:-1] - off
        tol1 = cmp.disp_tol(ref1, i, np.clip(s1, 0.0, L))[2:]
        tol2 = cmp.disp_tol(ref2, p, np.clip(s2 - lo, 0.0, other["L"][p]))[2:]
        tR, tD = (a + b for a, b in zip(tol1, tol2))
        for a in range(len(s1)):
            k = int(np.argmin(np.abs(s2 - s1[a])))
            if abs(s2[k] - s1[a]) > 1e-9 * L:
                continue
            if any(r[0] == i + 1 and r[1] in (2, 4) and abs(r[3] - s1[a]) < 1e-8 * L for r in case["LM"]):
                continue
            hits += 1
            dM = abs(m1.M[1:-1][a] - part.M[1:-1][k])
            dV = abs(m1.V[1:-1][a] - part.V[1:-1][k])
            require(dM <= rt * F * Lx, f"M at x={s1[a]:.6g} of member {i+1} changes by {dM:.4g} when it is cut at {f:.4g} L")
            dD = abs(m1.D[1:-1][a] - part.D[1:-1][k])
            dR = abs(m1.R[1:-1][a] - part.R[1:-1][k])
            require(dD <= tD, f"deflection at x={s1[a]:.6g} of member {i+1} changes by {dD:.4g} when it is cut at {f:.4g} L (tolerance {tD:.3g})")
            require(dR <= tR, f"rotation at x={s1[a]:.6g} of member {i+1} changes by {dR:.4g} when it is cut at {f:.4g} L (tolerance {tR:.3g})")
            require(dV <= rt * F, f"V at x={s1[a]:.6g} of member {i+1} changes by {dV:.4g} when it is cut at {f:.4g} L")
    # other members keep their fields
    for q in range(len(case["L"])):
        if q == i:
            continue
        a, b = b1.beam_results.vRes[q], b2.beam_results.vRes[q if q < i else q + 1]
        if case["kf"] and case["kf"][q] is not None and len(a.M) != len(b.M):
            continue
        require(float(np.max(np.abs(a.D - b.D))) <= 10 * rt * sc["defl"], f"deflection of member {q+1} changes when member {i+1} is cut")
        require(float(np.max(np.abs(a.R - b.R))) <= 10 * rt * sc["rot"], f"rotation of member {q+1} changes when member {i+1} is cut")
        require(float(np.max(np.abs(a.M - b.M))) <= rt * F * Lx, f"M in member {q+1} changes when member {i+1} is cut")
        keep = np.ones(len(a.x), bool)
        x0 = float(sum(case["L"][:q]))
        for r in case["LM"]:
            if r[0] == q + 1 and r[1] == 2:
                keep &= np.abs(a.x - x0 - r[3]) > 1e-8 * case["L"][q]
        require(float(np.max(np.abs(a.V - b.V)[keep])) <= rt * F, f"V in member {q+1} changes when member {i+1} is cut")


def strat():
    base = st.one_of(
        gen.beams(max_spans=4, types=(1, 2, 3, 4, 5, 6)),
        gen.beams(max_spans=3, nonprismatic=True, types=(1, 2, 3, 4, 5, 6)),
        gen.beams(max_spans=3, timo=True),
        gen.beams(max_spans=3, found=True, types=(1, 2, 3)),
    )
    return base.flatmap(lambda c: st.fixed_dictionaries({
        "beam": st.just(c),
        "span": st.integers(1, len(c["L"])),
        "f": st.one_of(st.sampled_from([0.5, 0.2, 0.1, 0.25, 0.75]), gen.frac(False).map(lambda f: min(max(f, 0.004), 0.996))),
    }))


CHECK = Check(
    "C05",
    "non-trivial = the cut member is loaded or the beam is settled",
    [Sub("cut", strat, check, 2000, 40000)],
    ["either one-sided value is acceptable at a concentrated load"],
)
