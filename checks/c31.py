"""C31: a schematic, drawn or as TikZ, shows the model and the chosen loads."""
import contextlib
import os
import re
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from harness import figs, gen
from harness.core import Check, SkipCase, Sub, require

UNIT = {"SI": ("kN", "m", "kNm", "kN/m"), "N-mm": ("N", "mm", "N·mm", "N/mm"), "US-ft": ("kip", "ft", "kip·ft", "kip/ft"), "none": ("", "", "", "")}
KINDS = ["pin", "pin", "pin", "fixed", "free", "spring", "guided", "torsion", "pin+torsion", "spring+torsion", "spring+guided"]


@st.composite
def models(draw, big=True):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5] + ([27, 29] if big else [])))
    L = [draw(gen.lengths(1.0, 40.0)) for _ in range(n)] if n < 20 else [draw(gen.lengths(2.0, 9.0))] * n
    c = {"L": L, "sup": [draw(st.sampled_from(KINDS)) for _ in range(n + 1)]}
    c["k"] = draw(st.sampled_from([1.0, 1500.0, 4.2e5]))
    c["kf"] = [draw(st.sampled_from([None, None, None, 500.0])) for _ in range(n)] if draw(st.integers(0, 4)) == 0 else None
    c["et"] = [1 if c["kf"] and c["kf"][i] else draw(st.sampled_from([1, 1, 1, 2, 3, 4])) for i in range(n)]
    E = draw(gen.EI0)
    c["EI"] = [E] * n
    if not c["kf"] and draw(st.integers(0, 4)) == 0:
        for i in range(n):
            if draw(st.booleans()):
                s = draw(gen.section_segs(L[i], E))
                c["EI"][i] = s if gen.segs_positive(s) else 2.0 * E
            else:
                c["EI"][i] = E * draw(st.sampled_from([1.0, 0.5, 3.0]))
    c["LM"] = draw(gen.load_matrix(L, types=(1, 2, 3, 4, 5, 5, 6), min_size=0, max_size=5))
    for r in c["LM"]:  # trapezoids that change sign
        if r[1] == 5 and r[2] and r[3] and draw(st.booleans()):
            r[3] = -abs(r[3]) * np.sign(r[2])
    c["src"] = draw(st.sampled_from(["own", "own", "none", "matrix", "case", "combination"]))
    c["rows"] = draw(gen.load_matrix(L, types=(1, 2, 3, 4, 5), min_size=1, max_size=4)) if c["src"] in ("matrix", "case", "combination") else []
    k = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-3, 1e4]))  # other units
    if k != 1.0:
        c["LM"], c["rows"] = ([[v * k if 1 < j < (4 if r[1] == 5 else 3) and r[1] != 6 else v for j, v in enumerate(r)] for r in LM] for LM in (c["LM"], c["rows"]))
    c["fac"] = [draw(st.sampled_from([1.0, 1.35, 0.9, -1.0, 2.0])) for _ in range(2)]
    c["unit"] = draw(st.sampled_from(sorted(UNIT)))
    c["dims"], c["labels"], c["values"], c["supports"], c["box"], c["own"] = (draw(st.integers(0, 3)) != 0 for _ in range(6))
    c["dims_default"] = draw(st.booleans())
    c["door"] = draw(st.sampled_from(["beam", "analysis", "plotter"]))
    c["color"] = draw(st.sampled_from([None, "purple", "#00aa77"]))
    return c


def restraints(c):
    k = c["k"]
    R = []
    for s in c["sup"]:
        R += {"pin": [-1, 0], "fixed": [-1, -1], "free": [0, 0], "spring": [k, 0], "guided": [0, -1], "torsion": [0, k], "pin+torsion": [-1, k], "spring+torsion": [k, k], "spring+guided": [k, -1]}[s]
    return R


def beam(c):
    import pycba as cba

    EI = [gen.section(e) if isinstance(e, list) else e for e in c["EI"]]
    kw = dict(LM=[list(r) for r in c["LM"]], eletype=list(c["et"]))
    if c["kf"]:
        kw["kf"] = list(c["kf"])
    ba = cba.BeamAnalysis(list(c["L"]), EI, restraints(c), **kw)
    return ba


def source(c, ba):
    """(loads, load_cases, the rows they stand for)."""
    import pycba as cba

    rows = [list(r) for r in c["rows"]]
    if c["src"] == "own":
        return None, None, c["LM"]
    if c["src"] == "none":
        return [], None, []
    if c["src"] == "matrix":
        return rows, None, c["rows"]
    if c["src"] == "case":
        return cba.LoadCase("one", rows), None, c["rows"]
    h = len(rows) // 2
    lcs = cba.LoadCases(ba.beam, [cba.LoadCase("G", rows[:h]), cba.LoadCase("Q", rows[h:])] if h else [cba.LoadCase("G", rows), cba.LoadCase("Q", [[1, 1, 3.0]])])
    parts = [rows[:h], rows[h:]] if h else [rows, [[1, 1, 3.0]]]
    f = dict(zip("GQ", c["fac"]))
    exp = []
    for p, q in zip(parts, c["fac"]):
        for r in p:
            r = list(r)
            r[2] *= q
            if r[1] == 5:
                r[3] *= q
            exp.append(r)
    return cba.LoadCombination("uls", f), lcs, exp


def expected(c, rows):
    """What the schematic has to show, from the model alone."""
    L, n = c["L"], len(c["L"])
    X = [0.0]
    for l in L:
        X.append(X[-1] + l)
    sup, pin = {}, "fixed" in c["sup"]
    for i, s in enumerate(c["sup"]):
        if s == "free":
            continue
        if s in ("pin", "pin+torsion"):
            k = "roller" if pin else "pin"
            pin = True
        else:
            k = {"spring+torsion": "spring", "spring+guided": "spring"}.get(s, s)
        sup[i] = (k, s == "pin+torsion")
    hinges = [i for i in range(1, n) if c["et"][i - 1] in (2, 4) or c["et"][i] in (3, 4)]
    dist, pts, mom = [], [], []
    for r in rows:
        i = int(r[0]) - 1
        o, l = X[i], L[i]
        if r[1] == 1:
            dist.append((i, o, o + l, r[2], r[2]))
        elif r[1] == 2:
            pts.append((i, o + r[3], r[2]))
        elif r[1] == 3:
            dist.append((i, o + r[3], o + min(r[3] + r[4], l), r[2], r[2]))
        elif r[1] == 4:
            mom.append((i, o + r[3], r[2]))
        elif r[1] == 5:
            a, q = gen.cover(r, l)
            w2 = r[3] if a + q <= l else r[2] + (r[3] - r[2]) * (l - a) / q
            dist.append((i, o + a, o + min(a + q, l), r[2], w2))
    return X, sup, hinges, dist, pts, mom


def values(c, w0, w1=None, unit=3):
    u = UNIT[c["unit"]][unit]
    return w0, w1, u


def letter(i):
    return chr(65 + i) if i < 26 else "A" + chr(65 + i - 26)


def dist_text(w0, w1):
    """Numbers to be shown for a distributed load."""
    if abs(w0 - w1) < 1e-9:
        return [abs(w0)]
    return [w0, w1] if w0 * w1 < 0 else [abs(w0), abs(w1)]


NUM = r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?"


def read(text):
    """(numbers, unit) of a value label."""
    m = re.match(rf"^\s*({NUM})(?:\s*→\s*({NUM}))?\s*(.*)$", text)
    if not m:
        return None
    return [float(v) for v in m.groups()[:2] if v is not None], m.group(3).strip()


def same(got, exp):
    return got is not None and got[1] == exp[1] and len(got[0]) == len(exp[0]) and all(abs(a - b) <= 6e-6 * abs(b) + 1e-12 for a, b in zip(got[0], exp[0]))


def match(got, exp, ok, what):
    """Pair two lists off completely."""
    left = list(got)
    for e in exp:
        k = next((i for i, g in enumerate(left) if ok(g, e)), None)
        require(k is not None, f"{what} is missing: {e}", left)
        left.pop(k)
    require(not left, f"{what} too many: {left}", exp)


# ---------------------------------------------------------------- drawing ----
def white(p):
    return tuple(np.round(p.get_facecolor()[:3], 6)) == (1.0, 1.0, 1.0)


def check_mpl(c, ax, exp, color, dims, rec):
    from matplotlib.colors import to_rgba
    from matplotlib.patches import Arc, Circle, Polygon, Wedge

    X, sup, hinges, dist, pts, mom = exp
    T = X[-1]
    n = len(c["L"])
    e = 1e-6 * T
    force, length, moment, dunit = UNIT[c["unit"]]
    rgba = to_rgba(color)
    xl, yl = ax.get_xlim(), ax.get_ylim()
    require(xl[0] < 0 and xl[1] > T, "the beam is cut off")
    require(ax.get_xlabel() == "Distance along beam" + (f" ({length})" if length else ""), f"axis title {ax.get_xlabel()!r}")
    lines = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), tuple(to_rgba(l.get_color()))) for l in ax.get_lines()]
    tri = [np.asarray(p.get_xy(), float)[:3] for p in ax.patches if isinstance(p, Polygon) and white(p) and len(p.get_xy()) == 4]
    circ = [(p.center, p.radius) for p in ax.patches if isinstance(p, Circle) and white(p)]
    wedge = [p.center[0] for p in ax.patches if isinstance(p, Wedge)]
    black = [(x, y) for x, y, q in lines if q[:3] == (0.0, 0.0, 0.0)]
    # ---- the member
    prof = any(isinstance(v, list) for v in c["EI"]) or len({float(v) for v in c["EI"] if not isinstance(v, list)}) > 1
    flat = [1 for x, y in black if len(x) == 2 and abs(x[0]) < e and abs(x[1] - T) < e and y[0] == y[1] == 0]
    if not prof:
        require(len(flat) == 1, "the beam line is missing")
    else:
        from harness import refbeam as rb

        xs, ei = [], []
        for i in range(n):
            if isinstance(c["EI"][i], list):
                ps = rb.section_pieces(c["EI"][i])
                xs.append((X[i], ps))
            else:
                xs.append((X[i], [(0.0, c["L"][i], [c["EI"][i]])]))
        deep = [(x, y) for x, y in black if len(x) > 2 and abs(x[0]) < e and abs(x[-1] - T) < e and np.all(np.diff(x) >= -e)]
        if flat:  # the variation may be numerically nothing
            v = [float(np.polynomial.polynomial.polyval(s, p[2])) for _, ps in xs for p in ps for s in (0.0, p[1] - p[0])]
            require(max(v) - min(v) <= 1e-5 * max(v), "a beam of variable stiffness is drawn with a constant depth")
        else:
            require(len(deep) == 2 and np.array_equal(deep[0][0], deep[1][0]) and np.allclose(deep[0][1], -deep[1][1]), "the depth profile is not symmetric")
            x, h = deep[0][0], np.abs(deep[0][1])
            top = None
            rat = []
            for s, d in zip(x, h):
                ok = [q for o, ps in xs for p in ps if o + p[0] - e <= s <= o + p[1] + e for q in [float(np.polynomial.polynomial.polyval(min(max(s - o - p[0], 0.0), p[1] - p[0]), p[2]))]]
                rat.append([d**3 / q for q in ok if q > 0])
            ref = next(r[0] for r in rat if len(r) == 1) if any(len(r) == 1 for r in rat) else rat[0][0]
            require(all(any(abs(v - ref) <= 1e-5 * ref for v in r) for r in rat), "the drawn depth is not in proportion to EI^(1/3)")
            rec.cls("depth profile")
    # ---- supports
    spiral = lambda i: [1 for x, y in black if len(x) > 40 and abs(0.5 * (x.min() + x.max()) - X[i]) < 0.02 * T and x.max() - x.min() < 0.08 * T]
    zig = [x for x, y in black if 8 <= len(x) <= 40 and x.max() - x.min() < 0.06 * T and y.min() < 0 and abs(y.max()) < e and abs(x[0] - x[-1]) < e]
    horiz = lambda i: sorted(float(y[0]) for x, y in black if len(x) == 2 and y[0] == y[1] < 0 and abs(x.mean() - X[i]) < e and np.ptp(x) < 0.12 * T)
    wall = lambda i: [y for x, y in black if len(x) == 2 and x[0] == x[1] and abs(x[0] - X[i]) < e and abs(y.sum()) < e and y.max() > 0.04 * T]
    shown = c["supports"]
    kf = c["kf"] or [None] * n
    founded = lambda i: (i > 0 and kf[i - 1]) or (i < n and kf[i])
    for i in range(n + 1):
        k, rot = sup.get(i, (None, False)) if shown else (None, False)
        t = [p for p in tri if abs(p[np.argmax(p[:, 1]), 0] - X[i]) < e]
        wheels = [q for q in circ if abs(q[0][0] - X[i]) < 0.03 * T and q[0][1] < -0.01 * T and abs(q[0][0] - X[i]) > e and not any(j != i and abs(X[j] - q[0][0]) < abs(X[i] - q[0][0]) for j in range(n + 1))]
        what = f"node {letter(i)} ({c['sup'][i]})"
        require(len(t) == (k in ("pin", "roller")), f"{what}: {len(t)} triangles")
        require(len(wheels) == (2 if k == "roller" else 0), f"{what} is drawn with {len(wheels)} wheels, it is a {k}")
        require(bool(wall(i)) == (k == "fixed"), f"{what}: wall drawn: {bool(wall(i))}")
        if k == "fixed":
            h = wall(i)[0]
            hatch = [x[1] - x[0] for x, y in black if len(x) == 2 and abs(x[0] - X[i]) < e and abs(x[1] - x[0]) > e and abs(abs(y[1] - y[0]) - abs(x[1] - x[0])) < e and abs(y[0]) <= h.max() + e]
            if i in (0, n):
                require(hatch and all((q < 0) == (i == 0) for q in hatch), f"{what}: the wall is hatched on the inside")
        if shown and not founded(i):
            z = [x for x in zig if abs(x[0] - X[i]) < e]
            require(len(z) == (k == "spring"), f"{what}: {len(z)} spring symbols")
        require(len(spiral(i)) == (rot or k == "torsion"), f"{what}: {len(spiral(i))} rotational springs")
        g = horiz(i)
        if k == "guided":
            require(len(g) >= 2 and not t, f"{what}: no pair of guide lines")
        elif k in ("pin", "roller", "spring") or (k is None and not founded(i)):
            require(bool(g) == (k is not None), f"{what}: ground line drawn: {bool(g)}")
        at = [q for q in circ if abs(q[0][0] - X[i]) < e and abs(q[0][1]) < e]
        if 0 < i < n:
            require(len(at) == (shown and i in hinges), f"{what}: {len(at)} hinges, released: {i in hinges}")
            require(len([w for w in wedge if abs(w - X[i]) < e]) == (k in ("pin", "roller")), f"{what}: pin under a continuous beam")
        else:
            require(len(at) == (k in ("pin", "roller")), f"{what}: {len(at)} end pins")
    for i in range(n):
        inner = [x for x in zig if X[i] + e < x[0] < X[i + 1] - e]
        bed = [1 for x, y in black if len(x) == 2 and y[0] == y[1] < 0 and abs(x[0] - X[i]) < e and abs(x[1] - X[i + 1]) < e]
        want = bool(kf[i]) and shown
        require(bool(inner) == want and len(bed) == want, f"span {i + 1}: {len(inner)} foundation springs and {len(bed)} ground lines, foundation: {kf[i]}")
    # ---- loads
    tops = [(x, y) for x, y, q in lines if q == rgba and len(x) == 2 and np.ptp(x) > 1e-9 * T]
    match(tops, dist, lambda g, d: abs(g[0].min() - d[1]) < e and abs(g[0].max() - d[2]) < e and all(np.sign(np.round(y, 12)) == np.sign(w) for y, w in zip(g[1][np.argsort(g[0])], d[3:])), "a distributed load")
    hs = []
    for d in dist:
        for x, y in tops:
            if abs(x.min() - d[1]) < e and abs(x.max() - d[2]) < e and all(np.sign(np.round(v, 12)) == np.sign(w) for v, w in zip(y, d[3:])) and len([q for q in dist if abs(q[1] - d[1]) < e and abs(q[2] - d[2]) < e]) == 1:
                hs += [(abs(w), abs(v)) for v, w in zip(y, d[3:])]
    ordered(hs, "heights of the distributed loads")
    arrows = [(t, h) for t, h in figs.arrows(ax) if abs(t[0] - h[0]) < 1e-9 * T]
    require(all(abs(h[1]) < e for t, h in arrows), "a load arrow does not point at the beam")
    rest = []
    under = {k: 0 for k in range(len(dist))}
    for t, h in arrows:
        on = [k for k, d in enumerate(dist) for x, y in tops if abs(x.min() - d[1]) < e and abs(x.max() - d[2]) < e and d[1] - e <= t[0] <= d[2] + e and abs(t[1] - np.interp(t[0], x, y)) < e]
        for k in on:
            under[k] += 1
        if not on:
            rest.append((t, h))
    for k, d in enumerate(dist):
        if max(abs(d[3]), abs(d[4])) > 0:
            require(under[k] >= 2 or d[3] * d[4] < 0, f"the distributed load {d} has {under[k]} arrows")
    match(rest, pts, lambda g, p: abs(g[0][0] - p[1]) < e and (g[0][1] > 0) == (p[2] > 0), "the arrow of a point load")
    ph = [(abs(p[2]), abs(t[1])) for p in pts for t, h in rest if abs(t[0] - p[1]) < e and len([q for q in pts if abs(q[1] - p[1]) < e]) == 1]
    ordered(ph, "lengths of the point load arrows")
    arcs = [p for p in ax.patches if isinstance(p, Arc)]
    heads = [np.asarray(p.get_xy(), float)[:3] for p in ax.patches if isinstance(p, Polygon) and len(p.get_xy()) == 4 and not white(p)]
    turns = []
    for h in heads:
        from checks.c30 import sense

        tip, d = sense(h)
        near = [a for a in arcs if abs(np.linalg.norm(tip - np.array(a.center)) - 0.5 * a.width) < 1e-6 * T]
        require(near, "a moment arrow head is off its arc")
        near = min(near, key=lambda a: abs(np.linalg.norm(tip - np.array(a.center)) - 0.5 * a.width))
        turns.append((tip, d, near))
    sensed = [(a.center[0], a) for a in arcs]
    match([x for x, _ in sensed], [m[1] for m in mom], lambda g, m: abs(g - m) < e, "a moment")
    cand = []
    for tip, d, _ in turns:
        cand.append([(round(a.center[0] / T, 7), np.sign((tip[0] - a.center[0]) * d[1] - tip[1] * d[0])) for a in arcs if abs(np.linalg.norm(tip - np.array(a.center)) - 0.5 * a.width) < 1e-6 * T])
    require(len(cand) == len(mom), f"{len(cand)} moment arrow heads for {len(mom)} moments")
    if all(len(set(q)) == 1 for q in cand):
        match([q[0] for q in cand], [(round(m[1] / T, 7), np.sign(m[2])) for m in mom], lambda g, m: abs(g[0] - m[0]) < 1e-6 and g[1] == m[1], "the turning sense of a moment")
    # ---- texts
    want = []
    if c["labels"] and shown:
        want += [(X[i], letter(i), None) for i in sup]
    if c["values"]:
        want += [(0.5 * (d[1] + d[2]), None, (dist_text(d[3], d[4]), dunit)) for d in dist]
        want += [(p[1], None, ([abs(p[2])], force)) for p in pts]
        want += [(m[1], None, ([abs(m[2])], moment)) for m in mom]
        want += [(0.5 * (d[1] + d[2]), None, ([d[2] - d[1]], length)) for d in dist if partial(X, d)]
    if dims:
        want += [(0.5 * (a + b), None, ([b - a], length)) for a, b in zip(X[:-1], X[1:])]
    got = figs.texts(ax)
    match(got, want, lambda g, w: (g[2] == w[1] and abs(g[0] - w[0]) < 0.1 * T) if w[1] else (abs(g[0] - w[0]) < e and same(read(g[2]), w[2])), "a label")
    span = [(min(t[0], h[0]), max(t[0], h[0])) for t, h in figs.arrows(ax) if abs(t[0] - h[0]) >= 1e-9 * T]
    want = ([(a, b) for a, b in zip(X[:-1], X[1:])] if dims else []) + ([(d[1], d[2]) for d in dist if partial(X, d)] if c["values"] else [])
    match(span, want, lambda g, w: abs(g[0] - w[0]) < e and abs(g[1] - w[1]) < e, "a dimension line")
    ys = [v for t, h in figs.arrows(ax) for v in (t[1], h[1])] + [q for _, q, _ in got]
    if not ys or not shown:
        return
    require((min(ys) >= yl[0] - e and max(ys) <= yl[1] + e), f"the view {yl} cuts off what reaches from {min(ys):.4g} to {max(ys):.4g}")


def ordered(pairs, what):
    for a, u in pairs:
        for b, v in pairs:
            if a > b * (1 + 1e-9) + 1e-12:
                require(u >= v - 1e-12, f"the {what} are not in the order of the loads: {pairs}")
        require(u > 0 or a == 0, f"{what}: a load of {a:g} is drawn with no height")


def partial(X, d):
    """Clearly covering only a part of its span (None: too close to call)."""
    t = max(d[1] - X[d[0]], X[d[0] + 1] - d[2])
    return t > 1e-6 * max(X[-1], 1.0)


def close_call(X, dist):
    return any(1e-7 * max(X[-1], 1.0) < max(d[1] - X[d[0]], X[d[0] + 1] - d[2]) < 1e-5 * max(X[-1], 1.0) or d[2] - d[1] < 1e-6 * X[-1] for d in dist)


def call(c, ba, loads, lcs, **kw):
    from pycba.render import BeamPlotter

    if c["door"] == "plotter":
        tikz = kw.pop("tikz", False)
        p = BeamPlotter(ba.beam, loads, load_cases=lcs)
        return p.render_tikz(**kw) if tikz else p.render_mpl(**kw)
    f = ba.beam.plot if c["door"] == "beam" else ba.plot_beam
    return f(loads, load_cases=lcs, **kw)


def frozen(ba):
    b = ba.beam
    return (repr(b.LM), list(b.restraints), list(b.mbr_lengths), list(b.mbr_eletype), [float(x) if np.isscalar(x) else id(x) for x in b.mbr_EIs])


def drawing(c, rec):
    import matplotlib.pyplot as plt

    with figs.clean():
        ba = beam(c)
        loads, lcs, rows = source(c, ba)
        exp = expected(c, rows)
        if close_call(exp[0], exp[3]):
            raise SkipCase("partial load too close to its span")
        if min(c["L"]) < 0.03 * exp[0][-1]:
            raise SkipCase("symbols overlap")
        rec.mark()
        rec.cls(c["src"], c["door"], *(k for k, _ in exp[1].values()))
        kw = {"labels": c["labels"], "load_values": c["values"], "units": c["unit"], "equal_aspect": c["box"], "show_supports": c["supports"]}
        if not c["dims_default"]:
            kw["dimensions"] = c["dims"]
        if c["color"]:
            kw["color"] = c["color"]
        if c["own"]:
            _, kw["ax"] = plt.subplots()
        was = frozen(ba)
        raw = repr(loads) if isinstance(loads, list) else None
        ax = call(c, ba, loads, lcs, **kw)
        require(not c["own"] or ax is kw["ax"], "the given axes are not used")
        require(was == frozen(ba) and (raw is None or raw == repr(loads)), "drawing changed the model")
        check_mpl(c, ax, exp, c["color"] or "tab:red", c["dims"] and not c["dims_default"], rec)


# ------------------------------------------------------------------- TikZ ----
def parse(body):
    """The commands of a picture: [(name, [mandatory], [optional])], with nodes."""
    cmds, pos = [], {}
    for m in re.finditer(r"\\(point|beam|support|hinge|lineload|load|notation|dimensioning|scaling|node)\b([^;\n]*)", body):
        name, rest = m.groups()
        if name == "node":
            q = re.match(r"\s*\((\w+)\) at \(\$\((\w+)\)!([-+\d.e]+)!\((\w+)\)\$\)\{\}", rest)
            require(q is not None, f"node {rest!r} cannot be read")
            k, a, f, b = q.groups()
            require(k not in pos, f"node {k} is defined twice")
            require(a in pos and b in pos, f"node {k} refers to undefined nodes")
            pos[k] = pos[a] + float(f) * (pos[b] - pos[a])
            continue
        opt = re.findall(r"\[([^\]]*)\]", rest)
        args = re.findall(r"\{([^{}]*)\}", re.sub(r"\[[^\]]*\]", "", rest))
        if name == "point":
            require(args[0] not in pos, f"point {args[0]} is defined twice")
            require(float(args[2]) == 0.0, "a node is off the axis")
            pos[args[0]] = float(args[1])
        else:
            cmds.append((name, args, opt))
    return cmds, pos


def tex_value(t):
    t = t.replace(r"\rightarrow", "→").replace("~", " ")
    m = re.match(r"^\$([^$]*)\$(.*)$", t)
    require(m is not None, f"label {t!r} cannot be read")
    r = read(m.group(1))
    require(r is not None, f"label {t!r} holds no value")
    return r[0], m.group(2).strip()


def check_tikz(c, tex, exp, standalone, scale, dims, rec):
    X, sup, hinges, dist, pts, mom = exp
    n, T = len(c["L"]), X[-1]
    e = 2e-5 * T
    force, length, moment, dunit = UNIT[c["unit"]]
    require((r"\documentclass" in tex and r"\begin{document}" in tex and tex.rstrip().endswith(r"\end{document}") and "stanli" in tex) == standalone, f"standalone={standalone} is not respected")
    if standalone:
        require(tex.index(r"\documentclass") < tex.index(r"\begin{document}") < tex.index(r"\begin{tikzpicture}"), "the document is out of order")
    require(tex.count(r"\begin{tikzpicture}") == tex.count(r"\end{tikzpicture}") == 1 and tex.count(r"\begin{scope}") == tex.count(r"\end{scope}"), "environments are not balanced")
    require(tex.count("{") == tex.count("}") and tex.count("[") == tex.count("]"), "brackets are not balanced")
    body = tex[tex.index(r"\begin{tikzpicture}") : tex.index(r"\end{tikzpicture}")]
    cmds, pos = parse(body)
    by = lambda k: [(a, o) for m, a, o in cmds if m == k]
    require([float(a[0]) for a, _ in by("scaling")] == ([scale] if scale else []), "scaling")
    ends = by("beam")
    require(len(ends) == n, f"{len(ends)} members for {n} spans")
    names = [ends[0][0][1]] + [a[2] for a, _ in ends]
    require(len(set(names)) == n + 1 and all(a[1] == names[i] for i, (a, _) in enumerate(ends)), "the members are not connected")
    require(all(abs(pos[k] - x) <= 1e-5 * max(abs(x), 1e-9) + 1e-12 for k, x in zip(names, X)), f"nodes at {[pos[k] for k in names]}, spans end at {X}")
    want = []
    for i, (k, rot) in sup.items():
        want.append((names[i], {"pin": "1", "roller": "2", "fixed": "4", "spring": "5", "guided": "3", "torsion": "6"}[k], {0: "-90", n: "90"}.get(i) if k == "fixed" else None))
        if rot:
            want.append((names[i], "6", None))
    match(by("support"), want, lambda g, w: g[0][1] == w[0] and g[0][0][0] == w[1] and (w[2] is None or g[1] == [w[2]]), "a support")
    # full circles: hinges and end pins; half circles: the beam is continuous over a pin
    full, half = [], []
    for i in range(n + 1):
        p = sup.get(i, ("",))[0] in ("pin", "roller")
        if i in hinges or (p and i in (0, n)):
            full.append(names[i])
        elif p:
            half.append(i)
    h = by("hinge")
    match([a[1] for a, _ in h if a[0] == "1"], full, lambda a, b: a == b, "a hinge")
    match([(a[1], *o) for a, o in h if a[0] == "2"], [(names[i], names[i - 1], names[i + 1]) for i in half], lambda a, b: a == b, "a pin under a continuous beam")
    # loads
    parts = []
    for _, x0, x1, w0, w1 in dist:
        if w0 * w1 < 0:
            z = x0 + (x1 - x0) * w0 / (w0 - w1)
            parts += [(x0, z, w0, 0.0), (z, x1, 0.0, w1)]
        else:
            parts.append((x0, x1, w0, w1))
    got = []
    for a, o in by("lineload"):
        require(a[0] == "1" and a[1] in pos and a[2] in pos and len(o) == 2, f"line load {a}")
        got.append((pos[a[1]], pos[a[2]], float(o[0]), float(o[1])))

    def line(g, p):
        x0, x1, w0, w1 = p
        up = min(w0, w1) < 0  # the load stands on the left of the line from first to last point
        a, b, ha, hb = (g[1], g[0], g[3], g[2]) if up else g
        return abs(a - x0) < e and abs(b - x1) < e and (ha >= hb or abs(w0) <= abs(w1)) and (hb >= ha or abs(w1) <= abs(w0)) and min(ha, hb) >= 0

    match(got, parts, line, "a distributed load")
    hs = [(abs(w), v) for g in got for p in parts if line(g, p) and sum(line(g, q) for q in parts) == 1 for w, v in zip((p[2:] if min(p[2:]) >= 0 else p[:1:-1]), g[2:])]
    ordered(hs, "heights of the distributed loads")
    ld = by("load")
    match([(pos.get(a[1]), o[0]) for a, o in ld if a[0] == "1"], [(p[1], "90" if p[2] > 0 else "270") for p in pts], lambda g, p: g[0] is not None and abs(g[0] - p[0]) < e and g[1] == p[1], "a point load")
    match([(pos.get(a[1]), a[0]) for a, o in ld if a[0] != "1"], [(m[1], "3" if m[2] > 0 else "2") for m in mom], lambda g, p: g[0] is not None and abs(g[0] - p[0]) < e and g[1] == p[1], "a moment")
    # texts
    note = by("notation")
    lab, val = [], []
    for a, o in note:
        if a[0] == "5":
            val.append((0.5 * (pos[a[1]] + pos[a[2]]), tex_value(o[0]), " ".join(o[1:])))
            require(o[1] == "0.5", "a label is off the middle of its load")
        elif re.fullmatch(r"\$[^\d$]+\$", a[2]):
            lab.append((a[1], a[2].strip("$")))
        else:
            val.append((pos[a[1]], tex_value(a[2]), " ".join(o)))
    match(lab, [(names[i], letter(i)) for i in sup] if c["labels"] else [], lambda a, b: a == b, "a node label")
    want = []
    if c["values"]:
        want += [(0.5 * (d[1] + d[2]), (dist_text(d[3], d[4]), dunit)) for d in dist]
        want += [(p[1], ([abs(p[2])], force)) for p in pts] + [(m[1], ([abs(m[2])], moment)) for m in mom]
    match(val, want, lambda g, w: abs(g[0] - w[0]) < e and same(g[1], w[1]), "a load value")
    dim = [(pos[a[1]], pos[a[2]], tex_value(o[0]), float(a[3])) for a, o in by("dimensioning")]
    want = ([(a, b) for a, b in zip(X[:-1], X[1:])] if dims else []) + ([(d[1], d[2]) for d in dist if partial(X, d)] if c["values"] else [])
    match(dim, want, lambda g, w: abs(g[0] - w[0]) < e and abs(g[1] - w[1]) < e and same(g[2], ([w[1] - w[0]], length)) and g[3] < 0, "a dimension line")


@st.composite
def tikz_cases(draw):
    c = draw(models())
    c["standalone"] = draw(st.booleans())
    c["scale"] = draw(st.sampled_from([None, 0.5, 1.25]))
    return c


def tikz(c, rec):
    with figs.clean():
        ba = beam(c)
        loads, lcs, rows = source(c, ba)
        exp = expected(c, rows)
        if close_call(exp[0], exp[3]):
            raise SkipCase("partial load too close to its span")
        rec.mark()
        rec.cls(c["src"], c["door"], *(k for k, _ in exp[1].values()))
        if any(d[3] * d[4] < 0 for d in exp[3]):
            rec.cls("sign change")
        kw = {"labels": c["labels"], "load_values": c["values"], "units": c["unit"]}
        if not c["dims_default"]:
            kw["dimensions"] = c["dims"]
        if not c["standalone"]:
            kw["standalone"] = False
        if c["scale"]:
            kw["scale"] = c["scale"]
        was = frozen(ba)
        tex = call(c, ba, loads, lcs, tikz=True, **kw)
        require(isinstance(tex, str), "no source is returned")
        require(was == frozen(ba), "drawing changed the model")
        require(tex == ba.beam.to_tikz(loads, load_cases=lcs, **kw), "to_tikz gives another picture")
        check_tikz(c, tex, exp, c["standalone"], c["scale"], c["dims"] or c["dims_default"], rec)


# ------------------------------------------------------------------- files ----
@st.composite
def file_cases(draw):
    c = draw(models(big=False))
    c["tikz"] = draw(st.sampled_from([None, None, True, False]))
    c["ext"] = draw(st.sampled_from([".tex", ".TEX", ".png", ".svg", ".pdf", "", ".txt"]))
    c["compile"] = draw(st.sampled_from([False, False, False, True]))
    c["path"] = draw(st.booleans())
    c["how"] = draw(st.sampled_from(["plot", "plot", "save_tikz"]))
    c["door"] = draw(st.sampled_from(["beam", "analysis"]))
    return c


def files(c, rec):
    from pathlib import Path

    use = c["tikz"]
    if use is None:
        use = c["ext"].lower() == ".tex"
    if c["how"] == "save_tikz":
        use = True
    if not use and c["ext"] in (".tex", ".TEX", ".txt"):
        raise SkipCase("no image format")
    with figs.clean(), tempfile.TemporaryDirectory() as d:
        import matplotlib.pyplot as plt

        ba = beam(c)
        loads, lcs, rows = source(c, ba)
        if not rows and c["src"] == "own" and not any(k != "free" for k in c["sup"]):
            raise SkipCase("nothing to show")
        rec.mark()
        rec.cls(f"{'tikz' if use else 'image'} {c['ext'] or 'no suffix'}")
        target = os.path.join(d, "fig" + c["ext"])
        arg = Path(target) if c["path"] else target
        kw = {"units": c["unit"], "labels": c["labels"], "load_values": c["values"]}
        comp = c["compile"] and use
        if c["how"] == "save_tikz":
            go = lambda: ba.beam.save_tikz(arg, loads, load_cases=lcs, compile=comp, **kw)
        else:
            f = ba.beam.plot if c["door"] == "beam" else ba.plot_beam
            go = lambda: f(loads, load_cases=lcs, save=arg, tikz=c["tikz"], compile=c["compile"], **kw)
        if use:
            pdf = comp or (c["how"] == "plot" and c["ext"] == ".pdf")
            tex = os.path.join(d, "fig.tex")
            if pdf:
                if shutil.which("pdflatex"):
                    raise SkipCase("LaTeX installed")
                with refused(RuntimeError, "pdflatex"):
                    go()
            else:
                out = go()
                require(str(out) == tex, f"returned {out}, not the written file")
            require(os.path.exists(tex), f"no fig.tex among {os.listdir(d)}")
            src = Path(tex).read_text()
            require(src == ba.beam.to_tikz(loads, load_cases=lcs, **kw), "the file is not the picture's source")
            require(sorted(os.listdir(d)) == ["fig.tex"], f"files written: {os.listdir(d)}")
            require(not plt.get_fignums(), "a TikZ picture opened a figure")
        else:
            ax = go()
            require(hasattr(ax, "get_lines"), "the axes are not returned")
            name = "fig" + (c["ext"] or ".png")
            require(os.listdir(d) in ([name], ["fig"]), f"files written: {os.listdir(d)}")
            raw = Path(os.path.join(d, os.listdir(d)[0])).read_bytes()
            head = {".png": b"\x89PNG", ".svg": b"<?xml", ".pdf": b"%PDF", "": b"\x89PNG"}[c["ext"]]
            require(raw.startswith(head) and len(raw) > 500, f"{name} is no such image")


@contextlib.contextmanager
def refused(kind, word):
    try:
        yield
    except kind as ex:
        require(word in str(ex), f"unexplained {kind.__name__}: {ex}")
    else:
        require(False, f"no {kind.__name__} about {word}")


def combination_needs_cases(c, rec):
    with figs.clean():
        import pycba as cba

        ba = beam(c)
        rec.mark()
        combo = cba.LoadCombination("uls", {"G": c["fac"][0]})
        for f in (ba.plot_beam, ba.beam.plot, ba.beam.to_tikz):
            with refused(ValueError, "LoadCases"):
                f(combo)


CHECK = Check(
    "C31",
    "a schematic of a random model with random loads and options was read back completely",
    [
        Sub("drawing", models, drawing, 1000, 12000),
        Sub("tikz", tikz_cases, tikz, 2500, 30000),
        Sub("files", file_cases, files, 250, 2500),
        Sub("refusal", lambda: models(big=False), combination_needs_cases, 30, 300),
    ],
    [
        "symbols are recognised by shape and place, not by colour, size or line width",
        "stanli's own rendering of the TikZ commands is taken from its manual; no LaTeX is installed",
        "imposed curvature has no symbol; a rotational restraint next to a vertical spring is not asserted",
    ],
)
