"""C30: what a result plot draws is the result."""
import re

import numpy as np
from hypothesis import strategies as st

from harness import cmp, figs, gen, moving
from harness.core import Check, SkipCase, Sub, require

KINDS = ["results", "bmd", "sfd", "dsd", "reactions"] + figs.BRIDGE + ["il", "modes", "modal_results", "vehicle"] + figs.NONLINEAR + ["response", "patterns", "section"]


@st.composite
def cases(draw, kinds):
    k = draw(st.sampled_from(kinds))
    if k in ("response", "patterns"):
        n = draw(st.integers(1, 4))
        L = [draw(gen.lengths(2.0, 20.0)) for _ in range(n)]
        c = {"kind": k, "L": L, "nc": draw(st.integers(1, 4)), "seed": draw(st.integers(0, 10**6)), "names": draw(st.booleans()), "model": draw(st.sampled_from(["analysis", "beam", "none"]))}
        c["rows"] = [draw(gen.load_matrix(L, types=draw(st.sampled_from([(1, 3, 5), (1, 2, 3, 4, 5), (2, 4)])), max_size=4, overhang=False).map(lambda m: [r + [L[r[0] - 1] - r[4]] if r[1] == 5 and len(r) == 5 else r for r in m])) for _ in range(c["nc"])]
        c["scale"] = draw(st.sampled_from([1.0, 1e-4, 1e5]))
    elif k == "section":
        L, E = draw(gen.lengths(1.0, 30.0)), draw(gen.EI0)
        s = draw(gen.section_segs(L, E).filter(gen.segs_positive))
        c = {"kind": k, "segs": s, "n": draw(st.sampled_from([200, 50, 7, 2])), "marks": draw(st.booleans()), "text": draw(st.booleans())}
    else:
        c = draw(figs.scenes([k]))
    c["own"] = draw(st.booleans())
    c["opt"] = [draw(st.booleans()) for _ in range(3)]
    c["unit"] = draw(st.sampled_from(["SI", "SI", "N-mm", "US-ft"]))
    return c


SCALE = {"SI": 1000.0, "N-mm": 1.0, "US-ft": 12.0}


def curve(ax, x, y, what):
    require(figs.has_curve(ax, x, y), f"{what} is not drawn")


def moment(ax, x, M, what):
    """A moment diagram, sagging downward: the axis is inverted, or -M is drawn."""
    curve(ax, x, M if ax.yaxis_inverted() else -np.asarray(M), what + " (sagging downward)")


def nothing_else(ax, curves, what):
    """Every drawn curve of some length is one of the expected ones."""
    for x, y in figs.lines(ax):
        if len(x) > 4:
            require(any(len(u) == len(x) and np.allclose(x, u) and np.allclose(np.abs(y), np.abs(v), rtol=1e-9, atol=1e-9 * np.max(np.abs(v), initial=1e-300)) for u, v in curves), f"{what}: a curve that is no result is drawn")


def num(t):
    m = re.match(r"\s*([-−+]?\d[\d.]*(?:e[-+]?\d+)?)", t)
    return None if m is None else float(m.group(1).replace("−", "-"))


def shading(ax, x, y):
    """Is the area between the curve and the baseline filled?"""
    for q in ax.collections:
        for p in q.get_paths():
            v = np.asarray(p.vertices, float)
            if v[:, 1].max() >= y.max() - 1e-9 * abs(y).max() and v[:, 1].min() <= y.min() + 1e-9 * abs(y).max():
                return True
    return False


# ------------------------------------------------------------- beam diagrams ----
def panel(axs, quantity):
    got = [a for a in axs if a.get_ylabel().startswith(quantity)]
    require(len(got) == 1, f"{len(got)} panels of {quantity}")
    return got[0]


def diagrams(c, rec, s, axs_of):
    res = s.obj.beam_results
    x = np.concatenate([m.x for m in res.vRes])
    M, V = (np.concatenate([getattr(m, k) for m in res.vRes]) for k in "MV")
    xd = np.concatenate([m.x[1:-1] for m in res.vRes])
    d = np.concatenate([m.D[1:-1] for m in res.vRes]) * SCALE[c["unit"]]
    k = c["kind"]
    if k == "results":
        beam, reac = c["opt"][:2]
        out, axs = axs_of(show_beam=beam, show_reactions=reac)
        require(len(axs) == 3 + beam + reac, f"{len(axs)} panels")
        require(out[0] is axs[0].figure and list(out[1]) == axs, "the figure and its axes are not returned")
        M_, V_, D_ = (panel(axs, q) for q in ("Bending", "Shear", "Deflection"))
        for a, y in ((M_, M), (V_, V)):
            require(shading(a, x, y), "a diagram is not shaded")
        if reac:
            forces(s, axs[-1])
        lims = [a.get_xlim() for a in axs]
        require(all(np.allclose(q, lims[0]) for q in lims), "the panels are not aligned along the beam")
    else:
        kw = {}
        if c["own"]:
            import matplotlib.pyplot as plt

            _, kw["ax"] = plt.subplots()
            kw["label"] = "mine"
        out, axs = axs_of(**kw)
        ax = kw.get("ax") or axs[0]
        require(out is ax, "the axes drawn into are not returned")
        if c["own"]:
            require(not axs and len(ax.get_lines()) == 1 and ax.get_lines()[0].get_label() == "mine", "an overlay must add just its curve")
            require(not ax.yaxis_inverted(), "an overlay changed the axis")
            y = {"bmd": M, "sfd": V, "dsd": d}[k]
            curve(ax, xd if k == "dsd" else x, y, k)
            return
        M_ = V_ = D_ = ax
    if k in ("results", "bmd"):
        require(M_.yaxis_inverted(), "the moment axis is not sagging-downward")
        curve(M_, x, M, "bending moment")
        nothing_else(M_, [(x, M)], "moment panel")
    if k in ("results", "sfd"):
        require(not V_.yaxis_inverted(), "the shear axis is inverted")
        curve(V_, x, V, "shear force")
        nothing_else(V_, [(x, V)], "shear panel")
    if k in ("results", "dsd"):
        require(not D_.yaxis_inverted(), "the deflection axis is inverted")
        curve(D_, xd, d, "deflection")
        nothing_else(D_, [(xd, d)], "deflection panel")


def sense(poly):
    """+1 for an arrow head turning counter-clockwise about the origin given."""
    v = np.asarray(poly, float)
    side = [np.linalg.norm(v[(i + 1) % 3] - v[i]) + np.linalg.norm(v[(i + 2) % 3] - v[i]) for i in range(3)]
    i = int(np.argmax(side))
    d = v[i] - 0.5 * (v[(i + 1) % 3] + v[(i + 2) % 3])
    return v[i], d


def forces(s, ax):
    """The reaction arrows of a schematic against the reference reactions."""
    from matplotlib.patches import Arc, Polygon

    case, ref = s.c["beam"], s.ref
    F, M, _, _ = cmp.scales(ref)
    X = moving.nodes_of(case)
    all_ = {**ref.reac, **ref.springs}
    rt = max(1e-7, 1e-13 / ref.rc)
    arrows = [a for a in figs.arrows(ax) if abs(a[0][0] - a[1][0]) < 1e-9 * X[-1] and abs(a[0][1] - a[1][1]) > 0]
    texts = figs.texts(ax)
    arcs = [p for p in ax.patches if isinstance(p, Arc)]
    heads = [np.asarray(p.get_xy(), float)[:3] for p in ax.patches if isinstance(p, Polygon) and len(p.get_xy()) == 4 and tuple(np.round(p.get_facecolor()[:3], 3)) != (1.0, 1.0, 1.0)]
    for i, x in enumerate(X):
        near = lambda u: abs(u - x) < 1e-7 * X[-1]
        for dof, sc in ((2 * i, F), (2 * i + 1, M)):
            v = all_.get(dof, 0.0)
            small = abs(v) < max(1e-5, 1e3 * rt * sc)
            vert = dof % 2 == 0
            what = f"{'reaction' if vert else 'moment reaction'} {v:.6g} at node {i + 1}"
            mine = [a for a in arrows if near(a[0][0])] if vert else [p for p in arcs if near(p.center[0])]
            if dof not in all_:
                require(not mine, f"an arrow at node {i + 1}, which has no {'vertical' if vert else 'rotational'} restraint")
                continue
            if small:
                continue
            require(len(mine) == 1, f"{what}: {len(mine)} arrows")
            if vert:
                (_, tail), (_, head) = mine[0]
                require((head > tail) == (v > 0), f"{what}: the arrow points {'up' if head > tail else 'down'}")
            else:
                r = 0.5 * mine[0].width
                turn = []
                for h in heads:
                    tip, d = sense(h)
                    q = tip - np.array([x, 0.0])
                    if abs(np.linalg.norm(q) - r) < 1e-6 * r:
                        turn.append(np.sign(q[0] * d[1] - q[1] * d[0]))
                require(turn == [np.sign(v)], f"{what}: arrow heads turn {turn}")
            unit = {"SI": ("kN", "kNm"), "N-mm": ("N", "N·mm"), "US-ft": ("kip", "kip·ft")}[s.c["unit"]][0 if vert else 1]
            vals = [num(t) for u, _, t in texts if near(u) and num(t) is not None and t.endswith(" " + unit)]
            require(any(abs(abs(v) - q) <= 6e-4 * abs(v) + rt * sc for q in vals), f"{what}: labelled {vals} {unit}")
    if not [d for d in all_ if d % 2]:
        require(not arcs, "a moment arrow although no rotation is restrained")


# ---------------------------------------------------------------- bridges ----
def bridges(c, rec, s, axs_of):
    import matplotlib.pyplot as plt

    env, b, k = s.env, s.obj, c["kind"]
    x = np.asarray(env.x, float)
    T = float(sum(c["beam"]["L"]))
    if k in ("envelopes", "coincidents", "bridge_envelopes"):
        pos = np.asarray(b.pos, float)
        dropped = k == "bridge_envelopes" and c["opt"][0]
        if dropped:  # an envelope of envelopes has no history of reactions
            first = figs.run(b, c, k=c["n"] + 3)
            if c["opt"][1]:
                env = first | env
            else:
                env.augment(first)
            s.env = env
            figs.run(b, c, k=c["n"] + 3 if c["opt"][2] else c["n"])
            pos = np.asarray(b.pos, float)
            rec.cls("envelope of envelopes")
    if k == "envelopes":
        each = c["opt"][0]
        out, axs = axs_of(each=each)
        m, v = panel(axs, "Bending"), panel(axs, "Shear")
        Ms = [env.Mmax, env.Mmin] + ([r.results.M for r in env.vResults] if each else [])
        Vs = [env.Vmax, env.Vmin] + ([r.results.V for r in env.vResults] if each else [])
        require(m.yaxis_inverted() and not v.yaxis_inverted(), "axis directions of the envelopes")
        for ax, q in ((m, Ms), (v, Vs)):
            for y in q:
                curve(ax, x, y, "an envelope" if not each else "an envelope or diagram")
            nothing_else(ax, [(x, y) for y in q], "envelope panel")
    elif k == "coincidents":
        out, axs = axs_of()
        require(len(axs) == 4, f"{len(axs)} axes")
        names = {"Mmax": "Mmax", "Mmin": "Mmin", "Vmax": "Vmax", "Vmin": "Vmin", "V coincident @ Mmax": "Vco_Mmax", "V coincident @ Mmin": "Vco_Mmin", "M coincident @ Vmax": "Mco_Vmax", "M coincident @ Vmin": "Mco_Vmin"}
        seen = set()
        for ax in axs:
            co = ax.get_ylabel().startswith("Coincident")
            mom = "Moment" in ax.get_ylabel()
            require(ax.yaxis_inverted() == mom, f"direction of the axis {ax.get_ylabel()}")
            need = [a for a in names.values() if (a.startswith("M") if mom else a.startswith("V")) and ("co_" in a) == co]
            for a in need:
                curve(ax, x, getattr(env, a), a)
                seen.add(a)
            nothing_else(ax, [(x, getattr(env, a)) for a in need], ax.get_ylabel())
            for l in ax.get_lines():
                if l.get_label() in names:
                    a = names[l.get_label()]
                    require(np.array_equal(np.asarray(l.get_ydata(), float), np.asarray(getattr(env, a), float)), f"the curve called {l.get_label()!r} is not {a}")
        require(len(seen) == 8, f"envelopes drawn: {seen}")
    elif k == "bridge_envelopes":
        out, axs = axs_of()
        m, v = panel(axs, "Bending"), panel(axs, "Shear")
        require(m.yaxis_inverted() and not v.yaxis_inverted(), "axis directions of the envelopes")
        for ax, q in ((m, (env.Mmax, env.Mmin)), (v, (env.Vmax, env.Vmin))):
            for y in q:
                curve(ax, x, y, "an envelope")
            nothing_else(ax, [(x, y) for y in q], "envelope panel")
        right = [a for a in axs if a.get_ylabel().startswith("Reaction")]
        n = env.nsup
        if dropped:
            require(len(right) == (2 if n else 0), f"{len(right)} reaction panels of an envelope of envelopes of {n} reactions")
            for ax, y in zip(right, (env.Rmaxval, env.Rminval)):
                bars(ax, y, "reaction extremes", ax is right[-1])
            return
        require(len(right) == n, f"{len(right)} reaction panels for {n} reactions")
        for i, ax in enumerate(right):
            require(f"Reaction {i + 1}" in ax.get_ylabel(), "reaction panels out of order")
            for y, f in ((env.Rmax[i], np.max), (env.Rmin[i], np.min)):
                curve(ax, pos, y, f"history of reaction {i + 1}")
                e = float(f(y))
                vals = [(t.xy, num(t.get_text())) for t in ax.texts if num(t.get_text()) is not None]
                require(any(abs(q - e) <= 6e-3 * abs(e) and np.min(np.abs(pos[np.abs(y - e) <= 1e-9 * max(1.0, abs(e))] - xy[0])) < 1e-9 * T for xy, q in vals), f"extreme {e:.4g} of reaction {i + 1} is not marked: {vals}")
    elif k == "ratios":
        out, axs = axs_of()
        m, v = panel(axs, "Bending"), panel(axs, "Shear")
        for ax, q in ((m, ("Mmax", "Mmin")), (v, ("Vmax", "Vmin"))):
            for a in q:
                curve(ax, x, s.ratios[a], f"ratio of {a}")
        right = [a for a in axs if a.get_ylabel().startswith("Reaction Ratio")]
        require(len(right) == 2, "reaction ratio panels")
        for ax, a in zip(right, ("max", "min")):
            require(a in ax.get_ylabel(), "reaction ratio panels out of order")
            bars(ax, [s.ratios[f"R{a}{i}"] for i in range(s.ratios["nsup"])], f"reaction ratios ({a})", ax is right[-1])
    else:
        static(c, rec, s, axs_of)


def bars(ax, y, what, last=True):
    got = sorted((p.get_x() + 0.5 * p.get_width(), p.get_y() + p.get_height(), p.get_y()) for p in ax.patches)
    require(len(got) == len(y), f"{what}: {len(got)} bars for {len(y)}")
    for i, (b, v) in enumerate(zip(got, y)):
        top = b[1] if abs(b[2]) < 1e-12 else b[2]
        require(abs(b[0] - i) < 1e-9 and (abs(top - v) <= 1e-9 * max(1e-9, abs(v)) or not np.isfinite(v)), f"{what}: bar {i + 1} is {top:.6g} at {b[0]:.3g}, expected {v:.6g}")
    lab = [t.get_text() for t in ax.get_xticklabels()]
    require((not lab and not last) or lab == [f"R{i + 1}" for i in range(len(y))], f"{what}: bars named {lab}")


def static(c, rec, s, axs_of):
    import matplotlib.pyplot as plt

    case, b, pos = c["beam"], s.obj, s.pos
    T = float(sum(case["L"]))
    ax_ = moving.axles(c["veh"], pos)
    if moving.ambiguous(case, ax_):
        raise SkipCase("axle at a beam end")
    fixed = [list(r) for r in case["LM"]] if c["statics"] else []
    ba = gen.analysed(case, LM=fixed + moving.rows(case, ax_))
    res = ba.beam_results.results
    two = c["opt"][0]
    if two:
        rec.cls("two given axes")
        b.static_vehicle(pos) if hasattr(b, "static_vehicle") else None
        fig, given = plt.subplots(2)
        out, _ = axs_of(axs=given)
        m, v = given
        require(out is None, "axes given, something returned")
    else:
        out, axs = axs_of()
        require(len(axs) == 3 and out is not None, f"{len(axs)} panels")
        deck, m, v = axs
    tolM = 1e-7 * max(1e-9, np.max(np.abs(res.M)), T)
    sgn = 1.0 if m.yaxis_inverted() else -1.0
    W = sum(w for _, w in ax_) + 1e-9
    near = np.ones(len(res.x), bool)
    for xa, _ in ax_:
        near &= np.abs(res.x - xa) > 1e-7 * T
    for ax, y, mask, what in ((m, sgn * res.M, np.ones(len(res.x), bool), "moment"), (v, res.V, near, "shear")):
        ok = any(len(u) == len(res.x) and np.allclose(u, res.x, atol=1e-9 * T) and np.all(np.abs(z - y)[mask] <= 1e-7 * (np.max(np.abs(y)) + W * (T if what == "moment" else 1))) for u, z in figs.lines(ax))
        require(ok, f"the {what} diagram of the vehicle at {pos:.6g} is not drawn")
        on = sorted(x for x, _ in ax_ if 0 <= x <= T)
        got = sorted(float(u[0]) for u, z in figs.lines(ax) if len(u) == 2 and u[0] == u[1])
        require(len(on) == len(got) and np.allclose(on, got, atol=1e-9 * T), f"axles marked at {got}, they are at {on}")
    if two:
        return
    wheels = sorted(p.center[0] for p in deck.patches if p.get_gid() == "vehicle_wheel")
    at = sorted(x for x, _ in ax_)
    require(len(wheels) == len(at) and np.allclose(wheels, at, atol=1e-9 * T), f"wheels at {wheels}, axles at {at}")
    down = [t[0] for t, h in figs.arrows(deck) if abs(t[0] - h[0]) < 1e-9 * T and t[1] > h[1]]
    for x in on:
        require(any(abs(x - d) < 1e-9 * T for d in down), f"no load arrow at the axle at {x:.6g}")
    if not c["statics"]:
        require(len(down) == len(on), f"{len(down)} load arrows for {len(on)} axles on the deck")
    else:
        require(len(down) + sum(1 for r in fixed) >= len(on), "arrows")
    spec = [t for _, _, t in figs.texts(deck) if "Vehicle" in t]
    require(len(spec) == 1, "no caption of the vehicle")
    groups, total = spec[0].split(":", 1)[1].split("(")
    w = []
    for g in groups.split(" + "):
        p = g.split("×")
        w += [num(p[-1])] * (int(p[0]) if len(p) == 2 else 1)
    exp = [q for _, q in ax_]
    require(len(w) == len(exp) and any(np.allclose(w, e, rtol=2e-5) for e in (exp, exp[::-1])), f"caption {spec[0]!r} for axles {exp}")
    require(abs(num(total.split("=")[1]) - sum(exp)) <= 2e-5 * sum(exp), f"caption {spec[0]!r}: total of {sum(exp)}")


# ------------------------------------------------------------------ others ----
def others(c, rec, s, axs_of):
    k = c["kind"]
    if k == "il":
        out, axs = axs_of()
        x, y = s.data
        curve(axs[0], x, y, "the influence line")
        nothing_else(axs[0], [(x, y)], "influence line")
    elif k == "vehicle":
        out, axs = axs_of()
        v, ax = s.obj, axs[0]
        at = moving.axle_coords(c["veh"])
        if c["veh"].get("rev"):
            at = at[-1] - at
        got = sorted((t[0], h[0]) for t, h in figs.arrows(ax))
        require(all(abs(t - h) < 1e-9 for t, h in got), "axle arrows are not vertical")
        require(all(t[1] > h[1] for t, h in figs.arrows(ax)), "axle arrows point up")
        exp = sorted(at)
        require(len(got) == len(exp) and np.allclose([t for t, _ in got], exp, atol=1e-9), f"arrows at {got}, axles at {exp}")
        lab = sorted((x, num(t)) for x, _, t in figs.texts(ax))
        ww = sorted(zip(at, c["veh"]["w"]))
        key = lambda q: (round(q[0], 6), q[1])
        require(len(lab) == len(ww) and all(abs(a[0] - b[0]) < 1e-6 and abs(a[1] - b[1]) <= 2e-5 * b[1] for a, b in zip(sorted(lab, key=key), sorted(ww, key=key))), f"axle labels {lab} for {ww}")
        h = {round(t[0], 9): abs(t[1] - p[1]) for t, p in figs.arrows(ax)}
        if len(set(np.round(at, 9))) == len(at):
            o = [h[round(x, 9)] for x, _ in ww]
            for (_, p), u in zip(ww, o):
                for (_, q), z in zip(ww, o):
                    require((p - q) * (u - z) >= -1e-9 and (abs(p - q) < 1e-9 or abs(u - z) > 1e-9 * abs(p - q) / max(p, q)), "arrow heights are not in the order of the axle loads")
        t = ax.get_title()
        require(abs(num(t.split("=")[1]) - sum(c["veh"]["w"])) <= 2e-5 * sum(c["veh"]["w"]), f"title {t!r}: total weight")
        require(abs(num(t.split("=")[2]) - sum(c["veh"]["s"])) <= 2e-5 * sum(c["veh"]["s"]) + 1e-12, f"title {t!r}: wheelbase")
    elif k in ("modes", "modal_results"):
        out, axs = axs_of()
        r = s.obj
        m = c["modes"]
        want = ([0] if m is None else [m] if isinstance(m, int) else m) if k == "modes" else list(range(min(3, r.n_modes))) if m is None else [m] if isinstance(m, int) else m
        ax = axs[-1]
        require(len(axs) == (1 if k == "modes" else 2), f"{len(axs)} panels")
        drawn = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), str(l.get_label())) for l in ax.get_lines() if len(l.get_xdata()) > 4]
        require(len(drawn) == len(want), f"{len(drawn)} mode shapes for modes {want}")
        for (x, y, name), i in zip(drawn, want):
            sh = np.asarray(r.shapes[i] if hasattr(r, "shapes") else r.mode_shape(i)[1], float)
            xs, v = r.mode_shape(i)
            require(np.array_equal(x, xs) and np.allclose(y, v), f"mode {i + 1} is not the curve drawn")
            require(abs(np.max(np.abs(y)) - 1.0) < 1e-9 and y[np.argmax(np.abs(y))] > 0, f"mode {i + 1} is not drawn with unit amplitude")
            n = re.findall(r"[\d.]+(?:e[-+]\d+)?", name)
            require(len(n) == 2 and int(n[0]) == i + 1 and abs(float(n[1]) - r.f[i]) <= 6e-3 * r.f[i], f"mode {i + 1} of {r.f[i]:.4g} Hz is called {name!r}")
    else:
        nonlinear(c, rec, s, axs_of)


def offsets(ax, label):
    out = []
    for q in ax.collections:
        if q.get_label() == label:
            out += [tuple(map(float, o)) for o in np.asarray(q.get_offsets())]
    return sorted(out)


def nonlinear(c, rec, s, axs_of):
    r, k, nl = s.obj, c["kind"], c["nl"]
    x = np.asarray(r.node_coords, float)
    T = x[-1]
    hinges = [h for h in r.hinge_events if h.event_type == "plastic_hinge"]
    yields = [h for h in r.hinge_events if h.event_type == "initial_yield"]
    rec.cls("collapsed" if r.collapsed else "standing", f"hinges{min(len(hinges), 3)}")
    if k == "nl_collapse":
        f = 7.0 if c["opt"][0] else None
        out, axs = axs_of(scale=f)
    else:
        out, axs = axs_of()
    ax = axs[0]
    require(out is ax, "the axes are not returned")
    if k == "nl_moments":
        require(ax.yaxis_inverted(), "the moment axis is not sagging-downward")
        all_ = [r.final_moments] + list(r.moment_history)
        for m in all_[:: max(1, len(all_) // 15)] + all_[-1:]:
            curve(ax, x, m, "a moment distribution")
        require(sum(len(u) == len(x) for u, _ in figs.lines(ax)) >= len(all_), "recorded distributions are missing")
        level = sorted(float(v[0]) for u, v in figs.lines(ax) if len(u) == 2 and v[0] == v[1] and v[0] != 0)
        Mp = float(np.min(nl["Mp"]))
        require(np.allclose(level, [-Mp, Mp]), f"capacity lines at {level}")
        lab = [t.get_text() for t in ax.get_legend().get_texts()]
        if r.collapsed:
            require(any("Collapse" in t and abs(float(re.findall(r"-?[\d.]+", t)[0]) - r.collapse_lambda) <= 0.00501 for t in lab), f"collapse at {r.collapse_lambda} is called {lab}")
        else:
            require(not any("Collapse" in t for t in lab), f"no collapse, but the legend says {lab}")
    elif k == "nl_history":
        for ev, label in ((yields, "Initial yield"), (hinges, "Plastic hinge")):
            got = offsets(ax, label)
            exp = sorted((float(h.location), float(h.load_factor)) for h in ev)
            require(len(got) == len(exp) and np.allclose(np.array(got), np.array(exp)) if exp else not got, f"{label} marked at {got}, events {exp}")
    elif k == "nl_state":
        for ev, label in ((yields, "Initial yield"), (hinges, "Plastic hinge")):
            got = [g[0] for g in offsets(ax, label)]
            exp = sorted(float(h.location) for h in ev)
            require(len(got) == len(exp) and np.allclose(got, exp), f"{label} marked at {got}, events at {exp}")
        arrows = sorted(h[0] for t, h in figs.arrows(ax) if t[1] > h[1])
        exp = []
        if s.veh is not None:
            off = np.asarray(s.veh.axle_coords, float)
            p = r.collapse_lambda - off
            if np.any(np.abs(p) < 1e-9) or np.any(np.abs(p - T) < 1e-9):
                raise SkipCase("axle at a beam end")
            exp = sorted(float(q) for q in p if 0 <= q <= T)
            t = ax.get_title()
            require(("collapse" in t) == bool(r.collapsed), f"title {t!r}, collapsed: {r.collapsed}")
            require(abs(num(t.split("=")[1]) - r.collapse_lambda) <= 0.0501, f"title {t!r}: position {r.collapse_lambda}")
        require(len(arrows) == len(exp) and np.allclose(arrows, exp), f"axles drawn at {arrows}, they are at {exp}")
        tri = sorted(float(np.mean(np.asarray(p.get_xy())[:3, 0])) for p in ax.patches)
        sup = sorted(set(map(float, r.support_coords)))
        require(len(tri) == len(sup) and np.allclose(tri, sup, atol=1e-6), f"supports drawn at {tri}, they are at {sup}")
    else:
        d = np.asarray(r.final_displacements, float)
        dv = d[0 : 2 * len(x) : 2] if d.size >= 2 * len(x) else np.zeros_like(x)
        drawn = [v for u, v in figs.lines(ax) if len(u) == len(x)]
        require(len(drawn) == 1, f"{len(drawn)} deformed shapes")
        y = drawn[0]
        m = float(np.max(np.abs(dv)))
        if f is not None or m == 0:
            exp = dv * (f or 1.0)
        else:
            i = int(np.argmax(np.abs(dv)))
            require(y[i] * dv[i] > 0, "the deformed shape is upside down")
            exp = dv * (y[i] / dv[i])
            require(0.01 * T < abs(y[i]) < 0.5 * T, "the scaled shape is no sensible fraction of the beam")
        require(np.allclose(y, exp, rtol=1e-9, atol=1e-12 * max(1.0, m)), "the drawn shape is not the displacement")
        got = offsets(ax, "Plastic hinge")
        hx = sorted({float(h.location) for h in hinges})
        require(len(got) == len(hx) and all(abs(a[0] - b) < 1e-9 * T and abs(a[1] - np.interp(b, x, y)) <= 1e-9 * T for a, b in zip(got, hx)), f"hinges marked at {got}, they are at {hx}")


# ---------------------------------------------------------- load-case plots ----
def case_plots(c, rec):
    import matplotlib.pyplot as plt
    import pycba as cba
    from pycba.load_cases import plot_load_patterns, plot_response_envelope

    L, nc = c["L"], c["nc"]
    X = np.concatenate([[0.0], np.cumsum(L)])
    R = [-1, 0] * (len(L) + 1)
    ba = cba.BeamAnalysis(L, 1e4, R)
    beam = ba.beam if c["model"] == "beam" else ba
    lcs = [cba.LoadCase(f"case {chr(65 + i)}", [list(r) for r in rows]) for i, rows in enumerate(c["rows"])]
    if c["kind"] == "response":
        rng = np.random.default_rng(c["seed"])
        x = np.linspace(0.0, X[-1], 23)
        B = rng.normal(size=(nc, 23)) * c["scale"]
        neg, pos = np.minimum(B, 0).sum(0), np.maximum(B, 0).sum(0)
        kw = {} if c["model"] == "none" else {"beam_model": beam}
        if c["names"]:
            kw["load_cases"] = lcs
        fig, ax = plot_response_envelope(x, B, neg, pos, show=False, **kw)
        for i in range(nc):
            curve(ax, x, B[i], f"response {i + 1}")
            name = f"case {chr(65 + i)}" if c["names"] else f"LC {i + 1}"
            l = [q for q in ax.get_lines() if q.get_label() == name]
            require(len(l) == 1 and np.array_equal(l[0].get_ydata(), B[i]), f"the curve called {name} is not its response")
        for y, w in ((neg, "negative"), (pos, "positive")):
            curve(ax, x, y, f"{w} envelope")
            l = [q for q in ax.get_lines() if w in str(q.get_label())]
            require(len(l) == 1 and np.array_equal(l[0].get_ydata(), y), f"the curve called {w} envelope is another")
        nothing_else(ax, [(x, y) for y in (*B, neg, pos)], "responses")
        v = sorted({round(float(u[0]), 9) for u, z in figs.lines(ax) if len(u) == 2 and u[0] == u[1]})
        exp = [] if c["model"] == "none" else [round(float(q), 9) for q in X]
        require(len(v) == len(exp) and np.allclose(v, exp, atol=1e-8), f"span boundaries at {v}, spans end at {exp}")
        t = sorted((p, s) for p, _, s in figs.texts(ax))
        mid = [] if c["model"] == "none" else [(0.5 * (a + b), f"S{i + 1}") for i, (a, b) in enumerate(zip(X[:-1], X[1:]))]
        require(len(t) == len(mid) and all(abs(a[0] - b[0]) < 1e-9 * X[-1] and a[1] == b[1] for a, b in zip(t, mid)), f"span names {t}")
        return
    fig, ax = plot_load_patterns(beam, lcs, show=False)
    names = [t.get_text() for t in ax.get_yticklabels()]
    require(names == [q.name for q in lcs] and ax.yaxis_inverted(), f"rows named {names}")
    rows = {j: [] for j in range(nc)}
    for q in ax.collections:
        for p in q.get_paths():
            v = np.asarray(p.vertices, float)
            rows[int(round(v[:, 1].mean() if len(v) == 4 else 0.5 * (v[:, 1].min() + v[:, 1].max())))].append((v[:, 0].min(), v[:, 0].max(), tuple(np.round(q.get_facecolor()[0][:3], 3))))
    for j, lm in enumerate(c["rows"]):
        loaded = []
        for r in lm:
            i = int(r[0]) - 1
            if r[1] in (2, 4):
                continue
            if r[1] == 1 or (r[1] == 5 and len(r) <= 4):
                loaded.append((X[i], X[i] + L[i]))
            else:
                a, w = r[-2], r[-1]
                loaded.append((X[i] + a, X[i] + min(a + w, L[i])))
        if not loaded:  # nothing distributed: the spans that carry its loads
            loaded = [(X[i], X[i] + L[i]) for i in sorted({int(r[0]) - 1 for r in lm})]
        grey = rows[j][0][2]
        spans = [q[:2] for q in rows[j] if q[2] == grey]
        got = [q[:2] for q in rows[j] if q[2] != grey]
        require(len(spans) == len(L) and np.allclose(sorted(spans), list(zip(X[:-1], X[1:])), atol=1e-9 * X[-1]), f"row {j + 1}: spans {spans}")
        require(len(got) == len(loaded) and np.allclose(sorted(got), sorted(loaded), atol=1e-9 * X[-1]), f"row {j + 1}: loaded parts {sorted(got)}, loads {sorted(loaded)}")


def section_plot(c, rec):
    from harness import refbeam as rb

    sec = gen.section(c["segs"])
    fig, ax = sec.plot(n=c["n"], show_breakpoints=c["marks"], annotate=c["text"])
    ps = rb.section_pieces(c["segs"])
    T = ps[-1][1]
    top = max(float(np.max(rb.poly_on(ps, np.linspace(0, T, 200)))), 1e-300)
    curves = [(x, y) for x, y in figs.lines(ax) if x[0] != x[-1]]
    cover = []
    for x, y in curves:
        require(np.all(np.diff(x) > 0), "a piece is not drawn from left to right")
        mid = x[1:-1] if len(x) > 2 else np.array([])
        i = [q for q in ps if q[0] <= x[0] + 1e-9 * T and q[1] >= x[-1] - 1e-9 * T]
        require(len(i) >= 1, f"a drawn curve [{x[0]:g}, {x[-1]:g}] crosses a piece boundary")
        x0, x1, co = i[0]
        v = np.polynomial.polynomial.polyval(x - x0, co)
        require(np.all(np.abs(v - y) <= 1e-6 * top), f"EI drawn over [{x[0]:g}, {x[-1]:g}] is not the section's")
        cover.append((x[0], x[-1]))
    cover.sort()
    require(abs(cover[0][0]) <= 1e-9 * T and abs(cover[-1][1] - T) <= 1e-9 * T and all(abs(a[1] - b[0]) <= 1e-9 * T for a, b in zip(cover, cover[1:])), f"the section is drawn over {cover}")
    marks = {round(float(u[0]), 6) for u, z in figs.lines(ax) if u[0] == u[-1] and tuple(np.round(z, 9)) == (0.0, 1.0)}
    if c["marks"]:
        for a, b in cover:
            require(round(a, 6) in marks and round(b, 6) in marks, f"no mark at a boundary of [{a:g}, {b:g}]")
    else:
        require(not marks, "breakpoints are marked although switched off")
    jumps = [(u[0], sorted(z)) for u, z in figs.lines(ax) if u[0] == u[-1] and tuple(np.round(z, 9)) != (0.0, 1.0)]
    for (a, b, p), (a2, b2, q) in zip(ps[:-1], ps[1:]):
        l, r = np.polynomial.polynomial.polyval(b - a, p), np.polynomial.polynomial.polyval(0.0, q)
        step = [z for u, z in jumps if abs(u - b) <= 1e-9 * T]
        if abs(l - r) > 1e-6 * top:
            require(len(step) == 1 and np.allclose(step[0], sorted((l, r)), rtol=1e-6), f"the step at {b:g} is not drawn")
    require(bool([t for t in figs.texts(ax)]) == c["text"], "annotation switch")


# ------------------------------------------------------------------- check ----
def matplotlib_(c, rec):
    rec.cls(c["kind"])
    with figs.clean():
        if c["kind"] in ("response", "patterns"):
            rec.mark()
            return case_plots(c, rec)
        if c["kind"] == "section":
            rec.mark()
            return section_plot(c, rec)
        s = figs.Scene(c)
        rec.mark()

        def axs_of(**kw):
            if c["kind"] not in ("reactions",):
                kw.setdefault("units", c["unit"])
            return figs.axes(s.call, **kw)

        if c["kind"] == "reactions":
            import matplotlib.pyplot as plt

            kw = {"units": c["unit"]}
            if c["own"]:
                _, kw["ax"] = plt.subplots()
            out, axs = figs.axes(s.call, **kw)
            require(out[1] is (kw.get("ax") or axs[0]), "the axes are not returned")
            forces(s, out[1])
        elif c["kind"] in ("results", "bmd", "sfd", "dsd"):
            diagrams(c, rec, s, axs_of)
        elif c["kind"] in figs.BRIDGE:
            bridges(c, rec, s, axs_of)
        else:
            others(c, rec, s, axs_of)


def plotly_(c, rec):
    rec.cls(c["kind"])
    with figs.clean():
        s = figs.Scene(c)
        rec.mark()
        fig = s.call(backend="plotly", units=c["unit"])
        k = SCALE[c["unit"]]
        if c["kind"] == "envelopes":
            e = s.env
            exp = [(e.x, e.Mmax, "M max", 1), (e.x, e.Mmin, "M min", 1), (e.x, e.Vmax, "V max", 2), (e.x, e.Vmin, "V min", 2)]
        else:
            res = s.obj.beam_results
            x = np.concatenate([m.x for m in res.vRes])
            cat = lambda q: np.concatenate([getattr(m, q) for m in res.vRes])
            xd = np.concatenate([m.x[1:-1] for m in res.vRes])
            d = np.concatenate([m.D[1:-1] for m in res.vRes]) * k
            exp = {"M": (x, cat("M"), "Bending moment"), "V": (x, cat("V"), "Shear force"), "D": (xd, d, "Deflection")}
            exp = [(*exp[q], i + 1) for i, q in enumerate({"results": "MVD", "bmd": "M", "sfd": "V", "dsd": "D"}[c["kind"]])]
        require(len(fig.data) == len(exp), f"{len(fig.data)} curves instead of {len(exp)}")
        lay = fig.to_plotly_json()["layout"]
        for tr, (x, y, name, row) in zip(fig.data, exp):
            require(tr.name == name, f"curve {tr.name!r} instead of {name!r}")
            cmp.close(np.asarray(tr.x, float), x, 1e-9 * np.max(np.abs(x)), f"{name}: stations")
            cmp.close(np.asarray(tr.y, float), y, 1e-9 * max(1e-300, np.max(np.abs(y))), f"{name}: values")
            ax = tr.yaxis or "y"
            require(ax == ("y" if row == 1 else f"y{row}"), f"{name} is on axis {ax}")
            rev = lay["yaxis" + ax[1:]].get("autorange") == "reversed"
            require(rev == (name[0] in "BM"), f"{name}: axis {'reversed' if rev else 'not reversed'}")


# ------------------------------------------------------------- animations ----
@st.composite
def moving_cases(draw):
    c = draw(figs.scenes(["static"]))
    c["n"] = draw(st.integers(3, 7))
    c["unit"] = draw(st.sampled_from(["SI", "US-ft"]))
    c["part"] = draw(st.sampled_from([None, None, [0.2, 0.9]]))
    return c


def animation(c, rec):
    import matplotlib.pyplot as plt

    with figs.clean():
        s = figs.Scene(c)
        b, case = s.obj, c["beam"]
        T = float(sum(case["L"]))
        tot = T + b.veh.L
        kw = {} if c["part"] is None else {"pos_start": c["part"][0] * tot, "pos_end": c["part"][1] * tot}
        anim = b.animate(tot / c["n"], units=c["unit"], **kw)
        anim._draw_was_started = True
        pos, rs = list(b.pos), list(b.vResults)
        rec.mark()
        frames = list(anim.new_frame_seq())
        require(len(frames) == len(pos), f"{len(frames)} frames for {len(pos)} positions")
        fig = plt.figure(plt.get_fignums()[-1])
        x = np.asarray(rs[0].results.x, float)
        order = list(range(len(pos)))
        for i in order[:: max(1, len(order) // 3)] + order[-1:]:
            anim._draw_frame(frames[i])
            deck, m, v = fig.axes
            ax_ = moving.axles(c["veh"], pos[i])
            wheels = sorted(p.center[0] for p in deck.patches if p.get_gid() == "vehicle_wheel")
            require(len(wheels) == len(ax_) and np.allclose(wheels, sorted(q for q, _ in ax_), atol=1e-9 * T), f"frame {i}: wheels at {wheels}")
            require(abs(num(deck.get_title().split("=")[1]) - pos[i]) <= 0.0501, f"frame {i}: title {deck.get_title()!r}")
            Ms, Vs = (np.array([getattr(r.results, q) for r in rs[: i + 1]]) for q in "MV")
            moment(m, x, Ms[-1], f"frame {i}: moment")
            curve(v, x, Vs[-1], f"frame {i}: shear")
            for e in (Ms.max(0), Ms.min(0)):
                moment(m, x, e, f"frame {i}: running envelope of moment")
            for e in (Vs.max(0), Vs.min(0)):
                curve(v, x, e, f"frame {i}: running envelope of shear")
            for ax, all_ in ((m, [-r.results.M if not m.yaxis_inverted() else r.results.M for r in rs]), (v, [r.results.V for r in rs])):
                lo, hi = sorted(ax.get_ylim())
                require(lo <= np.min(all_) + 1e-9 and hi >= np.max(all_) - 1e-9, f"frame {i}: the view cuts the diagrams off")


def flags(c, rec):
    """The analyses asked to plot do plot what they return, and return the same."""
    import matplotlib.pyplot as plt

    with figs.clean():
        s = figs.Scene(c)
        b, case = s.obj, c["beam"]
        T = float(sum(case["L"]))
        tot = T + b.veh.L
        step, op = tot / c["n"], c["n"] % 4
        if op and c["part"] is None and b.veh.L > 50 * T:
            raise SkipCase("long vehicle")
        rec.mark()
        rec.cls(("static", "vehicle", "load model", "every position")[op])
        n0 = len(plt.get_fignums())
        call = {
            0: lambda **k: b.static_vehicle(s.pos, **k),
            1: lambda **k: b.run_vehicle(step, **k),
            2: lambda **k: b.run_load_model(step, 3.0, **k),
            3: lambda **k: b.run_vehicle(step, **k),
        }[op]
        plain = call()
        require(len(plt.get_fignums()) == n0, "a figure although none was asked for")
        got = call(**{("plotflag", "plot_env", "plot_env", "plot_all")[op]: True})
        figures = plt.get_fignums()
        require(len(figures) == n0 + 1, f"{len(figures) - n0} figures")
        names = ("Mmax", "Mmin", "Vmax", "Vmin")
        if op == 0:
            for q in "xMVDR":
                require(np.array_equal(getattr(plain.results, q), getattr(got.results, q)), f"plotting changes {q}")
        else:
            for q in ("x",) + names + ("Rmax", "Rmin"):
                require(np.array_equal(getattr(plain, q), getattr(got, q)), f"plotting changes {q}")
        axs = plt.figure(figures[-1]).axes
        if op == 0 or op == 3:
            r = got.results if op == 0 else b.vResults[-1].results
            want = [(r.x, r.M, "moment"), (r.x, r.V, "shear")]
            m, v = axs[-2:]
        else:
            want = [(got.x, getattr(got, q), q) for q in names]
            m, v = panel(axs, "Bending"), panel(axs, "Shear")
        for x, y, q in want:
            if q[0] in "mM":
                moment(m, x, y, q)
            else:
                curve(v, x, y, q)


CHECK = Check(
    "C30",
    "a figure was drawn and its curves, markers, arrows or labels compared with the results",
    [
        Sub("beam", lambda: cases(["results", "bmd", "sfd", "dsd", "reactions", "results", "reactions"]), matplotlib_, 300, 4000),
        Sub("bridge", lambda: cases(figs.BRIDGE), matplotlib_, 250, 3000),
        Sub("other", lambda: cases(["il", "modes", "modal_results", "vehicle", "response", "patterns", "section"]), matplotlib_, 400, 5000),
        Sub("nonlinear", lambda: cases(figs.NONLINEAR), matplotlib_, 200, 2500),
        Sub("interactive", lambda: cases(figs.PLOTLY), plotly_, 200, 3000),
        Sub("animation", moving_cases, animation, 40, 500),
        Sub("flags", moving_cases, flags, 100, 1200),
    ],
    [
        "figures are read from the matplotlib artists and plotly traces, not from pixels; colours are free",
        "reaction histories are drawn against the positions of the last traverse (the documented use); envelopes of other traverses are merged ones",
    ],
)
