"""C16: shear sections are recovered exactly on both sides in every position."""
import numpy as np
from hypothesis import strategies as st

from checks.c13 import bridge
from harness import cmp, gen
from harness import moving as mv
from harness.core import Check, Sub, require


def sections(c):
    """Requested on-deck sections in global coordinates (sorted, distinct)."""
    case = c["beam"]
    n = mv.nodes_of(case)
    T = n[-1]
    g = [p * T for p in c["points"]] + [n[k % len(n)] for k in c["nodes"]]
    pts = list(g)
    for i, k in c["grid"]:  # on a regular station / under a permanent point load
        i %= len(case["L"])
        pts.append(n[i] + case["L"][i] / 100 * k)
    for r in case["LM"]:
        if r[1] == 2 and c["scalar"]:
            pts.append(n[r[0] - 1] + r[3])
    if c["axle"]:  # sections under an axle of the first or a later position
        step = (T + float(np.sum(c["veh"]["s"]))) / c["n"]
        for k, j in c["axle"]:
            ax = mv.axles(c["veh"], step * (k % (c["n"] + 1)))
            pts.append(ax[j % len(ax)][0])
    allp = list(pts)
    if c["dv"] is not None:
        dv = c["dv"] * T
        for i, x in enumerate(n):
            if case["R"][2 * i] != 0:
                allp += [x - dv, x + dv]
    on = sorted(x for x in allp if 1e-7 * T < x < T * (1 - 1e-7))
    edge = any(-1e-7 * T <= x <= 1e-7 * T and x != 0 or abs(x - T) <= 1e-7 * T and x != T for x in allp)
    out = []
    for x in on:
        if not out or x - out[-1] > 1e-10 * T:
            out.append(x)
    close_ = any(b - a < 1e-5 * T for a, b in zip(out[:-1], out[1:]))
    return pts, out, edge or close_


def sided(case, ref, xg):
    """[(lo, hi)] of the shear left and right of a section."""
    n = mv.nodes_of(case)
    T = n[-1]
    out = []
    for side in (-1, 1):
        v = []
        for i, L in enumerate(case["L"]):
            s = xg - n[i]
            at_l, at_r = abs(s) < 1e-8 * T, abs(s - L) < 1e-8 * T
            if at_l and i > 0 or at_r and i < len(case["L"]) - 1:
                if (at_r and side == -1) or (at_l and side == 1):
                    s = 0.0 if at_l else L
                    near = any(abs(a - s) < 1e-7 * L for a, _ in ref.m[i].pts)
                    for q in (-1, 1):
                        v.append(float(ref.VM(i, np.array([s]), q)[0][0]))
                    if not near:
                        v = v[-1:] if side == 1 else v[:1]
                continue
            if not (0 < s < L):
                continue
            a = [a for a, _ in ref.m[i].pts if abs(a - s) < 1e-10 * T]
            amb = [a for a, _ in ref.m[i].pts if 1e-10 * T <= abs(a - s) < 1e-8 * T]
            if amb:
                for q in (s, amb[0]):
                    for z in (-1, 1):
                        v.append(float(ref.VM(i, np.array([q]), z)[0][0]))
            else:
                q = s + side * 5e-10 * T if a else s
                v.append(float(ref.VM(i, np.array([q]), side)[0][0]))
        out.append((min(v), max(v)))
    return out


def traverse(c, rec):
    from pycba.bridge import resolve_shear_points

    case, v = c["beam"], c["veh"]
    gen.solved_reference(case, rc_min=1e-6)
    pts, exp, edge = sections(c)
    if edge:
        rec.cls("edge")
        return
    T, Lv = float(np.sum(case["L"])), float(np.sum(v["s"]))
    step = (T + Lv) / c["n"]
    b = bridge(case, mv.vehicle(v))
    kw = {}
    if pts:
        kw["shear_points"] = pts[0] if len(pts) == 1 and c["scalar"] else (np.array(pts) if c["scalar"] else list(pts))
    if c["dv"] is not None:
        kw["dv"] = c["dv"] * T
    if not kw:
        return
    if c["grid"] and c["scalar"]:  # start with the leading axle on that station
        i, k = c["grid"][0]
        i %= len(case["L"])
        kw2 = {"pos_start": float(mv.nodes_of(case)[i] + case["L"][i] / 100 * k)}
    else:
        kw2 = {}
    sp, xg = resolve_shear_points(b.ba.beam, kw.get("shear_points"), kw.get("dv"))
    lane = c["lane"]
    if lane is not None:
        env = b.run_load_model(step, lane, **kw, **kw2)
    else:
        env = b.run_vehicle(step, **kw, **kw2)
    gen.classify(case, rec)
    cv = b.critical_values(env)
    if not exp:
        require("shear_points" not in cv or not cv["shear_points"], "sections off the deck reported")
        return
    rec.mark()
    rec.cls(f"sections{min(len(exp), 4)}", "lane" if lane is not None else "axles")
    keys = sorted(cv["shear_points"])
    tol = 1e-9 * T
    for name, got in (("reported", keys), ("resolved", list(xg))):
        require(all(any(abs(k - x) <= tol for x in exp) for k in got), f"{name} section not requested: {got} for {exp}")
        require(all(any(abs(k - x) <= tol for k in got) for x in exp), f"requested section missing: {exp}, {name} {got}")
    n = mv.nodes_of(case)
    for i, loc in sp.items():
        for s in loc:
            require(any(abs(n[i] + s - x) <= tol for x in exp), "resolved local coordinate is not a requested section")
    # every position against the reference
    solved = []
    for p in b.pos:
        ax = mv.axles(v, p)
        if mv.ambiguous(case, ax) and (case["R"][0] != -1 or case["R"][-2] != -1):
            rec.cls("axle-at-moving-end")
            return
        LM = case["LM"] + mv.rows(case, ax)
        if lane is not None:
            LM = LM + [[i + 1, 1, lane] for i in range(len(case["L"]))]
        solved.append(gen.solved_reference(case, LM, rc_min=1e-6))
    F = max(max(cmp.scales(r)[0] for r in solved), sum(v["w"]))
    rt = max(1e-6, 1e-12 / solved[0].rc)
    sup = [x for i, x in enumerate(n) if case["R"][2 * i] != 0]
    for k in keys:
        e = cv["shear_points"][k]
        lr = [sided(case, r, k) for r in solved]
        # the section is sampled a hair to either side: distributed loads shift it a little
        t = rt * F
        for j, side in enumerate(("left", "right")):
            hi_lo, hi_hi = max(0.0, max(q[j][0] for q in lr)), max(0.0, max(q[j][1] for q in lr))
            lo_lo, lo_hi = min(0.0, min(q[j][0] for q in lr)), min(0.0, min(q[j][1] for q in lr))
            g = e[f"Vmax_{side}"]
            require(hi_lo - t <= g <= hi_hi + t, f"largest shear {side} of {k:.8g} is {g:.10g}, expected {hi_lo:.10g} .. {hi_hi:.10g}")
            g = e[f"Vmin_{side}"]
            require(lo_lo - t <= g <= lo_hi + t, f"smallest shear {side} of {k:.8g} is {g:.10g}, expected {lo_lo:.10g} .. {lo_hi:.10g}")
        require(e["Vmax"] == max(e["Vmax_left"], e["Vmax_right"]) and e["Vmin"] == min(e["Vmin_left"], e["Vmin_right"]), "critical shear is not that of the worse side")
        if sup:
            d = sorted(abs(x - k) for x in sup)
            if len(d) < 2 or d[1] - d[0] > 1e-6 * T:
                s = min(sup, key=lambda x: abs(x - k))
                require(abs(e["support"] - s) <= tol, f"section {k:.8g} attributed to the support at {e['support']}")
                if abs(k - s) > 1e-7 * T:
                    require(e["side"] == ("left" if k < s else "right"), f"section {k:.8g} reported on the {e['side']} of its support")
        else:
            require("support" not in e or e["support"] is None, "support invented")
    # stations are common to every position and contain the plain grid
    for r in b.vResults:
        require(np.array_equal(r.results.x, env.x), "stations differ between positions")
    require(b.ba.shear_points is None, "sections leak into later analyses")
    plain = b.run_load_model(step, lane, **kw2) if lane is not None else b.run_vehicle(step, **kw2)
    require("shear_points" not in b.critical_values(plain), "sections leak into the next traverse")
    M = F * T
    # member by member: drop the added pairs and compare
    a0 = 0
    p0 = 0
    for me, mp in zip(env.vResults[0].vRes, plain.vResults[0].vRes):
        ne, npl = len(me.x), len(mp.x)
        xe, xp = me.x[1:-1], mp.x[1:-1]
        idx = np.array([int(np.argmin(np.abs(xe - x))) for x in xp])
        require(np.all(np.abs(xe[idx] - xp) <= 1e-12 * T), "requesting sections moves the regular stations")
        for q, s in (("Mmax", M), ("Mmin", M), ("Vmax", F), ("Vmin", F)):
            u = np.asarray(getattr(env, q))[a0 + 1 : a0 + ne - 1][idx]
            w = np.asarray(getattr(plain, q))[p0 + 1 : p0 + npl - 1]
            require(np.all(np.abs(u - w) <= 1e-9 * s), f"requesting sections changes {q} at the regular stations")
        a0 += ne
        p0 += npl


def traverse_st():
    small = dict(max_loads=2, min_loads=0, types=(1, 2, 3, 5))
    return st.fixed_dictionaries({
        "beam": st.one_of(gen.beams(max_spans=4, **small), gen.beams(max_spans=3, **small),
                          gen.beams(max_spans=2, nonprismatic=True, **small), gen.beams(max_spans=2, timo=True, **small)),
        "veh": mv.vehicles(1, 4),
        "n": st.integers(2, 12),
        "points": st.lists(gen.frac(True), max_size=3),
        "grid": st.lists(st.tuples(st.integers(0, 3), st.integers(1, 99)), max_size=1),
        "nodes": st.lists(st.integers(0, 4), max_size=1),
        "axle": st.lists(st.tuples(st.integers(0, 12), st.integers(0, 3)), max_size=1),
        "dv": st.one_of(st.none(), st.sampled_from([0.017, 0.05, 0.0913, 0.21, 0.0307])),
        "scalar": st.booleans(),
        "lane": st.sampled_from([None, None, 9.3]),
    })


def static(c, rec):
    """One position: both shears of the section stand in the results."""
    case, v = c["beam"], c["veh"]
    n = mv.nodes_of(case)
    T = n[-1]
    ax = mv.axles(v, c["pos"] * (T + float(np.sum(v["s"]))))
    if mv.ambiguous(case, ax):
        return
    on = [x for x, _ in ax if 1e-6 * T < x < T * (1 - 1e-6) and np.min(np.abs(n - x)) > 1e-6 * T]
    secs = [x for x in [p * T for p in c["points"]] + (on if c["under"] else []) if np.min(np.abs(n - x)) > 1e-6 * T and 0 < x < T]
    if not secs:
        return
    rec.mark()
    rec.cls("under axle" if c["under"] and on else "free", "dict" if c["asdict"] else "list")
    b = bridge(case, mv.vehicle(v))
    arg = secs
    if c["asdict"]:
        arg = {}
        for x in secs:
            i, s = mv.locate(case, x)
            arg.setdefault(i - 1, []).append(s)
        arg = {k: np.array(s) for k, s in arg.items()}
    res = b.static_vehicle(c["pos"] * (T + float(np.sum(v["s"]))), shear_points=arg)
    ref = gen.solved_reference(case, case["LM"] + mv.rows(case, ax), rc_min=1e-6)
    F = cmp.scales(ref)[0]
    rt = max(1e-6, 1e-12 / ref.rc)
    for x in secs:
        i, s = mv.locate(case, x)
        m = res.vRes[i - 1]
        xs = np.asarray(m.x[1:-1])
        V = np.asarray(m.V[1:-1])
        near = np.abs(xs - x) < 1e-6 * T
        l, r = near & (xs < x - 1e-11 * T), near & (xs > x + 1e-11 * T)
        require(l.any() and r.any(), f"no stations beside the section at {x:.8g}")
        (llo, lhi), (rlo, rhi) = sided(case, ref, x)
        gl, gr = V[l][-1], V[r][0]
        require(llo - rt * F <= gl <= lhi + rt * F, f"shear left of {x:.8g} is {gl:.10g}, expected {llo:.10g}")
        require(rlo - rt * F <= gr <= rhi + rt * F, f"shear right of {x:.8g} is {gr:.10g}, expected {rlo:.10g}")
    require(b.ba.shear_points is None, "sections leak into later analyses")
    cmp.forces(type("B", (), {"beam_results": res})(), ref, rtol=1e-6, which=("M",))


def static_st():
    return st.fixed_dictionaries({
        "beam": gen.beams(max_spans=3, max_loads=2, min_loads=0, types=(1, 2, 3, 5)),
        "veh": mv.vehicles(1, 4),
        "pos": gen.frac(True),
        "points": st.lists(gen.frac(False), min_size=1, max_size=2),
        "under": st.booleans(),
        "asdict": st.booleans(),
    })


def on_station(c, rec):
    """An axle exactly on a section that coincides with a regular station."""
    L = c["L"]
    case = {"L": L, "EI": [1e4] * len(L), "et": [1] * len(L), "R": [-1, 0] * (len(L) + 1), "GA": None, "kf": None, "D": None, "LM": []}
    n = mv.nodes_of(case)
    T = n[-1]
    b = bridge(case, mv.vehicle({"s": [], "w": [c["P"]]}))
    for i, k in c["at"]:
        i %= len(L)
        xg = round(float(n[i] + L[i] / 100 * k), 6)
        env = b.run_vehicle(1.0, pos_start=xg, pos_end=xg, shear_points=[xg])
        e = list(b.critical_values(env)["shear_points"].values())[0]
        jump = e["Vmax_left"] + e["Vmin_left"] - e["Vmax_right"] - e["Vmin_right"]
        require(abs(jump - c["P"]) <= 1e-6 * c["P"], f"shears beside an axle at {xg!r} differ by {jump:.10g}, the axle weighs {c['P']}")
        rec.mark()
    del T


def on_station_st():
    return st.fixed_dictionaries({
        "L": st.lists(st.integers(10, 100).map(lambda q: q / 10), min_size=1, max_size=4),
        "P": st.sampled_from([1.0, 80.0]),
        "at": st.lists(st.tuples(st.integers(0, 3), st.integers(1, 99)), min_size=8, max_size=8),
    })


def interrupted(c, rec):
    """A traverse that fails half way leaves no sections behind."""
    L, P = c["L"], c["P"]
    case = {"L": L, "EI": [1e4] * len(L), "et": [1] * len(L), "R": [-1, 0] * (len(L) + 1), "GA": None, "kf": None, "D": None, "LM": []}
    n = mv.nodes_of(case)
    T = float(n[-1])
    veh = {"s": [], "w": [P]}
    b, f = bridge(case, mv.vehicle(veh)), bridge(case, mv.vehicle(veh))
    x = c["at"] * T
    kw = {"dv": 0.05 * T} if c["dv"] else {"shear_points": [x]}
    step = T / c["n"]

    def run(obj, kw):
        if c["op"] == 0:
            return obj.run_vehicle(step, **kw)
        if c["op"] == 1:
            return obj.run_load_model(step, 3.0, **kw)
        return obj.static_vehicle(c["at"] * T, **kw)

    if c["before"]:
        run(b, {})
    good = b.ba.beam.restraints
    bad = ([0] * len(good), [0, 0] + [-1 if c["n"] % 2 else 0, 0] + [0] * (len(good) - 4), [0, -1] * (len(good) // 2))[c["how"]]
    if c["stop"]:  # the vehicle is refused in the middle of the crossing instead
        raised = False
        try:
            if c["op"] == 2:
                run(b, dict(kw, **{"shear_points": ["section"]}))
            elif c["op"] == 0:
                b.run_vehicle(0.0, **kw)
            else:
                b.run_load_model(step, 3.0, clearances=(None, "x"), **kw)
        except Exception:
            raised = True
    else:
        b.ba.beam.restraints = bad
        raised = False
        try:
            run(b, kw)
        except Exception:
            raised = True
        finally:
            b.ba.beam.restraints = good
        require(raised, "a crossing of a mechanism was answered")
    if not raised:
        rec.cls("not refused")
        return
    rec.mark()
    rec.cls(("run_vehicle", "run_load_model", "static_vehicle")[c["op"]], "mechanism" if not c["stop"] else "bad request", "dv" if c["dv"] else "points")
    require(b.ba.shear_points is None, "sections of a failed traverse stay requested")
    b.ba.set_loads([[1, 1, P]])
    f.ba.set_loads([[1, 1, P]])
    require(b.ba.analyze() == 0 and f.ba.analyze() == 0, "analysis failed")
    u, w = b.ba.beam_results.results, f.ba.beam_results.results
    for q in "xMVDR":
        a_, b_ = np.asarray(getattr(u, q)), np.asarray(getattr(w, q))
        require(a_.shape == b_.shape and np.array_equal(a_, b_), f"{q} of the analysis after a failed traverse is not that of a fresh bridge")
    e, g = run(b, {}), run(f, {})
    a_, b_ = (e.x, g.x) if c["op"] < 2 else (e.results.x, g.results.x)
    require(np.array_equal(a_, b_), "stations after a failed traverse are not those of a fresh bridge")
    if c["op"] < 2:
        require(not b.critical_values(e).get("shear_points"), "sections of a failed traverse are reported later")


def interrupted_st():
    return st.fixed_dictionaries({
        "L": st.lists(st.integers(10, 100).map(lambda q: q / 10), min_size=1, max_size=3),
        "P": st.sampled_from([1.0, 80.0]),
        "at": st.sampled_from([0.23, 0.41, 0.77]),
        "n": st.integers(3, 6),
        "op": st.integers(0, 2),
        "how": st.integers(0, 2),
        "dv": st.booleans(),
        "before": st.booleans(),
        "stop": st.sampled_from([False, False, True]),
    })


CHECK = Check(
    "C16",
    "non-trivial = at least one requested section on the deck, compared in every position",
    [
        Sub("traverse", traverse_st, traverse, 700, 9000),
        Sub("on_station", on_station_st, on_station, 1500, 12000),
        Sub("static", static_st, static, 500, 6000),
        Sub("interrupted", interrupted_st, interrupted, 300, 3000),
    ],
    ["sections within 1e-7 of the length from a bridge end, or nearly coincident sections, are not generated",
     "spans on an elastic foundation are out of scope (their diagrams are approximate by documentation)"],
)
