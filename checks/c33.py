"""C33: the same structure in other consistent units gives the same (converted) answer."""
import numpy as np
from hypothesis import strategies as st

from checks import c24, c26
from checks.c03 import scale_case, units, units_st
from harness import gen, moving as mv, plastic as pl
from harness.core import Check, SkipCase, Sub, require

LAM = st.sampled_from([1000.0, 0.001, 3.280839895, 39.37007874, 1.0])
PHI = st.sampled_from([1000.0, 0.001, 0.2248089431, 1.0e6, 1.0e-6, 1.0])


def factors(draw):
    lam, phi = draw(LAM), draw(PHI)
    return (lam, phi) if (lam, phi) != (1.0, 1.0) else (1000.0, 1000.0)


def near(got, exp, s, what, tol=1e-7):
    a, b = np.asarray(got, float), np.asarray(exp, float)
    require(a.shape == b.shape, f"{what}: {a.size} values instead of {b.size}")
    if a.size:
        e = np.abs(a - b)
        i = int(np.argmax(e))
        require(np.all(np.isfinite(a)) and e.flat[i] <= tol * s, f"{what}: {a.flat[i]:.10g}, expected {b.flat[i]:.10g}")


# ---------------------------------------------------------- moving loads -----
@st.composite
def moving_cases(draw):
    k = draw(st.integers(0, 5))
    case = draw(gen.beams(max_spans=3, types=(1, 2, 3, 5), nonprismatic=k == 0, timo=k == 1, settlements=False))
    if draw(st.booleans()):
        case["LM"] = []
    lam, phi = factors(draw)
    T = float(sum(case["L"]))
    return {
        "beam": case, "veh": draw(mv.vehicles(1, 4)), "lam": lam, "phi": phi,
        "step": gen.r4(T / draw(st.sampled_from([7.3, 11.0, 17.9]))),
        "lane": draw(st.sampled_from([None, None, 5.0, 0.7])),
        "clear": draw(st.sampled_from([None, (1.5, 3.0)])),
        "lines": draw(st.sampled_from([None, 0.31, 0.5, 0.84])),
    }


def crossing(case, veh, c, lam, phi):
    import pycba as cba

    ba = gen.beam_analysis(case)
    v = cba.Vehicle(np.array(veh["s"], float) * lam, np.array(veh["w"], float) * phi)
    if veh.get("rev"):
        v.reverse()
    br = cba.BridgeAnalysis(ba, v)
    if c["lane"] is None:
        e = br.run_vehicle(c["step"] * lam)
    else:
        kw = {"clearances": tuple(q * lam for q in c["clear"])} if c["clear"] else {}
        e = br.run_load_model(c["step"] * lam, c["lane"] * phi / lam, **kw)
    return br, e


def moving(c, rec):
    case, lam, phi = c["beam"], c["lam"], c["phi"]
    other = scale_case(case, lam, phi)
    if min(gen.solved_reference(case, LM=[], rc_min=1e-5).rc, gen.solved_reference(other, LM=[], rc_min=1e-5).rc) < 1e-5:
        raise SkipCase
    T = float(sum(case["L"]))
    # an axle within round-off of an end of the deck may count as on or off it
    ends = np.array([a for a, _ in mv.axles(c["veh"], 0.0)])
    last = T - float(ends.min()) + c["step"]
    pos = np.arange(0, int(last / c["step"]) + 3) * c["step"]
    at = pos[:, None] + ends[None, :]
    rough = np.any((np.abs(at - T) < 1e-8 * T) | ((np.abs(at) < 1e-8 * T) & (np.arange(len(pos)) > 0)[:, None]))
    b1, e1 = crossing(case, c["veh"], c, 1.0, 1.0)
    b2, e2 = crossing(other, c["veh"], c, lam, phi)
    rec.cls("lane" if c["lane"] else "vehicle", f"length x{lam:.4g}", f"force x{phi:.3g}")
    p1, p2 = np.array(b1.pos), np.array(b2.pos)
    if rough or len(p1) != len(p2):
        if len(p1) != len(p2):  # a last position within round-off of the end of the crossing
            require(abs(len(p1) - len(p2)) == 1, f"{len(p2)} positions instead of {len(p1)}")
        raise SkipCase("position within round-off of an end")
    rec.mark()
    near(p2, p1 * lam, T * lam, "positions")
    near(e2.x, e1.x * lam, T * lam, "stations")
    W = sum(c["veh"]["w"]) + sum(abs(r[2]) * (max(case["L"]) if r[1] != 2 else 1.0) for r in case["LM"]) + (c["lane"] or 0.0) * T
    near(e2.Mmax, e1.Mmax * phi * lam, W * T * phi * lam, "moment envelope", 1e-8)
    near(e2.Mmin, e1.Mmin * phi * lam, W * T * phi * lam, "moment envelope", 1e-8)
    keep = np.ones(len(e1.x), bool)  # beside a concentrated load either side may be reported
    for q in at.flat:
        keep &= np.abs(e1.x - q) > 1e-8 * T
    X = np.concatenate([[0.0], np.cumsum(case["L"])])
    for r in case["LM"]:
        if r[1] in (2, 4):
            keep &= np.abs(e1.x - X[r[0] - 1] - r[3]) > 1e-8 * T
    near(e2.Vmax[keep], e1.Vmax[keep] * phi, W * phi, "shear envelope", 1e-7)
    near(e2.Vmin[keep], e1.Vmin[keep] * phi, W * phi, "shear envelope", 1e-7)
    near(e2.Rmaxval, e1.Rmaxval * [phi * (lam if i % 2 else 1.0) for i, r in enumerate(case["R"]) if r < 0], W * phi * max(1.0, T * lam), "reactions", 1e-7)
    # the critical positions: those whose extreme is the envelope's
    c1, c2 = b1.critical_values(e1), b2.critical_values(e2)
    for q in ("Mmax", "Mmin"):
        vals = np.array([(r.results.M.max() if q == "Mmax" else -r.results.M.min()) for r in b1.vResults])
        top = vals.max()
        if top < 1e-3 * W * min(case["L"]) / 10:
            continue
        gap = (top - vals) / top
        if np.any((gap > 1e-9) & (gap < 1e-4)):
            continue  # the documented relative tolerance of the search
        want = p1[gap <= 1e-9]
        near(c1[q]["pos"], want, T, f"critical positions of {q}")
        near(c2[q]["pos"], want * lam, T * lam, f"critical positions of {q} with lengths x{lam:.4g}, forces x{phi:.4g}")
        near(c2[q]["val"], c1[q]["val"] * phi * lam, top * phi * lam, q)


# -------------------------------------------------- influence lines, modes ---
@st.composite
def line_cases(draw):
    case = draw(gen.beams(max_spans=3, settlements=False))
    case["LM"] = []
    lam, phi = factors(draw)
    return {"beam": case, "lam": lam, "phi": phi, "step": draw(st.sampled_from([9, 14])), "poi": draw(st.floats(0.02, 0.98).map(gen.r4)),
            "mass": draw(st.sampled_from([0.3, 2.5, 40.0])), "tau": draw(st.sampled_from([1.0, 60.0, 1e-3]))}


def lines(c, rec):
    import pycba as cba

    case, lam, phi = c["beam"], c["lam"], c["phi"]
    other = scale_case(case, lam, phi)
    gen.solved_reference(case, LM=[], rc_min=1e-5), gen.solved_reference(other, LM=[], rc_min=1e-5)
    rec.cls(f"length x{lam:.4g}", f"force x{phi:.3g}")
    rec.mark()
    T = float(sum(case["L"]))
    il = [cba.InfluenceLines(list(q["L"]), list(q["EI"]), list(q["R"]), list(q["et"])) for q in (case, other)]
    for o, f in zip(il, (1.0, lam)):
        o.create_ils(step=T * f / c["step"])
    # away from the stations' midpoints, where the nearest one is decided by round-off
    x = il[0].vResults[0].results.x
    poi = float(x[int(np.argmin(np.abs(x - c["poi"] * T)))])
    xs = np.concatenate([[0.0], np.cumsum(case["L"])])
    kinds = [("M", lam)]
    if np.min(np.abs(np.array(il[0].pos) - poi)) > 1e-7 * T and np.min(np.abs(xs - poi)) > 1e-7 * T:
        kinds.append(("V", 1.0))
    v = xs[[i for i in range(len(xs)) if case["R"][2 * i] == -1]]
    if len(v) and (len(v) == 1 or abs(np.diff(np.sort(np.abs(v - poi))[:2])[0]) > 1e-6 * T):
        kinds.append(("R", 1.0))
    if np.min(np.abs(xs[1:-1] - poi), initial=1e9) > 1e-7 * T:
        for k, f in kinds:
            (p1, y1), (p2, y2) = (o.get_il(poi * g, k) for o, g in zip(il, (1.0, lam)))
            near(p2, p1 * lam, T * lam, "influence line positions")
            near(y2, y1 * f, f * (T if k == "M" else 1.0), f"influence line of {k}", 1e-7)
    if all(e == 1 for e in case["et"]):
        tau = c["tau"]  # time in another unit, too
        f = [gen.beam_analysis(q, LM=[]).modal(m, n_modes=4, nseg=6).f for q, m in ((case, c["mass"]), (other, c["mass"] * phi / lam**2 * tau**2))]
        near(f[1] * tau, f[0], f[0].max(), "natural frequencies", 1e-6)


# --------------------------------------------------------------- tendons -----
@st.composite
def tendon_cases(draw):
    c = draw(c26.cases())
    lam, phi = factors(draw)
    c["lam"], c["phi"] = lam, phi
    c["flat"] = draw(st.sampled_from([1.0, 1.0, 1e-2, 1e-3]))
    return c


def tendon(c, rec):
    lam, phi = c["lam"], c["phi"]

    def conv(p, f):
        return p and dict(p, e=[v * f * c["flat"] for v in p["e"]], x=[v * f for v in p["x"]], cl=p["cl"] * f, cr=p["cr"] * f)

    one = dict(c, profiles=[conv(p, 1.0) for p in c["profiles"]])
    two = dict(scale_case(c, lam, phi), profiles=[conv(p, lam) for p in c["profiles"]], F=[f * phi for f in c["F"]])
    for q in (one, two):
        if gen.reference(q, LM=[]).conditioning() < 1e-5:
            raise SkipCase
    r1, r2 = (c26.loads(q)[1] if isinstance(c26.loads(q), tuple) else c26.loads(q) for q in (one, two))
    b1, b2 = gen.analysed(one, LM=r1), gen.analysed(two, LM=r2)
    rec.cls(f"flat x{c['flat']}", f"length x{lam:.4g}", f"force x{phi:.3g}")
    rec.mark()
    s = max(abs(f) for f in c["F"]) * c["flat"] * 0.05 * max(c["L"]) * phi * lam
    near(b2.beam_results.results.M, b1.beam_results.results.M * phi * lam, s, "moments of the tendon", 1e-6)
    k = [phi * (lam if i % 2 else 1.0) for i, r in enumerate(c["R"]) if r < 0]
    near(b2.beam_results.R, b1.beam_results.R * k, s / min(c["L"]) / lam * max(1.0, lam * max(c["L"])), "reactions of the tendon", 1e-6)


# -------------------------------------------------------------- collapse -----
@st.composite
def plastic_cases(draw):
    case = draw(c24.models(2, springs=False, steps=(6, 10)))
    case["between"] = draw(st.integers(0, 3)) == 0
    case["LM"] = c24.loads(draw, case, not case["between"], (1, 2))
    case["target"] = draw(st.sampled_from([3.0, 5.0]))
    case["lam"], case["phi"] = factors(draw)
    case["use"] = draw(st.sampled_from([0.5, 1.0]))
    case["P"] = draw(st.sampled_from([None, None, 1.2, 2.5]))
    return case


def up(v, f):
    return [q * f for q in v] if isinstance(v, list) else v if v is None else v * f


def collapse(case, rec):
    lam, phi = case["lam"], case["phi"]
    case = c24.scaled(case)
    two = dict(case, L=up(case["L"], lam), EI=up(case["EI"], phi * lam**2), Mp=up(case["Mp"], phi * lam), My=up(case["My"], phi * lam), mesh=case["mesh"] * lam,
               LM=[[i, t, w * phi / (lam if t == 1 else 1.0)] + [a * lam for a in r] for i, t, w, *r in case["LM"]])
    x = pl.mesh(case["L"], case["mesh"])[0]
    require(len(x) == len(pl.mesh(two["L"], two["mesh"])[0]), "harness: mesh sizes differ")
    rec.cls(f"length x{lam:.4g}", f"force x{phi:.3g}")
    rec.mark()
    Mp = float(np.max(pl.per_span(case["Mp"], len(case["L"]))))
    f = pl.nodal(case)
    M = pl.elastic(case, f)[1]
    My = c24.setting(case)[2]
    ly = 1.0 / np.max(np.abs(M) / My)
    a, b = c24.nba(case), c24.nba(two)
    lm = lambda q: [list(r) for r in q["LM"]]
    r1, r2 = a.analyze(lm(case), lambda_max=0.8 * ly), b.analyze(lm(two), lambda_max=0.8 * ly)
    near(np.array(r2.final_moments), np.array(r1.final_moments) * phi * lam, Mp * phi * lam, "elastic moments", 1e-6)
    near(np.array(r2.final_displacements)[0::2], np.array(r1.final_displacements)[0::2] * lam, np.abs(r1.final_displacements[0::2]).max() * lam, "elastic displacements", 1e-6)
    h = case["mesh"]
    if any(r[1] == 2 and (min(r[3], case["L"][r[0] - 1] - r[3]) < 2.9 * h or case["between"]) for r in case["LM"]):
        return  # outside the domain of the collapse check (hinges within two elements count as one)
    r1, r2 = (q.analyze(lm(k), lambda_max=2.0 * case["target"]) for q, k in ((a, case), (b, two)))
    # the decisions of the incremental solution may fall a small step apart
    h1 = sorted({e.node_index for e in r1.hinge_events if e.event_type == "plastic_hinge"})
    if any(j - i == 1 for i, j in zip(h1, h1[1:])):
        rec.cls("flat peak (known finding of C24)")
        return
    require(r1.collapsed == r2.collapsed, f"collapse {r1.collapsed} at {r1.collapse_lambda:.6g}, with lengths x{lam:.4g} and forces x{phi:.4g} {r2.collapsed} at {r2.collapse_lambda:.6g}")
    near(r2.collapse_lambda, r1.collapse_lambda, r1.collapse_lambda, f"collapse factor with lengths x{lam:.4g} and forces x{phi:.4g}", 0.02)
    if case["P"] and len(case["L"]) == 1:
        # a crossing up to first yield and beyond: the same outcome at the same place
        k = sum(r < 0 for r in case["R"])
        if k > 2 or not (case["R"][0] and case["R"][2]):
            return
        P = case["P"] * 4 * Mp / case["L"][0]
        m1, m2 = a.analyze_moving(P=P, step=case["mesh"]), b.analyze_moving(P=P * phi, step=case["mesh"] * lam)
        rec.cls("crossing")
        require(m1.collapsed == m2.collapsed and abs(m2.collapse_lambda - m1.collapse_lambda * lam) <= 1.01 * case["mesh"] * lam,
                f"crossing: {m1.collapsed, m1.collapse_lambda}, with lengths x{lam:.4g} and forces x{phi:.4g} {m2.collapsed, m2.collapse_lambda}")


CHECK = Check(
    "C33",
    "non-trivial = a unit change other than the identity",
    [
        Sub("consistent_units", units_st, units, 2000, 30000),
        Sub("moving", moving_cases, moving, 300, 5000),
        Sub("lines", line_cases, lines, 300, 5000),
        Sub("tendon", tendon_cases, tendon, 600, 8000),
        Sub("collapse", plastic_cases, collapse, 240, 4000),
    ],
    ["floating-point round-off bounded relative to the largest force/displacement of the case",
     "where a decision lies within round-off (an axle at the end of the deck, tied critical positions, neighbouring plastic sections) either outcome is accepted"],
)
