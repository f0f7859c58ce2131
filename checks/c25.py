"""C25: moving-load plastic analysis: elastic exactness, statics, yield and collapse positions."""
import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen, plastic as pl
from harness.core import Check, SkipCase, Sub, require

from checks import c24


@st.composite
def crossings(draw, max_spans=3, determinate=False):
    if determinate:
        h = draw(st.sampled_from([0.25, 0.5, 1.0]))
        form = draw(st.sampled_from(["simple", "cantilever", "overhang", "prop-left", "two-overhangs"]))
        k = [h * draw(st.integers(6, 16)) for _ in range(3)]
        L, R = {
            "simple": (k[:1], [-1, 0, -1, 0]),
            "cantilever": (k[:1], [-1, -1, 0, 0]),
            "prop-left": (k[:1], [0, 0, -1, -1]),
            "overhang": ([k[0], min(k[1], k[0])], [-1, 0, -1, 0, 0, 0]),
            "two-overhangs": ([min(k[0], k[1]), k[1], min(k[2], k[1])], [0, 0, -1, 0, -1, 0, 0, 0]),
        }[form]
        case = {"L": L, "R": R, "EI": 67035.0, "Mp": 400.0, "My": draw(st.sampled_from([None, 300.0])), "mesh": h, "form": form}
    else:
        case = draw(c24.models(max_spans, springs=False, steps=(6, 12), uneven=False))
    h = case["mesh"]
    na = draw(st.integers(1, 3))
    case["w"] = [draw(st.sampled_from([60.0, 100.0, 145.0])) for _ in range(na)]
    over = int(round(sum(case["L"]) / h))  # an axle may come on after the others have left
    case["s"] = [h * (draw(st.integers(1, 8)) if draw(st.integers(0, 7)) else over + draw(st.integers(0, 2))) for _ in range(na - 1)]
    case["step"] = h * draw(st.sampled_from([1, 1, 2, 3]))
    case["n_sub"] = draw(st.sampled_from([5, 5, 1, 3, 10]))
    case["record"] = draw(st.sampled_from([1, 1, 3]))
    case["P"] = na == 1 and draw(st.booleans())
    return case


def path(case):
    """Positions, nodal loads and elastic moments of the crossing."""
    x, span = pl.mesh(case["L"], case["mesh"])
    off = np.concatenate([[0.0], np.cumsum(case["s"])])
    tot = float(sum(case["L"]))
    pos = np.arange(0, tot + off[-1] + case["step"] / 2, case["step"])
    F, M, U = [], [], []
    for p in pos:
        f = np.zeros(2 * len(x))
        for w, o in zip(case["w"], off):
            if -1e-9 <= p - o <= tot + 1e-9:
                pl.point(x, f, w, p - o)
        F.append(f)
        M.append(pl.elastic(case, f)[1])
    return pos, np.array(F), np.array(M)


def run(case, **kw):
    import pycba as cba

    a = c24.nba(case)
    args = {"step": case["step"]} if case["step"] != 0.5 else {}
    if case["n_sub"] != 5:
        args["n_sub"] = case["n_sub"]
    args["record_every"] = case["record"]
    args.update(kw)
    if case["P"]:
        return a.analyze_moving(P=case["w"][0], **args)
    return a.analyze_moving(vehicle=cba.Vehicle(list(case["s"]), list(case["w"])), **args)


def scale(case, k):
    return {**case, "w": [w * k for w in case["w"]]}


def events(case, r, pos):
    x, Mp, My = c24.setting(case)
    require(np.allclose(r.node_coords, x, atol=1e-9 * x[-1]), "mesh nodes are not the documented refinement")
    last, seen = -1.0, set()
    for e in r.hinge_events:
        require(np.min(np.abs(pos - e.load_factor)) < 1e-9 * pos[-1], f"event at {e.load_factor}, not a position of the crossing")
        require(e.load_factor >= last - 1e-12, "events are not in order")
        last = e.load_factor
        require(abs(e.location - x[e.node_index]) < 1e-9 * x[-1], "event location is not its node")
        require((e.node_index, e.event_type) not in seen, f"{e.event_type} at node {e.node_index} recorded twice")
        seen.add((e.node_index, e.event_type))
        if e.event_type == "plastic_hinge":
            require((e.node_index, "initial_yield") in seen, "hinge without yield")
    require(last <= r.collapse_lambda + 1e-9, "event after the end of the run")


def snapshots(case, r, pos, F, M, first_yield, upto=None):
    require(len(r.lambda_history) == len(r.moment_history), "histories of different length")
    lh = np.asarray(r.lambda_history, float)
    done = pos[pos <= r.collapse_lambda + 1e-9]
    want = done[:: case["record"]]
    if r.collapsed:
        want = want[want < r.collapse_lambda - 1e-9]
    require(len(lh) == len(want) and np.allclose(lh, want), f"recorded positions {lh[:4]}.. ({len(lh)}), expected every {case['record']} of the crossing ({len(want)})")
    A, dofs, ends = pl.statics(case)
    top = np.abs(M).max()
    for k, p in enumerate(lh):
        j = int(np.argmin(np.abs(pos - p)))
        m = np.asarray(r.moment_history[k], float)
        if p < first_yield - 1e-9:
            e = np.abs(m - M[j])
            require(e.max() <= 1e-6 * top, f"elastic moments with the vehicle at {p:.5g} off by {e.max():.4g} at node {int(np.argmax(e))}")
        if len(dofs):
            res = np.abs(A @ m + F[j][dofs])
            require(res.max() <= 1e-5 * (top + np.abs(m).max()) / case["mesh"], f"moments with the vehicle at {p:.5g} do not carry the axles (out by {res.max():.4g} at x={pl.mesh(case['L'], case['mesh'])[0][dofs[int(np.argmax(res))]//2]:.4g})")
        for q in ends:
            require(abs(m[q]) <= 1e-6 * (top + np.abs(m).max()), f"moment at a free end with the vehicle at {p:.5g}")


@st.composite
def elastic_cases(draw):
    case = draw(crossings())
    case["use"] = draw(st.sampled_from([0.2, 0.8, 0.97]))
    return case


def elastic(case, rec):
    x, Mp, My = c24.setting(case)
    pos, F, M = path(case)
    peak = np.max(np.abs(M) / My)
    if peak <= 0:
        raise SkipCase
    case = scale(case, case["use"] / peak)
    pos, F, M = path(case)
    r = run(case)
    rec.cls(f"spans={len(case['L'])}", f"axles={len(case['w'])}", "P" if case["P"] else "vehicle")
    rec.mark()
    require(not r.collapsed and not r.hinge_events, f"yield or collapse below the yield moment: {r.hinge_events[:2]}")
    require(abs(r.collapse_lambda - pos[-1]) < 1e-9 * pos[-1], f"crossing ended at {r.collapse_lambda}, last position {pos[-1]}")
    events(case, r, pos)
    snapshots(case, r, pos, F, M, np.inf)
    e = np.abs(np.asarray(r.final_moments) - M[-1])
    require(e.max() <= 1e-6 * np.abs(M).max(), f"final moments off by {e.max():.4g} after an elastic crossing")
    require(np.all(np.asarray(r.final_R) == 1.0), "stiffness reduced without yield")


@st.composite
def between_cases(draw):
    """Axles anywhere between the mesh nodes, elements of different length."""
    case = draw(c24.models(3, springs=draw(st.booleans()), steps=(6, 12)))
    h = case["mesh"]
    na = draw(st.integers(1, 3))
    case["w"] = [draw(st.sampled_from([60.0, 100.0, 145.0])) for _ in range(na)]
    case["s"] = [gen.r4(h * draw(st.floats(0.4, 9.0))) for _ in range(na - 1)]
    case["step"] = gen.r4(h * draw(st.floats(0.4, 3.0)))
    case["n_sub"] = draw(st.sampled_from([5, 1, 3]))
    case["record"] = draw(st.sampled_from([1, 2]))
    case["P"] = na == 1 and draw(st.booleans())
    case["use"] = draw(st.sampled_from([0.2, 0.9]))
    return case


def between(case, rec):
    """Elastic crossing; a node's moment lacks only the part of an axle within its elements."""
    if not any(case["R"]):
        raise SkipCase
    x, Mp, My = c24.setting(case)
    pos, F, M = path(case)
    he = float(np.max(np.diff(x)))
    local = 0.16 * he * sum(case["w"])
    k = case["use"] / (np.max((np.abs(M) + local) / My))
    case = scale(case, k)
    pos, F, M = path(case)
    local *= k
    # (an axle within round-off of the end of the beam counts as on or off it)
    ends = np.abs(pos[:, None] - np.concatenate([[0.0], np.cumsum(case["s"])])[None, :] - x[-1]) < 1e-8 * x[-1]
    if ends.any():
        raise SkipCase
    r = run(case)
    rec.cls(f"spans={len(case['L'])}", f"axles={len(case['w'])}", "spring" if any(v > 0 for v in case["R"]) else "rigid")
    rec.mark()
    require(not r.collapsed and not r.hinge_events, f"yield or collapse below the yield moment: {r.hinge_events[:2]}")
    require(abs(r.collapse_lambda - pos[-1]) < 1e-9 * pos[-1], f"crossing ended at {r.collapse_lambda}, last position {pos[-1]}")
    lh = np.asarray(r.lambda_history, float)
    require(len(lh) == len(pos[:: case["record"]]) and np.allclose(lh, pos[:: case["record"]]), "recorded positions")
    for i, p in enumerate(lh):
        j = int(np.argmin(np.abs(pos - p)))
        e = np.abs(np.asarray(r.moment_history[i], float) - M[j])
        # exact at every node whose elements carry no axle
        ax = [p - o for o in np.concatenate([[0.0], np.cumsum(case["s"])])]
        near = np.zeros(len(x), bool)
        for a in ax:
            q = int(np.searchsorted(x, a))
            near[max(q - 1, 0) : q + 1] = True
        tol = np.where(near, local, 0.0) + 1e-6 * np.abs(M).max()
        q = int(np.argmax(e - tol))
        require(e[q] <= tol[q], f"elastic moments with the vehicle at {p:.5g} off by {e[q]:.4g} at node {q}")


@st.composite
def plastic_cases(draw):
    case = draw(crossings())
    case["over"] = draw(st.sampled_from([1.02, 1.1, 1.2, 1.3]))
    return case


def plastic(case, rec):
    """Beyond yield: first yield position, statics of every recorded state, kinematics of collapse."""
    x, Mp, My = c24.setting(case)
    pos, F, M = path(case)
    peak = np.max(np.abs(M) / My)
    if peak <= 0:
        raise SkipCase
    case = scale(case, case["over"] / peak)
    pos, F, M = path(case)
    r = run(case)
    g = np.max(np.abs(M) / My, axis=1)
    iy = int(np.argmax(g >= 1))
    sure = int(np.argmax(g >= 1 + 1e-9))
    fy = pos[int(np.argmax(g >= 1 - 1e-9))]
    events(case, r, pos)
    rec.mark()
    rec.cls(f"spans={len(case['L'])}", "collapsed" if r.collapsed else "survived", f"over={case['over']}")
    y = [e for e in r.hinge_events if e.event_type == "initial_yield"]
    require(y, f"no yield recorded although the elastic moment reaches {g.max():.4g} of the yield moment")
    require(fy - 1e-9 <= y[0].load_factor <= pos[sure] + 1e-9, f"first yield with the vehicle at {y[0].load_factor}, elastic theory {pos[iy]}")
    h = [e for e in r.hinge_events if e.event_type == "plastic_hinge"]
    snapshots(case, r, pos, F, M, fy)
    if case.get("strict"):  # the known finding: loaded far beyond the static plastic limit
        lim = min(v for v in (pl.limit(case, f) for f in F) if v is not None)
        require(r.collapsed or lim > 0.67, f"no collapse although the load is {1/lim:.4g} times the static plastic limit")
    if r.collapsed:
        require(np.min(np.abs(pos - r.collapse_lambda)) < 1e-9 * pos[-1], "collapse position is not a position of the crossing")
        require(pl.is_mechanism(case, [e.location for e in h]), f"collapse declared although hinges at {sorted(round(float(e.location),4) for e in h)} are no mechanism")
        require(h and abs(h[-1].load_factor - r.collapse_lambda) < 1e-9 * pos[-1], "collapse without a new hinge")
    else:
        require(abs(r.collapse_lambda - pos[-1]) < 1e-9 * pos[-1], f"crossing ended at {r.collapse_lambda} without collapse")
        if not h:
            require(np.max(np.abs(M) / Mp) < 1.75, "no hinge")
    # never beyond the reach of redistribution: a state below first hinge keeps every |M| < Mp
    if not h:
        for m in r.moment_history:
            require(np.all(np.abs(m) < Mp * (1 + 1e-9)), "moment beyond the plastic moment without a hinge")


@st.composite
def determinate_cases(draw):
    case = draw(crossings(determinate=True))
    case["over"] = draw(st.sampled_from([0.9, 0.985, 1.015, 1.2, 2.0]))
    return case


def determinate(case, rec):
    """One hinge is a mechanism: collapse exactly where the exact moment reaches Mp."""
    x, Mp, My = c24.setting(case)
    pos, F, M = path(case)
    # a hinge under the free end itself or beyond moves nothing
    peak = np.max(np.abs(M) / Mp)
    if peak <= 0:
        raise SkipCase
    case = scale(case, case["over"] / peak)
    pos, F, M = path(case)
    g = np.max(np.abs(M) / Mp, axis=1)
    r = run(case)
    events(case, r, pos)
    rec.cls(case["form"], f"over={case['over']}")
    rec.mark()
    if case["over"] < 1:
        require(not r.collapsed, f"collapse at {r.collapse_lambda} although the moment never reaches Mp")
        require(not any(e.event_type == "plastic_hinge" for e in r.hinge_events), "hinge below the plastic moment")
        snapshots(case, r, pos, F, M, np.inf)
        return
    lo, hi = pos[int(np.argmax(g >= 1 - 1e-5))], pos[int(np.argmax(g >= 1 + 1e-5))]
    require(r.collapsed, f"no collapse although the moment of a determinate beam reaches {g.max():.4g} Mp at {pos[int(np.argmax(g))]}")
    require(lo - 1e-9 <= r.collapse_lambda <= hi + 1e-9, f"collapse with the vehicle at {r.collapse_lambda}, exact moment reaches Mp at {hi}")
    h = [e for e in r.hinge_events if e.event_type == "plastic_hinge"]
    j = int(np.argmin(np.abs(pos - r.collapse_lambda)))
    # (a mechanism has no meaningful moments any more: only the first hinge is judged)
    e = h[0]
    require(np.abs(M[j][e.node_index]) > (1 - 1e-4) * Mp[e.node_index], f"first hinge at x={e.location} where the exact moment is {M[j][e.node_index]:.5g}")


def reject(case, rec):
    rec.mark()
    try:
        c24.nba(case).analyze_moving(step=case["step"])
    except ValueError:
        return
    require(False, "a crossing without a load was analysed")


@st.composite
def same_cases(draw):
    case = draw(crossings())
    case["over"] = draw(st.sampled_from([0.9, 1.1, 1.4]))
    case["op"] = draw(st.sampled_from(["single", "repeat", "units", "capacity", "zero-axle"]))
    if case["op"] == "single":
        case["w"], case["s"], case["P"] = case["w"][:1], [], False
    return case


def same(case, rec):
    """The same crossing described otherwise."""
    x, Mp, My = c24.setting(case)
    pos, F, M = path(case)
    peak = np.max(np.abs(M) / My)
    if peak <= 0:
        raise SkipCase
    # round the weights so that scaling by 2 is exact
    k = float(np.float32(case["over"] / peak))
    case = scale(case, k)
    op = case["op"]
    rec.cls(op)
    rec.mark()
    a = run(case)
    f = 1.0
    b = copy.deepcopy(case)
    if op == "single":
        b["P"] = True
    elif op == "repeat":
        n = c24.nba(case)
        import pycba as cba

        v = cba.Vehicle(list(case["s"]), list(case["w"]))
        kw = dict(vehicle=v, step=case["step"], n_sub=case["n_sub"], record_every=case["record"])
        a, r = n.analyze_moving(**kw), n.analyze_moving(**kw)
        n.analyze([[1, 1, 1.0]], lambda_max=1.0)
    elif op in ("units", "capacity"):
        f = 1024.0
        b["w"] = [w * f for w in b["w"]]
        b["Mp"] = [v * f for v in b["Mp"]] if isinstance(b["Mp"], list) else b["Mp"] * f
        if b.get("My") is not None:
            b["My"] = [v * f for v in b["My"]] if isinstance(b["My"], list) else b["My"] * f
        if op == "units":
            b["EI"] = [v * f for v in b["EI"]] if isinstance(b["EI"], list) else b["EI"] * f
    elif op == "zero-axle":
        b["w"] = b["w"] + [0.0]
        b["s"] = b["s"] + [case["mesh"]]
        b["P"] = False
    if op != "repeat":
        r = run(b)
    n = min(len(a.moment_history), len(r.moment_history))
    hist = lambda q: [(round(float(e.load_factor), 9), int(e.node_index), e.event_type) for e in q.hinge_events]
    if op in ("single", "repeat"):
        require(a.collapsed == r.collapsed and abs(a.collapse_lambda - r.collapse_lambda) < 1e-9 * pos[-1], f"{op}: outcome differs: {a.collapsed, a.collapse_lambda} / {r.collapsed, r.collapse_lambda}")
        require(hist(a) == hist(r), f"{op}: events differ")
    if op == "capacity":
        n = min(n, 10**6)
    s = np.abs(M).max() * k + 1e-12
    # elastic part only: beyond yield a tie may be decided either way by round-off
    g = np.max(np.abs(M) * k / My, axis=1)
    for i in range(n):
        p = a.lambda_history[i]
        require(abs(p - r.lambda_history[i]) < 1e-9 * pos[-1], f"{op}: recorded positions differ")
        if p < pos[int(np.argmax(g >= 1 - 1e-9))] or not np.any(g >= 1 - 1e-9) or op in ("single", "repeat"):
            require(np.allclose(np.asarray(r.moment_history[i]) / f, a.moment_history[i], atol=1e-7 * s), f"{op}: moments with the vehicle at {p} differ")


CHECK = Check(
    "C25",
    "every crossing of the elastic, plastic and determinate sub-checks is scaled relative to its own exact yield, plastic or collapse load",
    [
        Sub("between", between_cases, between, 300, 5000),
        Sub("elastic", elastic_cases, elastic, 500, 6000),
        Sub("plastic", plastic_cases, plastic, 500, 6000),
        Sub("determinate", determinate_cases, determinate, 600, 8000),
        Sub("same", same_cases, same, 300, 5000),
        Sub("refused", crossings, reject, 24, 200),
    ],
    ["axles stand on mesh nodes", "interior supports do not restrain rotation"],
)
