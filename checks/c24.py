"""C24: proportional loading to collapse against limit analysis and elastic theory."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, plastic as pl
from harness.core import Check, SkipCase, Sub, require


@st.composite
def models(draw, max_spans=3, springs=True, steps=(6, 12), uneven=True):
    n = draw(st.integers(1, max_spans))
    h = draw(st.sampled_from([0.25, 0.5, 1.0]))
    ne = [draw(st.integers(*steps)) for _ in range(n)]
    L = [h * k for k in ne]
    if uneven and draw(st.integers(0, 2)) == 0:  # elements of slightly different length per span
        L = [h * (k + draw(st.sampled_from([0.0, 0.2, 0.35, -0.3]))) for k in ne]
    EI = draw(st.sampled_from([1e4, 67035.0, 3e5]))
    if draw(st.integers(0, 2)) == 0:
        EI = [EI * draw(st.sampled_from([1.0, 0.5, 2.0])) for _ in range(n)]
    Mp = draw(st.sampled_from([432.0, 100.0, 1500.0]))
    if n > 1 and draw(st.integers(0, 2)) == 0:
        Mp = [Mp * draw(st.sampled_from([1.0, 0.6, 1.5])) for _ in range(n)]
    R = []
    for i in range(n + 1):
        outer = i in (0, n)
        pool = ["pin", "pin", "pin", "fixed", "free"] if outer else ["pin", "pin", "pin", "pin", "pin", "free"]
        if springs:
            pool += ["vspring"] + (["rotspring"] if outer else [])
        e = EI[0] if isinstance(EI, list) else EI
        R += gen.sup_dofs(draw(st.sampled_from(pool)), gen.r4(e / L[0] ** 3 * draw(st.sampled_from([3.0, 50.0, 1000.0]))), gen.r4(e / L[0] * draw(st.sampled_from([0.5, 4.0, 50.0]))))
    EIl = pl.per_span(EI, n)
    stat = gen.stabilise({"L": L, "EI": EIl, "et": [1] * n, "R": R, "GA": None, "kf": None, "LM": []}, 1e-5)
    case = {"L": L, "EI": EI, "R": stat["R"], "Mp": Mp, "mesh": h}
    for i in range(1, n):  # interior nodes carry no rotational restraint in this domain
        if case["R"][2 * i + 1] != 0:
            case["R"][2 * i + 1] = 0
    my = draw(st.sampled_from([None, None, 0.75, 0.95]))
    case["My"] = None if my is None else [v * my for v in pl.per_span(Mp, n)] if isinstance(Mp, list) else Mp * my
    return case


def loads(draw, case, on_node=True, k=(1, 3)):
    LM = []
    for _ in range(draw(st.integers(*k))):
        s = draw(st.integers(1, len(case["L"])))
        l, h = case["L"][s - 1], case["mesh"]
        if draw(st.integers(0, 2)) == 0:
            LM.append([s, 1, draw(st.sampled_from([5.0, 12.0, 20.0, -6.0]))])
        else:
            a = l / round(l / h) * draw(st.integers(3, round(l / h) - 3)) if on_node else l * draw(st.floats(0.1, 0.9).map(gen.r4))
            LM.append([s, 2, draw(st.sampled_from([40.0, 100.0, 250.0, -50.0])), a])
    return LM


def nba(case):
    import pycba as cba

    kw = dict(L=list(case["L"]), EI=case["EI"], R=list(case["R"]), Mp=case["Mp"])
    if case.get("My") is not None:
        kw["My"] = case["My"]
    if case.get("q"):
        kw["q"] = case["q"]
    if case["mesh"] != 0.5:
        kw["mesh_size"] = case["mesh"]
    return cba.NonlinearBeamAnalysis(**kw)


def setting(case):
    x, span = pl.mesh(case["L"], case["mesh"])
    n = len(case["L"])
    Mp = pl.capacities(x, span, pl.per_span(case["Mp"], n))
    My = Mp / 1.15
    if case.get("My") is not None:
        mp, my = pl.per_span(case["Mp"], n), pl.per_span(case["My"], n)
        My = np.array([min(my[s] for s in {span[j - 1] if j else span[0], span[j] if j < len(x) - 1 else span[-1]}) for j in range(len(x))])
    return x, Mp, My


def elastic_moments(case, f):
    u, ML, _ = pl.elastic(case, f)
    return u, ML


def history(case, r, lam):
    """Facts that hold of the event list whatever the outcome."""
    x, Mp, My = setting(case)
    require(np.allclose(r.node_coords, x, atol=1e-9 * x[-1]), "mesh nodes are not the documented refinement")
    require(np.allclose(r.support_coords, np.concatenate([[0], np.cumsum(case["L"])])), "support coordinates")
    seen = {}
    last = 0.0
    for e in r.hinge_events:
        require(e.event_type in ("initial_yield", "plastic_hinge"), f"event type {e.event_type!r}")
        require(e.load_factor >= last - 1e-9 and e.load_factor <= lam + 1e-9, f"event at {e.load_factor} out of order (collapse {lam})")
        last = e.load_factor
        require(abs(e.location - x[e.node_index]) < 1e-9 * x[-1], f"event at node {e.node_index} reported at x={e.location}")
        if e.event_type == "plastic_hinge":
            require(e.node_index in seen, f"hinge without yield at x={e.location}")
        require((e.node_index, e.event_type) not in seen, f"{e.event_type} at x={e.location} recorded twice")
        seen[(e.node_index, e.event_type)] = seen[e.node_index] = e.load_factor
    return [e for e in r.hinge_events if e.event_type == "plastic_hinge"]


def balance(case, m, u, lam, what, tol=1e-6):
    """Node moments are in equilibrium with lam times the loads."""
    f = pl.nodal(case)
    A, dofs, ends = pl.statics(case)
    m = np.asarray(m, float)
    h = case["mesh"]
    p = -f[dofs]
    s = np.max(np.abs(m)) / h + lam * np.max(np.abs(f[0::2])) + 1e-12
    if len(dofs):
        # consistent nodal moments of loads between nodes shift the shears
        res = np.abs(A @ m - lam * p)
        k = int(np.argmax(res))
        require(res[k] <= tol * s, f"{what}: moments do not carry the load at x={pl.mesh(case['L'], h)[0][dofs[k]//2]:.4g} (out by {res[k]:.4g} of {lam*p[k]:.4g})")
    for j in ends:
        require(abs(m[j]) <= tol * s * h, f"{what}: moment {m[j]:.4g} at the free end of the rotation at node {j}")


@st.composite
def collapse_cases(draw):
    case = draw(models(springs=False))
    case["LM"] = loads(draw, case)
    case["target"] = draw(st.sampled_from([3.0, 4.0, 6.0]))
    case["record"] = draw(st.sampled_from([0, 0, 1, 7]))
    case["q"] = draw(st.sampled_from([0, 0, 0, 0.01]))
    case["stop"] = draw(st.sampled_from([None, None, None, 0.6, 0.9]))
    return case


def scaled(case):
    """Scale the loads so that the exact collapse factor is case['target']."""
    if not any(r != 0 for r in case["R"]):
        raise SkipCase
    lam = pl.limit(case)
    if lam is None or not np.isfinite(lam) or lam < 1e-6:
        raise SkipCase
    f = pl.nodal(case)
    k = lam / case["target"]
    return {**case, "LM": [[*r[:2], r[2] * k, *r[3:]] for r in case["LM"]]}


def collapse(case, rec):
    case = scaled(case)
    ex = case["target"]
    a = nba(case)
    cap = case["stop"] * ex if case["stop"] else 2.0 * ex + 5
    kw = {"record_every": case["record"]} if case["record"] else {}
    LM = [list(r) for r in case["LM"]]
    r = a.analyze(LM, lambda_max=cap, **kw)
    require(LM == case["LM"], "the load matrix was changed")
    x, Mp, My = setting(case)
    tol = 0.01 + 0.12 / ex
    hin = history(case, r, r.collapse_lambda)
    # A flat moment peak (distributed load, several point loads in a span) can make
    # neighbouring mesh nodes plastic together; from then on the library's stiffness is
    # singular.  That is a listed known finding, replayed with "strict"; elsewhere such
    # histories are only checked up to this point.
    hn = sorted(e.node_index for e in hin)
    busy = {r_[0] for r_ in case["LM"] if r_[1] == 1} | {a_[0] for k_, a_ in enumerate(case["LM"]) for b_ in case["LM"][:k_] if a_[0] == b_[0]}
    flat = any(b - a == 1 for a, b in zip(hn, hn[1:])) and bool(busy)
    rec.cls("flat-peak" if flat else "distinct-hinges")
    if flat and not case.get("strict"):
        require(r.collapse_lambda > 0.85 * min(cap, ex), f"run ended at {r.collapse_lambda:.6g}, exact collapse factor {ex:.6g}")
        rec.mark()
        return
    rec.cls(f"spans={len(case['L'])}", f"hinges={min(len(pl.clusters([e.location for e in hin], 2.01 * case['mesh'])), 4)}", "q>0" if case["q"] else "q=0")
    rec.cls("spring" if any(v > 0 for v in case["R"]) else "rigid", "Mp-varies" if isinstance(case["Mp"], list) else "Mp-uniform")
    rec.mark(bool(hin) or case["stop"] is not None)
    if case["stop"]:
        require(not r.collapsed, f"collapse reported at {r.collapse_lambda:.6g}, exact {ex:.6g}")
        require(abs(r.collapse_lambda - cap) < 1e-6 * cap, f"stopped at {r.collapse_lambda} instead of lambda_max={cap}")
    elif not case["q"]:
        require(r.collapsed, f"no collapse up to {cap:.5g}, exact collapse factor {ex:.6g}")
        require(abs(r.collapse_lambda - ex) <= tol * ex, f"collapse factor {r.collapse_lambda:.6g}, exact {ex:.6g}")
    else:
        require(r.collapse_lambda >= ex * (1 - tol), f"hardening beam collapses at {r.collapse_lambda:.6g}, below the plastic limit {ex:.6g}")
    if r.collapsed:
        require(pl.is_mechanism(case, [e.location for e in hin]), f"collapse declared although hinges at {sorted(round(float(e.location),4) for e in hin)} are no mechanism")
    m = np.asarray(r.final_moments, float)
    # the stiffness is nearly singular in the last steps before collapse
    balance(case, m, None, r.collapse_lambda, "final moments", 5e-3 if r.collapsed else 1e-6)
    if not case["q"]:
        over = np.max(np.abs(m) / Mp)
        require(over <= 1 + tol, f"final moment reaches {over:.4g} times the plastic moment")
    for e in r.hinge_events:
        pass
    first = {}
    for e in r.hinge_events:
        first.setdefault(e.event_type, e.load_factor)
    # first yield: the elastic moment reaches My
    u, M = elastic_moments(case, pl.nodal(case))
    g = np.max(np.abs(M) / My)
    ly = 1 / g if g > 0 else np.inf
    if ly < cap * (1 - 1e-9) - 0.1:
        require("initial_yield" in first, f"no yield recorded although My is reached at {ly:.5g}")
        require(ly - 1e-6 * ly <= first["initial_yield"] <= ly + 0.1 + 1e-6 * ly, f"first yield at {first['initial_yield']:.6g}, elastic theory {ly:.6g} (steps of 0.1)")
    if case["record"]:
        require(len(r.lambda_history) == len(r.moment_history), "histories of different length")
        lh = np.asarray(r.lambda_history, float)
        require(np.all(np.diff(lh) > 0) and (not len(lh) or lh[-1] <= r.collapse_lambda + 1e-9), "load factor history is not increasing")
        for k in np.linspace(0, len(lh) - 1, min(len(lh), 6)).astype(int) if len(lh) else []:
            balance(case, r.moment_history[k], None, lh[k], f"recorded moments at {lh[k]:.5g}")
            if lh[k] < ly:
                require(np.allclose(r.moment_history[k], lh[k] * M, atol=1e-6 * np.abs(M).max() * lh[k]), f"recorded elastic moments at {lh[k]:.5g} wrong")
    fd = np.asarray(r.final_displacements, float)
    require(fd.shape == (2 * len(x),), f"final displacements of shape {fd.shape}")
    fixed, _ = pl.bc(case)
    require(all(fd[d] == 0 or abs(fd[d]) < 1e-9 * np.abs(fd).max() for d in fixed), "a rigid support moves")


@st.composite
def elastic_cases(draw):
    case = draw(models(max_spans=4, steps=(6, 16)))
    case["on"] = draw(st.booleans())
    case["LM"] = loads(draw, case, case["on"], (1, 4))
    case["use"] = draw(st.sampled_from([0.3, 0.7, 0.95]))
    case["lam"] = draw(st.sampled_from([1.0, 2.35, 0.07, 12.0]))
    return case


def elastic(case, rec):
    if not any(r != 0 for r in case["R"]):
        raise SkipCase
    f = pl.nodal(case)
    u, M = elastic_moments(case, f)
    x, Mp, My = setting(case)
    peak = np.max(np.abs(M) / My)
    h = case["mesh"]
    X = np.concatenate([[0.0], np.cumsum(case["L"])])
    off = sum(abs(r[2]) * h for r in case["LM"] if r[1] == 2 and np.min(np.abs(x - X[r[0] - 1] - r[3])) > 1e-9)
    peak += off / np.min(My)
    if peak <= 0:
        raise SkipCase
    k = case["use"] / peak / case["lam"]
    case = {**case, "LM": [[*r[:2], r[2] * k, *r[3:]] for r in case["LM"]]}
    rec.cls(f"spans={len(case['L'])}", "on-node" if off == 0 else "between-nodes", "spring" if any(v > 0 for v in case["R"]) else "rigid")
    rec.mark()
    r = nba(case).analyze([list(v) for v in case["LM"]], lambda_max=case["lam"])
    require(not r.collapsed and not r.hinge_events, f"yield or collapse below the yield moment: {r.hinge_events[:2]}")
    require(abs(r.collapse_lambda - case["lam"]) < 1e-9 * case["lam"], f"stopped at {r.collapse_lambda}")
    require(np.all(np.asarray(r.final_R) == 1.0), "stiffness reduced without yield")
    s = k * case["lam"]
    ue, Me = u * s, M * s
    for d, nm in ((0, "deflection"), (1, "rotation")):
        e = np.abs(np.asarray(r.final_displacements)[d::2] - ue[d::2])
        t = 1e-6 * np.abs(ue[d::2]).max() + 1e-12 + 1e-7 * np.abs(ue).max()
        require(e.max() <= t, f"elastic {nm} off by {e.max():.4g} at x={x[int(np.argmax(e))]:.4g} (max {np.abs(ue[d::2]).max():.4g})")
    e = np.abs(np.asarray(r.final_moments) - Me)
    t = 1e-6 * np.abs(Me).max() + 0.16 * off * s
    j = int(np.argmax(e))
    require(e[j] <= t, f"elastic moment at x={x[j]:.4g}: {r.final_moments[j]:.7g}, exact {Me[j]:.7g}")


# ------------------------------------------------------------- refused --------
@st.composite
def outside(draw):
    case = draw(models(2))
    case["kind"] = draw(st.sampled_from(["type", "section"]))
    case["LM"] = [[1, draw(st.sampled_from([3, 4, 5, 6])), 10.0, 1.0, 1.0]]
    return case


def outside_check(case, rec):
    import pycba as cba

    rec.cls("outside=" + case["kind"])
    rec.mark()
    try:
        if case["kind"] == "section":
            s = gen.section([{"kind": "linear", "x": [0.0, case["L"][0]], "ei": [1e4, 2e4]}])
            cba.NonlinearBeamAnalysis(case["L"], [s] * len(case["L"]), case["R"], case["Mp"], mesh_size=case["mesh"])
        else:
            nba(case).analyze([list(r) for r in case["LM"]], lambda_max=1.0)
    except (ValueError, TypeError, NotImplementedError):
        return
    require(False, f"a {case['kind']} outside the plastic theory was analysed")


CHECK = Check(
    "C24",
    "collapse: at least one plastic hinge formed (or the run was stopped below the limit on purpose); elastic and refused: always",
    [
        Sub("collapse", collapse_cases, collapse, 480, 8000),
        Sub("elastic", elastic_cases, elastic, 800, 8000),
        Sub("refused", outside, outside_check, 40, 400),
    ],
    ["interior supports do not restrain rotation", "point loads of the collapse cases stand on mesh nodes at least three elements from a support (hinges within two elements of each other are documented as one)", "collapse factors of 3 or more, so that the documented load steps resolve them"],
)
