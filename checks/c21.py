"""C21: history independence: a used model answers like a fresh one, inputs stay as given."""
import contextlib
import io
import os
import shutil
import tempfile
from copy import deepcopy

import numpy as np
from hypothesis import strategies as st

from harness import gen, moving
from harness.core import Check, SkipCase, Sub, require

OPS = (
    "analyze", "other loads", "append loads", "query", "export", "vehicle", "parked", "load model", "pattern", "cases",
    "influence", "modal", "tendon", "stable", "settle", "resupport", "mechanism", "bad request", "envelope", "shear run fails",
)


@st.composite
def cases(draw, plots=False):
    k = draw(st.integers(0, 7))
    case = draw(gen.beams(max_spans=3, nonprismatic=k == 0, timo=k == 1, found=k == 2, types=(1, 2, 3) if k == 2 else (1, 2, 3, 4, 5)))
    types = (1, 2, 3) if k == 2 else (1, 2, 3, 4, 5)
    return {
        "beam": case,
        "form": draw(st.sampled_from(["list", "array"])),
        "npts": draw(st.sampled_from([None, 10, 33])),
        "more": [draw(gen.load_matrix(case["L"], types, 1, 3)) for _ in range(2)],
        "veh": draw(moving.vehicles(1, 3)),
        "ops": draw(st.lists(st.tuples(st.sampled_from(OPS + ("plot",) * (3 if plots else 0)), st.integers(0, 1000)), min_size=2, max_size=6)),
    }


def res(b):
    r = b.results
    return {"x": r.x, "M": r.M, "V": r.V, "rot": r.R, "defl": r.D, "R": b.R, "Rs": b.Rs, "u": b.D}


def env(e):
    return {q: getattr(e, q) for q in ("x", "Mmax", "Mmin", "Vmax", "Vmin", "Vco_Mmax", "Mco_Vmax", "Rmaxval", "Rminval")}


def many(rs):
    out = {}
    for k, b in enumerate(rs):
        out.update({f"{q}{k}": v for q, v in res(b).items()})
    return out


def rows(c, p):
    return [list(r) for r in ([c["beam"]["LM"]] + c["more"])[p % 3]]


def perform(ba, kw, c, op, p):
    """One use of the model; returns the arrays it produced."""
    import pycba as cba

    case = c["beam"]
    n = len(case["L"])
    T = float(sum(case["L"]))
    npts = [10, 25, 40][p % 3]
    if op == "analyze":
        ba.set_loads(rows(c, p))
        require(ba.analyze(npts) == 0, "analyze() did not return 0")
        return res(ba.beam_results)
    if op == "other loads":
        ba.set_loads([])
        ba.analyze(npts)
        ba.set_loads(rows(c, p + 1))
        ba.analyze()
        return res(ba.beam_results)
    if op == "append loads":
        mine = rows(c, p)
        keep = deepcopy(mine)
        if p % 4 == 0:
            ba = cba.BeamAnalysis(**dict(given(c), LM=mine))
        else:
            ba.set_loads(mine)
        ba.analyze(npts)
        ba.add_udl(1 + p % n, 3.0)
        ba.add_pl(1 + p % n, 7.0, 0.25 * case["L"][p % n])
        ba.add_pudl(1 + p % n, -2.0, 0.1 * case["L"][p % n], 0.5 * case["L"][p % n])
        ba.analyze()
        require(mine == keep, "adding loads to the model changed the caller's load matrix", mine)
        return res(ba.beam_results)
    if op == "query":
        ba.set_loads(rows(c, p))
        ba.analyze(npts)
        d = ba.at(0.37 * T)
        x, y = ba.beam_results.deflection_curve()
        return {"x": x, "y": y, **{q: np.array([v]) for q, v in d.items()}}
    if op == "export":
        ba.set_loads(rows(c, p))
        ba.analyze(npts)
        d = tempfile.mkdtemp(prefix="c21_")
        try:
            f = os.path.join(d, "r.csv")
            ba.to_csv(f)
            a = np.loadtxt(f, delimiter=",", skiprows=1)
        finally:
            shutil.rmtree(d)
        return {"csv": a, "df": ba.to_dataframe().to_numpy()}
    if op in ("vehicle", "parked", "load model", "shear run fails"):
        ba.set_loads(rows(c, p))
        br = cba.BridgeAnalysis(ba, moving.vehicle(c["veh"]))
        if op == "parked":
            return many([br.static_vehicle(f * T, **({"dv": 0.1 * min(case["L"])} if p % 2 and not case.get("kf") else {})) for f in (0.3, 0.8)])
        step = T / (4 + p % 5)
        if op == "vehicle":
            e = br.run_vehicle(step)
            cv = br.critical_values(e)
            e2 = br.run_vehicle(step)
            a, b = env(e), env(e2)
            for q in a:
                require(np.array_equal(a[q], b[q]), f"the same crossing twice: {q} differs")
            return {**a, "crit": np.array([cv["Mmax"]["val"], cv["Mmin"]["val"], cv["Vmax"]["val"], cv["Vmin"]["val"]])}
        if op == "load model":
            return env(br.run_load_model(step, 4.0, clearances=(1.0, 2.0)))
        good = ba.beam.restraints
        if p % 3 == 0:  # the crossing fails in its first position, with the sections in place
            ba.beam.restraints = [0] * len(good)
        try:
            br.run_vehicle(step if p % 3 == 0 else 0.0 if p % 2 else -1.0, shear_points=[0.41 * T])
        except Exception as ex:
            return {"raised": np.array([0.0])}
        finally:
            ba.beam.restraints = good
        return {"raised": np.array([1.0])}
    if op == "pattern":
        ba.set_loads(rows(c, p))
        lp = cba.LoadPattern(ba)
        lp.set_dead_loads(rows(c, p), 1.35, 1.0)
        lp.set_live_loads(rows(c, p + 1), 1.5, 0.0)
        return env(lp.analyze(npts))
    if op == "cases":
        ba.set_loads(rows(c, p))
        lc = cba.LoadCases(ba)
        lc.add("G", rows(c, p))
        lc.add("Q", rows(c, p + 1))
        x, y = lc.combine({"G": 1.35, "Q": 1.5}, response="MVDR"[p % 4])
        return {"x": x, "y": y}
    if op == "influence":
        if case.get("GA") or case.get("kf") or any(isinstance(e, list) for e in case["EI"]):
            return {}
        il = cba.InfluenceLines(kw["L"], kw["EI"], kw["R"], kw["eletype"])
        il.create_ils(step=T / 11)
        x, y = il.get_il(0.3 * T, "M")
        return {"x": x, "y": y}
    if op == "modal":
        if case.get("GA") or case.get("kf") or any(e != 1 for e in case["et"]) or any(isinstance(e, list) for e in case["EI"]):
            return {}
        m = ba.modal(2.0, n_modes=2, nseg=4)
        return {"f": m.f}
    if op == "tendon":
        from pycba.prestress import Parabola, equivalent_loads

        LM = equivalent_loads(ba, 1000.0, [Parabola(0.0, 0.02 * l, 0.0) for l in case["L"]])
        return {"t": np.array([v for r in LM for v in r], float)}
    if op == "stable":
        return {"s": np.array([float(ba.is_stable())])}
    if op == "settle":
        old = ba.beam.prescribed_displacements
        D = [None] * len(case["R"])
        j = [i for i, r in enumerate(case["R"]) if r == -1]
        if not j:
            return {}
        D[j[0]] = -0.01
        ba.set_loads(rows(c, p))
        ba.beam.prescribed_displacements = D
        try:
            ba.analyze(npts)
            return res(ba.beam_results)
        finally:
            ba.beam.prescribed_displacements = old
    if op == "resupport":
        old = ba.beam.restraints
        R = list(case["R"])
        for i in range(n + 1):
            R[2 * i] = -1
        ba.set_loads(rows(c, p))
        ba.beam.restraints = R
        try:
            ba.analyze(npts)
            return res(ba.beam_results)
        finally:
            ba.beam.restraints = old
    if op == "mechanism":
        old, oldD = ba.beam.restraints, ba.beam.prescribed_displacements
        ba.set_loads(rows(c, p))
        ba.beam.restraints = [0] * len(case["R"])
        ba.beam.prescribed_displacements = [None] * len(case["R"])
        try:
            if case.get("kf"):
                return {}
            try:
                ba.analyze(npts)
            except ValueError:
                return {"refused": np.array([1.0])}
            require(False, "an unsupported beam was analysed")
        finally:
            ba.beam.restraints, ba.beam.prescribed_displacements = old, oldD
    if op == "bad request":
        bad = [
            lambda: ba.beam.__setattr__("prescribed_displacements", [0.0]),
            lambda: ba.set_loads([(1, 1, 5.0)]) or ba.analyze(),
            lambda: ba.add_trap(1, 1.0, 2.0, a=0.1),
            lambda: cba.BeamAnalysis(kw["L"], kw["EI"], kw["R"][:-1]),
        ]
        try:
            bad[p % len(bad)]()
        except ValueError:
            return {"refused": np.array([1.0])}
        except AttributeError:
            return {"attr": np.array([1.0])}
        require(False, f"bad request {p % len(bad)} accepted")
    if op == "envelope":
        out = []
        for q in (p, p + 1):
            ba.set_loads(rows(c, q))
            ba.analyze(npts)
            out.append(ba.beam_results)
        e = cba.Envelopes(out)
        return {**env(e | e), **many(out)}
    if op == "plot":
        import matplotlib.pyplot as plt

        ba.set_loads(rows(c, p))
        ba.analyze(npts)
        with contextlib.redirect_stdout(io.StringIO()):
            units = [None, "kip-ft", "N-mm"][p % 3] if hasattr(cba, "set_units") else None
            try:
                [ba.plot_results, ba.plot_beam, ba.plot_reactions][p % 3]()
            finally:
                plt.close("all")
        return res(ba.beam_results)
    raise AssertionError(op)


def outcome(ba, kw, c, op, p):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return {k: np.array(v, float) for k, v in perform(ba, kw, c, op, p).items()}, None
    except (ValueError, NotImplementedError) as ex:
        return None, type(ex).__name__


def given(c):
    kw = gen.kwargs(c["beam"])
    if c["form"] == "array":
        for q in ("L", "R", "eletype", "EI"):
            if q != "EI" or not any(isinstance(e, list) for e in c["beam"]["EI"]):
                kw[q] = np.array(kw[q], float if q != "eletype" else int)
    return kw


def frozen(kw):
    return {k: deepcopy(v) for k, v in kw.items()}


def unchanged(kw, old, what):
    for k, v in kw.items():
        o = old[k]
        if isinstance(v, np.ndarray):
            same = np.array_equal(v, o)
        elif k in ("EI", "GAv") and any(hasattr(e, "segments") or callable(e) for e in v):
            same = len(v) == len(o)
        else:
            same = v == o
        require(same, f"{what} changed the caller's {k}", [o, v])


def identical(a, b, what):
    require(set(a) == set(b), f"{what}: produced {sorted(a)} instead of {sorted(b)}")
    for k in b:
        require(a[k].shape == b[k].shape, f"{what}: shape of {k} is {a[k].shape}, on a fresh model {b[k].shape}")
        if not b[k].size:
            continue
        sc = np.max(np.abs(b[k][np.isfinite(b[k])]), initial=0.0)
        ok = (a[k] == b[k]) | (np.abs(a[k] - b[k]) <= 1e-11 * sc) | (np.isnan(a[k]) & np.isnan(b[k]))
        require(np.all(ok), f"{what}: {k} differs from a fresh model's by {np.nanmax(np.abs(a[k] - b[k])):.3g} of {sc:.3g}")


def history(c, rec):
    from pycba import BeamAnalysis

    gen.solved_reference(c["beam"], rc_min=1e-6)
    kw = given(c)
    old = frozen(kw)
    used = BeamAnalysis(**kw)
    kept = []
    for k, (op, p) in enumerate(c["ops"]):
        rec.cls(op)
        npts = used.npts
        what = f"after {[o for o, _ in c['ops'][:k]]}, {op}"
        got, err = outcome(used, kw, c, op, p)
        fresh = BeamAnalysis(**given(c))
        fresh.npts = npts  # the number of stations is a setting of the model
        want, err2 = outcome(fresh, given(c), c, op, p)
        require(err == err2, f"{what}: {err or 'succeeds'}, on a fresh model {err2 or 'succeeds'}")
        if got is not None:
            identical(got, want, what)
        unchanged(kw, old, op)
        if used.beam_results is not None and len(kept) < 3:
            b = used.beam_results
            kept.append((b, {q: np.array(v, float) for q, v in res(b).items()}, op))
    rec.mark()
    # the original question again
    used.set_loads([list(r) for r in c["beam"]["LM"]])
    fresh = BeamAnalysis(**given(c))
    require(used.analyze(c["npts"] or 100) == 0 and fresh.analyze(c["npts"] or 100) == 0, "analyze() did not return 0")
    f = lambda o: {q: np.array(v, float) for q, v in res(o.beam_results).items()}
    identical(f(used), f(fresh), f"after {[o for o, _ in c['ops']]}, analyze")
    for b, snap, op in kept:
        identical({q: np.array(v, float) for q, v in res(b).items()}, snap, f"results kept from '{op}'")


# ------------------------------------------------------------ read-only uses --
def digest(o, depth=0, seen=None):
    """The public data of a result object: arrays, numbers, texts, nested objects."""
    seen = seen if seen is not None else set()
    if isinstance(o, np.ndarray):
        if o.dtype != object:
            return ("array", o.copy())
        return ("seq", [digest(v, depth + 1, seen) for v in o.ravel()])
    if o is None or isinstance(o, (bool, int, float, str, np.generic)):
        return ("value", o)
    if isinstance(o, (list, tuple)):
        return ("seq", [digest(v, depth + 1, seen) for v in o])
    if isinstance(o, dict):
        return ("map", {str(k): digest(v, depth + 1, seen) for k, v in o.items()})
    if id(o) in seen or depth > 4 or not type(o).__module__.startswith("pycba"):
        return ("other", None)
    seen.add(id(o))
    return ("object", {k: digest(v, depth + 1, seen) for k, v in sorted(vars(o).items()) if not k.startswith("_")})


def equal(a, b):
    """Nothing that was there has changed (what was None or missing may be filled in)."""
    if a[0] == "value" and a[1] is None:
        return None
    if a[0] != b[0]:
        return "kind"
    if a[0] == "array":
        if a[1].shape != b[1].shape or not np.array_equal(a[1], b[1], equal_nan=a[1].dtype.kind == "f"):
            return "values"
    elif a[0] == "value":
        if a[1] != b[1] and not (a[1] != a[1] and b[1] != b[1]):
            return f"{a[1]!r} became {b[1]!r}"
    elif a[0] == "seq":
        if len(a[1]) != len(b[1]):
            return f"length {len(a[1])} became {len(b[1])}"
        for i, (u, v) in enumerate(zip(a[1], b[1])):
            d = equal(u, v)
            if d:
                return f"[{i}] {d}"
    elif a[0] in ("map", "object"):
        for k in a[1]:
            if k not in b[1]:
                return f"{k} lost"
            d = equal(a[1][k], b[1][k])
            if d:
                return f".{k} {d}"
    return None


READS = {
    "beam": ["at", "curve", "csv", "frame", "plot", "reactions", "schematic"],
    "envelope": ["at", "csv", "frame", "spans", "plot", "plot each", "coincident", "merge", "combine", "zero"],
    "modal": ["shape", "shape", "plot", "panel", "text"],
    "plastic": ["moments", "hinges", "state", "shape"],
    "lines": ["M", "V", "R", "plot"],
    "bridge": ["critical", "ratio", "static", "plot", "ratios plot"],
    "cases": ["combine", "LM", "matrix", "envelope", "signs", "plot", "combined"],
    "vehicle": ["copy", "train", "plot", "park", "cross"],
}


@st.composite
def kept_cases(draw):
    kind = draw(st.sampled_from(sorted(READS)))
    case = draw(gen.beams(max_spans=3, types=(1, 2, 3), settlements=False))
    if kind in ("modal", "plastic"):
        case["et"] = [1] * len(case["L"])
    reads = draw(st.lists(st.tuples(st.sampled_from(READS[kind]), st.integers(0, 50)), min_size=2, max_size=5))
    return {"beam": case, "kind": kind, "reads": reads, "veh": draw(moving.vehicles(2, 3)), "more": draw(gen.load_matrix(case["L"], (1, 2, 3), 1, 2))}


def kept(c, rec):
    import matplotlib.pyplot as plt
    import pycba as cba

    case, kind = c["beam"], c["kind"]
    gen.solved_reference(case, LM=[], rc_min=1e-6)
    n, T = len(case["L"]), float(sum(case["L"]))
    fixed = [i for i in range(n + 1) if case["R"][2 * i] == -1]
    rec.cls(kind, *[f"{kind}:{r}" for r, _ in c["reads"]])
    ba = gen.beam_analysis(case)
    ba.analyze(20)
    veh = moving.vehicle(c["veh"])
    br = cba.BridgeAnalysis(ba, veh)
    objs = {}
    if kind == "beam":
        objs = {"results": ba.beam_results, "model": ba.beam}
    elif kind in ("envelope", "bridge"):
        e = br.run_vehicle(T / 5)
        ba2 = gen.beam_analysis(case, LM=[])
        ba2.npts = ba.npts
        e2 = cba.BridgeAnalysis(ba2, veh).run_vehicle(T / 4)
        objs = {"envelope": e, "second envelope": e2, "positions": br.pos, "position results": br.vResults, "vehicle": veh}
    elif kind == "modal":
        m = ba.modal(2.0, n_modes=4, nseg=5)
        objs = {"modes": m}
    elif kind == "plastic":
        a = cba.NonlinearBeamAnalysis(list(case["L"]), list(case["EI"]), list(case["R"]), 50.0, mesh_size=max(case["L"]) / 6)
        LM = [[1, 2, 40.0, 0.4 * case["L"][0]]]
        r = a.analyze(LM, lambda_max=3.0, record_every=2)
        objs = {"result": r, "loads": LM}
    elif kind == "lines":
        il = cba.InfluenceLines(list(case["L"]), list(case["EI"]), list(case["R"]), list(case["et"]))
        il.create_ils(step=T / 6)
        objs = {"lines": il}
    elif kind == "cases":
        lc = cba.LoadCases(ba)
        LMs = [[list(r) for r in case["LM"]], [list(r) for r in c["more"]]]
        lc.add("G", LMs[0])
        lc.add("Q", LMs[1])
        objs = {"cases": lc.to_LM(), "collection": lc, "loads": LMs, "model": ba.beam}
    else:
        objs = {"vehicle": veh}
    before = {k: digest(o) for k, o in objs.items()}
    for step, (op, p) in enumerate(c["reads"]):
        f = (p + 0.5) / 51
        tmp = tempfile.mkdtemp(prefix="c21_")
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if kind == "beam":
                    b = ba.beam_results
                    {"at": lambda: ba.at(f * T), "curve": b.deflection_curve, "csv": lambda: b.to_csv(os.path.join(tmp, "r.csv")), "frame": b.to_dataframe,
                     "plot": ba.plot_results, "reactions": ba.plot_reactions, "schematic": ba.plot_beam}[op]()
                elif kind == "envelope":
                    {"at": lambda: e.at(f * T), "csv": lambda: e.to_csv(os.path.join(tmp, "e.csv")), "frame": e.to_dataframe, "spans": lambda: e.per_span(["Mmax", "Vmin", "Mmin"][p % 3]),
                     "plot": e.plot, "plot each": lambda: e.plot(each=True), "coincident": lambda: e.plot_coincidents(show=False), "merge": lambda: e | e2,
                     "combine": lambda: cba.Envelopes.combine([e, e2], ["envelope", "sum"][p % 2]), "zero": lambda: cba.Envelopes.zero_like(e)}[op]()
                elif kind == "modal":
                    {"shape": lambda: m.mode_shape(p % 4), "plot": lambda: m.plot_modes([0, p % 4]), "panel": m.plot_results, "text": lambda: repr(m)}[op]()
                elif kind == "plastic":
                    {"moments": lambda: r.plot_moments(Mp=50.0), "hinges": r.plot_hinge_history, "state": r.plot_beam_state, "shape": r.plot_collapse}[op]()
                elif kind == "lines":
                    if op == "plot":
                        il.plot_il(f * T, "M")
                    elif op != "R" or fixed:
                        il.get_il(f * T, op)
                elif kind == "bridge":
                    {"critical": lambda: br.critical_values(e), "ratio": lambda: br.envelopes_ratios(e, e), "static": lambda: br.static_vehicle(f * T), "plot": lambda: br.plot_envelopes(e),
                     "ratios plot": lambda: br.plot_ratios(br.envelopes_ratios(e, e))}[op]()
                elif kind == "cases":
                    {"combine": lambda: lc.combine({"G": 1.2, "Q": 1.0 + p}, response="MVDR"[p % 4]), "LM": lc.to_LM, "matrix": lambda: lc.response_matrix("M"), "envelope": lc.envelope,
                     "signs": lambda: lc.envelope(30), "plot": lambda: cba.load_cases.plot_load_patterns(ba, lc) if p % 2 else None,
                     "combined": lambda: lc.combined_loads({"G": 1.35, "Q": 1.5})}[op]()
                else:
                    {"copy": lambda: veh.reverse(in_place=False), "train": lambda: cba.make_train([veh, veh], [3.0]), "plot": lambda: veh.plot(show=False), "park": lambda: br.static_vehicle(f * T),
                     "cross": lambda: br.run_vehicle(T / 3)}[op]()
        finally:
            plt.close("all")
            shutil.rmtree(tmp)
        for k, o in objs.items():
            d = equal(before[k], digest(o))
            require(not d, f"{kind}: after {[r for r, _ in c['reads'][: step + 1]]} the {k}: {d}")
    rec.mark()


CHECK = Check(
    "C21",
    "non-trivial = a history of at least two uses was compared with fresh models (always)",
    [
        Sub("history", cases, history, 700, 9000),
        Sub("kept", kept_cases, kept, 400, 5000),
        Sub("plots", lambda: cases(plots=True), history, 60, 800),
    ],
    ["loads are set before each use (a vehicle analysis documentedly leaves the loads of its last position on the model)"],
)
