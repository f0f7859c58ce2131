"""C14: critical values, coincident effects and envelope ratios."""
import numpy as np
from hypothesis import strategies as st

from checks.c13 import bridge
from harness import gen
from harness import moving as mv
from harness.core import Check, Sub, require


def run(c, veh=None):
    case, v = c["beam"], c["veh"]
    T, Lv = float(np.sum(case["L"])), float(np.sum(v["s"]))
    b = bridge(case, mv.vehicle(veh or v))
    kw = {}
    if c["lo"] is not None:
        kw["pos_start"] = c["lo"] * T
    return b, b.run_vehicle((T + Lv) / c["n"], **kw)


def statics(c, b):
    """Independent static analyses at the traverse positions."""
    out = []
    for p in b.pos:
        ax = mv.axles(c["veh"], p)
        if mv.ambiguous(c["beam"], ax):
            return None
        out.append(mv.static(c["beam"], c["beam"]["LM"] + mv.rows(c["beam"], ax)).beam_results)
    return out


def critical(c, rec):
    case = c["beam"]
    gen.solved_reference(case, rc_min=1e-6)
    b, env = run(c)
    res = b.vResults
    M = np.array([r.results.M for r in res])
    V = np.array([r.results.V for r in res])
    R = np.array([r.R for r in res])
    x = res[0].results.x
    pos = np.asarray(b.pos)
    cv = b.critical_values(env)
    T = float(np.sum(case["L"]))
    require(cv["nsup"] == R.shape[1], "critical nsup")
    rec.cls(f"npos{len(pos)//4*4}")
    ind = statics(c, b)
    if ind is not None:
        Vs = np.array([r.results.V for r in ind])
        Ms = np.array([r.results.M for r in ind])
        F = np.abs(Vs).max() + sum(c["veh"]["w"])
        rec.cls("independent")
    for nm, A, B, co, sg in (("Mmax", M, V, "Vco", 1), ("Mmin", M, V, "Vco", -1), ("Vmax", V, M, "Mco", 1), ("Vmin", V, M, "Mco", -1)):
        e = cv[nm]
        ext = max(0.0, (sg * A).max()) * sg
        s = abs(ext) + 1e-12
        require(abs(e["val"] - ext) <= 1e-9 * s, f"critical {nm} is {e['val']!r}, the extreme over the traverse is {ext!r}")
        if ind is not None:
            G, sc = (Ms, F * T) if nm[0] == "M" else (Vs, F)
            g = max(0.0, (sg * G).max()) * sg
            # either one-sided shear may be reported under an axle
            tol = 1e-7 * sc + (0 if nm[0] == "M" else sum(c["veh"]["w"]))
            require(abs(e["val"] - g) <= tol, f"critical {nm} is {e['val']!r}, independent static analyses give {g!r}")
        if abs(ext) <= 1e-6 * (np.abs(A).max() + 1e-300):
            rec.cls("zero-extreme")
            continue
        rec.mark(len(pos) > 2)
        stn = np.abs(x - e["at"]) <= 1e-9 * T
        require(stn.any(), f"critical {nm} location {e['at']} is not a station")
        att = np.abs(A - ext) <= 2e-9 * s
        require(att[:, stn].any(), f"critical {nm} is not attained at the reported location {e['at']:.8g}")
        pmax = (sg * A).max(axis=1)
        must = [p for p, q in zip(pos, pmax) if abs(q - abs(ext)) <= 1e-9 * s]
        may = [p for p, q in zip(pos, pmax) if abs(q - abs(ext)) <= 1.5e-5 * s + 2e-8]
        got = list(np.atleast_1d(e["pos"]))
        tolp = 1e-9 * (T + np.abs(pos).max())
        for p in must:
            require(any(abs(p - g) <= tolp for g in got), f"critical {nm} occurs at position {p:.8g}, which is not listed in {got}")
        for g in got:
            require(any(abs(p - g) <= tolp for p in may), f"critical {nm} does not occur at the listed position {g:.8g}")
        sB = 1e-9 * (np.abs(B).max() + 1e-300)
        ok = (att & stn[None, :] & (np.abs(B - e[co]) <= sB)).any()
        require(ok, f"{co} of critical {nm} = {e[co]!r} does not coexist with it")
    for i in range(R.shape[1]):
        for nm, sg in (("Rmax", 1), ("Rmin", -1)):
            e = cv[f"{nm}{i}"]
            ext = max(0.0, (sg * R[:, i]).max()) * sg
            s = np.abs(R[:, i]).max() + 1e-12
            require(abs(e["val"] - ext) <= 1e-9 * s, f"critical {nm}{i} is {e['val']!r}, expected {ext!r}")
            k = np.abs(pos - e["pos"]) <= 1e-9 * (T + np.abs(pos).max())
            at = np.maximum(sg * R[k, i], 0.0)
            require(len(at) and np.any(np.abs(at - abs(ext)) <= 1e-9 * s), f"critical {nm}{i} does not occur at position {e['pos']!r}")
    require("shear_points" not in cv, "shear points reported without being requested")
    # an envelope of something else is rejected
    if np.abs(M).max() > 1e-3 and c["k"] != 1.0:
        from copy import deepcopy

        other = deepcopy(env)
        for q in ("Mmax", "Mmin", "Vmax", "Vmin"):
            setattr(other, q, c["k"] * np.asarray(getattr(env, q)))
        if max(abs(M.max()), abs(M.min())) > 1e-2 and np.abs(V).max() > 1e-2:
            try:
                b.critical_values(other)
            except ValueError:
                rec.cls("foreign-rejected")
            else:
                require(False, "critical_values accepts an envelope that is not of this traverse")


def common(extra):
    d = {
        "beam": gen.beams(max_spans=3, max_loads=1, min_loads=0),
        "veh": mv.vehicles(1, 4),
        "n": st.integers(2, 20),
        "lo": st.sampled_from([None, None, 0.2]),
    }
    d.update(extra)
    return st.fixed_dictionaries(d)


def ratios(c, rec):
    case = c["beam"]
    b, ref = run(c)
    v2 = dict(c["veh2"])
    b.set_vehicle(mv.vehicle(v2))
    T = float(np.sum(case["L"]))
    trial = b.run_vehicle((T + float(np.sum(v2["s"]))) / c["n2"])
    if c["merge"]:
        # envelopes of several vehicles: trial and reference merged from the two runs
        rec.cls("merged, " + ("equal histories" if ref.nres == trial.nres else "unequal histories"))
        both = {"or": ref | trial, "sum": trial + ref}[c["merge"][0]]
        ref, trial = (both, trial) if c["merge"][1] == "ref" else (ref, both) if c["merge"][1] == "trial" else (both, both)
    if c["zero"]:
        for q in ("Mmax", "Mmin", "Vmax", "Vmin"):
            A = np.array(getattr(ref, q))
            A[:: c["zero"]] = [1e-4, -5e-4, 0.0, 2e-3][c["zero"] % 4]
            setattr(ref, q, A)
        rec.cls("near-zero reference")
    keep = {q: np.array(getattr(e, q)) for e, p in ((ref, "r"), (trial, "t")) for q in ("Mmax",)}
    out = b.envelopes_ratios(trial, ref)
    rec.mark()
    require(np.array_equal(out["x"], ref.x) and out["nsup"] == ref.nsup, "ratios: stations / supports")

    def chk(got, a, r, what):
        a, r, got = (np.atleast_1d(np.asarray(q, float)) for q in (a, r, got))
        z = np.abs(r) <= 1e-3 * (1 - 1e-9)
        nz = np.abs(r) > 1e-3 * (1 + 1e-9)
        exp = np.zeros_like(a)
        exp[nz] = np.abs(a[nz] / r[nz])
        m = z | nz
        require(got.shape == a.shape and np.all(np.abs(got - exp)[m] <= 1e-9 * (np.abs(exp[m]) + 1e-12)), f"ratio of {what}")

    for q in ("Mmax", "Mmin", "Vmax", "Vmin"):
        chk(out[q], getattr(trial, q), getattr(ref, q), q)
    for i in range(ref.nsup):
        chk(out[f"Rmax{i}"], trial.Rmaxval[i], ref.Rmaxval[i], f"Rmax{i}")
        chk(out[f"Rmin{i}"], trial.Rminval[i], ref.Rminval[i], f"Rmin{i}")
    self = b.envelopes_ratios(ref, ref)
    for q in ("Mmax", "Vmin"):
        A = np.asarray(getattr(ref, q))
        exp = np.where(np.abs(A) > 1e-3, 1.0, 0.0)
        m = np.abs(np.abs(A) - 1e-3) > 1e-9
        require(np.all(np.abs(self[q] - exp)[m] < 1e-12), "ratio of an envelope to itself")
    # incompatible envelopes are refused
    other = gen.beam_analysis({"L": [5.0] * (len(case["L"]) + 1), "EI": [1e4] * (len(case["L"]) + 1), "et": [1] * (len(case["L"]) + 1),
                               "R": [-1, 0] * (len(case["L"]) + 2), "GA": None, "kf": None, "D": None, "LM": []})
    from pycba import BridgeAnalysis

    e2 = BridgeAnalysis(other, mv.vehicle(c["veh"])).run_vehicle(5.0)
    try:
        b.envelopes_ratios(trial, e2)
    except ValueError:
        pass
    else:
        require(False, "ratio of envelopes of different bridges accepted")


CHECK = Check(
    "C14",
    "non-trivial = a non-zero extreme over at least three vehicle positions / ratios of two traverses",
    [
        Sub("critical", lambda: common({"k": st.sampled_from([1.0, 1.5, 0.8, 1.01])}), critical, 1000, 15000),
        Sub("ratios", lambda: common({"veh2": mv.vehicles(1, 3), "n2": st.integers(2, 10), "merge": st.sampled_from([None, None, ("or", "ref"), ("or", "trial"), ("or", "both"), ("sum", "ref")]), "zero": st.sampled_from([0, 0, 3, 4, 5, 7])}), ratios, 400, 5000),
    ],
    ["ties: any attaining position / station is accepted, positions equal within numpy's default closeness may be listed"],
)
