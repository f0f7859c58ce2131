"""C13: a moving vehicle is the envelope of independent static analyses."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import moving as mv
from harness.core import Check, Sub, require


def bridge(case, veh, how="ctor"):
    from pycba import BridgeAnalysis

    ba = gen.beam_analysis(case)
    if how == "ctor":
        return BridgeAnalysis(ba, veh)
    b = BridgeAnalysis()
    b.set_bridge(ba)
    b.set_vehicle(veh)
    return b


def positions(case, c, Lv):
    T = float(np.sum(case["L"]))
    lo = None if c["lo"] is None else c["lo"] * T
    hi = None if c["hi"] is None else T + c["hi"] * T
    a, b = (0.0 if lo is None else lo), (T + Lv if hi is None else hi)
    if b <= a:
        b = hi = a + T
    step = (b - a) / c["n"] * (1.0 if c["even"] else c["ratio"])
    n = round((b - a) / step) + 1
    if c.get("back"):  # from the far position to the near one, in negative steps
        lo, hi, a, step = b, a, b, -step
    return lo, hi, step, a + step * np.arange(n)


def check_envelope(env, results, what):
    """Envelopes are the pointwise extremes (from zero) with valid coincidents."""
    X = np.array([r.results.x for r in results])
    M = np.array([r.results.M for r in results])
    V = np.array([r.results.V for r in results])
    R = np.array([r.R for r in results])
    z = np.zeros((1, M.shape[1]))
    require(np.array_equal(env.x, X[0]), f"{what}: envelope stations")
    scM, scV = np.abs(M).max() + 1e-300, np.abs(V).max() + 1e-300
    for nm, A, op, B, co, sA, sB in (
        ("Mmax", M, np.max, V, "Vco_Mmax", scM, scV), ("Mmin", M, np.min, V, "Vco_Mmin", scM, scV),
        ("Vmax", V, np.max, M, "Mco_Vmax", scV, scM), ("Vmin", V, np.min, M, "Mco_Vmin", scV, scM),
    ):
        exp = op(np.vstack([A, z]), axis=0)
        got = np.asarray(getattr(env, nm))
        require(got.shape == exp.shape and np.all(np.abs(got - exp) <= 1e-9 * sA), f"{what}: {nm} is not the pointwise extreme over the positions")
        gco = np.asarray(getattr(env, co))
        # the coincident value occurs at a position attaining the extreme there
        att = np.abs(A - exp[None, :]) <= 1e-9 * sA
        ok = np.any(att & (np.abs(B - gco[None, :]) <= 1e-9 * sB), axis=0)
        ok |= (np.abs(exp) <= 1e-9 * sA) & (np.abs(gco) <= 1e-9 * sB)
        require(np.all(ok), f"{what}: {co} is not the value coexisting with {nm} at station {int(np.argmin(ok))}")
    require(env.Rmax.shape == R.T.shape and env.Rmin.shape == R.T.shape, f"{what}: shape of the reaction history")
    if R.size:
        s = 1e-9 * (np.abs(R).max() + 1e-300)
        require(np.all(np.abs(env.Rmax - np.maximum(R.T, 0)) <= s), f"{what}: reaction history (max)")
        require(np.all(np.abs(env.Rmin - np.minimum(R.T, 0)) <= s), f"{what}: reaction history (min)")
        require(np.all(np.abs(env.Rmaxval - np.maximum(R.max(axis=0), 0)) <= s), f"{what}: maximum reactions")
        require(np.all(np.abs(env.Rminval - np.minimum(R.min(axis=0), 0)) <= s), f"{what}: minimum reactions")
    require(env.nres == len(results) and env.nsup == R.shape[1], f"{what}: counts")


def traverse(c, rec):
    case, v = c["beam"], c["veh"]
    rt = max(1e-8, 1e-14 / gen.solved_reference(case, rc_min=1e-7).rc)
    veh = mv.vehicle(v)
    Lv = float(np.sum(v["s"]))
    lo, hi, step, pos = positions(case, c, Lv)
    b = bridge(case, veh, c["how"])
    kw = {}
    if lo is not None:
        kw["pos_start"] = lo
    if hi is not None:
        kw["pos_end"] = hi
    env = b.run_vehicle(step, **kw)
    T = float(np.sum(case["L"]))
    require(len(b.pos) == len(pos) and np.all(np.abs(np.asarray(b.pos) - pos) <= 1e-9 * (T + abs(pos).max())),
            f"positions are {np.asarray(b.pos)[:3]}..{np.asarray(b.pos)[-1:]}, expected {pos[:3]}..{pos[-1:]}")
    require(len(b.vResults) == len(pos), "one result per position")
    gen.classify(case, rec)
    rec.cls("reversed" if v.get("rev") else "forward", f"axles{len(v['w'])}")
    loaded = 0
    for p, res in zip(b.pos, b.vResults):
        ax = mv.axles(v, p)
        if mv.ambiguous(case, ax):
            continue
        rows = mv.rows(case, ax)
        loaded += len(rows) > 0
        ref = mv.static(case, case["LM"] + rows)
        mv.compare(case, res, ref, ax, f"front axle at {p:.8g}", rt)
    rec.mark(loaded > 1 and len(v["w"]) > 1)
    check_envelope(env, b.vResults, "traverse")
    # running again (and a static analysis in between) gives the same answer
    mid = b.pos[len(b.pos) // 2]
    r = b.static_vehicle(mid)
    k = len(b.pos) // 2
    sc = np.abs(b.vResults[k].results.M).max() + np.abs(b.vResults[k].results.V).max() + 1e-300
    require(np.all(np.abs(r.results.M - b.vResults[k].results.M) <= 1e-9 * sc), "static_vehicle differs from the traverse at that position (M)")
    require(np.all(np.abs(r.results.V - b.vResults[k].results.V) <= 1e-9 * sc), "static_vehicle differs from the traverse at that position (V)")
    old = {q: np.array(getattr(env, q)) for q in ("Mmax", "Mmin", "Vmax", "Vmin", "Rmax", "Rmin")}
    if c["second"]:
        b.run_vehicle(T / 3)
        b.set_vehicle(mv.vehicle({"s": [1.0], "w": [10.0, 20.0]}))
        b.run_vehicle(T / 3)
        b.set_vehicle(veh)
        rec.cls("interleaved")
    env2 = b.run_vehicle(step, **kw)
    for q, e in old.items():
        require(np.array_equal(getattr(env2, q), e), f"repeating the traverse changes {q}")
        require(np.array_equal(getattr(env, q), e), f"a later traverse changed the earlier {q}")


def traverse_st():
    small = dict(max_loads=2, min_loads=0)
    return st.fixed_dictionaries({
        "beam": st.one_of(gen.beams(max_spans=4, **small), gen.beams(max_spans=4, **small),
                          gen.beams(max_spans=2, nonprismatic=True, **small),
                          gen.beams(max_spans=3, timo=True, **small),
                          gen.beams(max_spans=2, found=True, types=(1, 2, 3), **small)),
        "veh": mv.vehicles(),
        "n": st.integers(2, 14),
        "even": st.booleans(),
        "ratio": st.sampled_from([0.83, 1.07, 0.97]),
        "lo": st.sampled_from([None, None, None, 0.0, 0.25, -0.2]),
        "hi": st.sampled_from([None, None, None, 0.0, -0.3, 0.4]),
        "how": st.sampled_from(["ctor", "set"]),
        "second": st.sampled_from([0, 0, 1]),
        "back": st.sampled_from([False, False, False, True]),
    })


def long_traverse(c, rec):
    """Hundreds of positions, long trains of axles: against fresh models."""
    case, v = c["beam"], c["veh"]
    rt = max(1e-8, 1e-14 / gen.solved_reference(case, rc_min=1e-7).rc)
    Lv = float(np.sum(v["s"]))
    lo, hi, step, pos = positions(case, c, Lv)
    b = bridge(case, mv.vehicle(v))
    kw = {k: q for k, q in (("pos_start", lo), ("pos_end", hi)) if q is not None}
    env = b.run_vehicle(step, **kw)
    T = float(np.sum(case["L"]))
    require(len(b.pos) == len(pos) == len(b.vResults) and np.all(np.abs(np.asarray(b.pos) - pos) <= 1e-9 * (T + abs(pos).max())), f"{len(b.pos)} positions from {b.pos[0]} to {b.pos[-1]}, expected {len(pos)} from {pos[0]} to {pos[-1]}")
    rec.cls(f"axles {10 * (len(v['w']) // 10)}+", f"positions {100 * (len(pos) // 100)}+")
    rec.mark(len(pos) >= 30)
    check_envelope(env, b.vResults, "long traverse")
    rng = np.random.default_rng(c["seed"])
    for k in sorted({0, len(pos) - 1, *rng.integers(0, len(pos), c["look"]).tolist()}):
        ax = mv.axles(v, b.pos[k])
        if not mv.ambiguous(case, ax):
            mv.compare(case, b.vResults[k], mv.static(case, case["LM"] + mv.rows(case, ax)), ax, f"position {k} of {len(pos)}", rt)


def long_st():
    small = dict(max_loads=2, min_loads=0)
    return st.fixed_dictionaries({
        "beam": st.one_of(gen.beams(max_spans=3, **small), gen.beams(max_spans=10, **small)),
        "veh": st.one_of(mv.vehicles(1, 3), mv.vehicles(10, 40)),
        "n": st.one_of(st.integers(30, 120), st.integers(100, 400)),
        "even": st.booleans(),
        "ratio": st.sampled_from([0.83, 1.07, 0.97]),
        "lo": st.sampled_from([None, None, 0.0, 0.25, -0.2]),
        "hi": st.sampled_from([None, None, 0.0, -0.3, 0.4]),
        "seed": st.integers(0, 10**6),
        "look": st.just(20),
        "back": st.sampled_from([False, False, False, True]),
    })


def mirror(c, rec):
    """Crossing a mirrored bridge is the mirror image of a crossing in reverse."""
    from checks.c04 import mirror as mirrored

    case, v = c["beam"], dict(c["veh"])
    v.pop("rev", None)
    rt = max(1e-8, 1e-13 / gen.solved_reference(case, rc_min=1e-7).rc)
    T, Lv = float(np.sum(case["L"])), float(np.sum(v["s"]))
    n = c["n"]
    a = bridge(case, mv.vehicle(v))
    ea = a.run_vehicle((T + Lv) / n)
    m = bridge(mirrored(case), mv.vehicle(dict(v, rev=c["rev"])))
    em = m.run_vehicle((T + Lv) / n)
    rec.mark(len(v["w"]) > 1)
    # axles meeting an end of the bridge within round-off may differ
    for p in a.pos:
        if any(min(abs(x), abs(x - T)) < 1e-9 * T for x, _ in mv.axles(v, p)) and (case["R"][0] != -1 or case["R"][-2] != -1):
            rec.cls("axle-at-moving-end")
            return
    F = sum(v["w"]) + gen.load_force(case, case["LM"]) + np.abs(ea.Vmax - ea.Vmin).max()
    M = F * T
    for q in ("Mmax", "Mmin"):
        e, g = np.asarray(getattr(ea, q)), np.asarray(getattr(em, q))[::-1]
        require(np.all(np.abs(e - g) <= 10 * rt * M + 1e-7 * M), f"{q} of the mirrored crossing is not the mirror image")


def mirror_st():
    return st.fixed_dictionaries({
        "beam": gen.beams(max_spans=3, types=(1, 2, 3, 5), max_loads=1, min_loads=0),
        "veh": mv.vehicles(2, 4, reverse=False),
        "n": st.integers(3, 12),
        "rev": st.sampled_from([True, "copy"]),
    })


CHECK = Check(
    "C13",
    "non-trivial = several axles and at least two positions with axles on the deck",
    [
        Sub("traverse", traverse_st, traverse, 900, 14000),
        Sub("long", long_st, long_traverse, 48, 900),
        Sub("mirrored", mirror_st, mirror, 160, 2500),
    ],
    ["a station exactly under an axle may report either one-sided shear",
     "an axle within round-off of a bridge end may count as on or off"],
)
