"""C15: load model = vehicle plus lane load outside the clear zone."""
import math

import numpy as np
from hypothesis import strategies as st

from checks.c13 import bridge, check_envelope
from harness import gen
from harness import moving as mv
from harness.core import Check, Sub, require


def lane_rows(case, w, gap):
    """Lane load over the deck except the gap, as trapezoidal rows of each member."""
    n = mv.nodes_of(case)
    T = n[-1]
    parts = [(0.0, T)] if gap is None else [(0.0, min(gap[0], T)), (max(gap[1], 0.0), T)]
    out = []
    for a, b in parts:
        for i, L in enumerate(case["L"]):
            lo, hi = max(a, n[i]), min(b, n[i + 1])
            if hi > lo:
                s, e = lo - n[i], min(hi - n[i], L)
                if e - s > 1e-12 * L:
                    out.append([i + 1, 1, w] if e - s > L * (1 - 1e-14) else [i + 1, 5, w, w, s, e - s])
    return out


def check(c, rec):
    case, v = c["beam"], c["veh"]
    rt = max(1e-8, 1e-13 / gen.solved_reference(case, rc_min=1e-7).rc)
    T, Lv = float(np.sum(case["L"])), float(np.sum(v["s"]))
    b = bridge(case, mv.vehicle(v))
    clr = None if c["clr"] is None else tuple(q * T for q in c["clr"])
    w = c["w"]
    kw = {}
    a0, b0 = 0.0, T + Lv
    if c["lo"] is not None:
        kw["pos_start"] = a0 = c["lo"] * T
    if c["hi"] is not None:
        kw["pos_end"] = b0 = T + c["hi"] * T
    if b0 <= a0:
        b0 = kw["pos_end"] = a0 + T
    step = (b0 - a0) / c["n"] * c["ratio"]
    N = round((b0 - a0) / step) + 1
    if clr is None and c["omit"]:
        env = b.run_load_model(step, w, **kw)
    else:
        env = b.run_load_model(step, w, clearances=clr, **kw)
    pos = a0 + step * np.arange(N)
    require(len(b.pos) == N and np.all(np.abs(np.asarray(b.pos) - pos) <= 1e-9 * (T + np.abs(pos).max())), "positions of the load model")
    gen.classify(case, rec)
    rec.cls("continuous" if clr is None else ("wheelbase" if clr == (0, 0) else "clear zone"))
    rec.cls("reversed" if v.get("rev") else "forward")
    part = 0
    for p, res in zip(b.pos, b.vResults):
        ax = mv.axles(v, p)
        if mv.ambiguous(case, ax):
            continue
        gap = None if clr is None else (p - Lv - clr[0], p + clr[1])
        lane = lane_rows(case, w, gap)
        if gap and 0 < gap[1] and gap[0] < T:
            part += 1
        ref = mv.static(case, case["LM"] + mv.rows(case, ax) + lane)
        axx = ax + [(1e300, abs(w) * T)]  # the lane load also sets the scale
        # dropping slivers of the lane below 1e-9 is immaterial
        mv.compare(case, res, ref, axx, f"front axle at {p:.8g}", rt)
    rec.mark(part > 0 or clr is None)
    check_envelope(env, b.vResults, "load model")


def strat():
    c = st.sampled_from([0.0, 0.05, 0.1, 0.3, 0.21])
    small = dict(max_loads=1, min_loads=0)
    return st.fixed_dictionaries({
        "beam": st.one_of(gen.beams(max_spans=4, **small), gen.beams(max_spans=4, **small),
                          gen.beams(max_spans=2, nonprismatic=True, **small), gen.beams(max_spans=2, timo=True, **small)),
        "veh": mv.vehicles(1, 4),
        "n": st.integers(2, 10),
        "ratio": st.sampled_from([1.0, 0.93]),
        "w": st.one_of(st.sampled_from([6.0, 9.3]), gen.mags(40)),
        "clr": st.one_of(st.none(), st.tuples(c, c), st.tuples(c, c)),
        "omit": st.booleans(),
        "lo": st.sampled_from([None, None, -0.2, 0.15]),
        "hi": st.sampled_from([None, None, -0.3, 0.4]),
    })


def relations(c, rec):
    """Relations between load models that need no static counterpart."""
    case, v = c["beam"], c["veh"]
    gen.solved_reference(case, rc_min=1e-6)
    T, Lv = float(np.sum(case["L"])), float(np.sum(v["s"]))
    step = (T + Lv) / c["n"]
    b = bridge(case, mv.vehicle(v))
    f = lambda: [np.concatenate([r.results.M, r.results.V, np.asarray(r.R)]) for r in b.vResults]
    b.run_vehicle(step)
    base = f()
    b.run_load_model(step, 0.0, clearances=(0.0, 0.0))
    z = f()
    require(len(z) == len(base) and all(np.allclose(p, q, rtol=1e-9, atol=1e-9) for p, q in zip(z, base)), "a zero lane load changes the vehicle effects")
    w = c["w"]
    b.run_load_model(step, w)
    full = f()
    ba0 = mv.static(case, case["LM"])
    ba1 = mv.static(case, case["LM"] + [[i + 1, 1, w] for i in range(len(case["L"]))])
    lane = [np.concatenate([q.beam_results.results.M, q.beam_results.results.V, q.beam_results.R]) for q in (ba0, ba1)]
    d = lane[1] - lane[0]
    s = 1e-7 * (np.abs(d).max() + max(np.abs(q).max() for q in full) + 1e-9) * (1 + 1e-6 / gen.solved_reference(case).rc)
    for k, (p, q) in enumerate(zip(full, base)):
        require(np.all(np.abs(p - q - d) <= s), f"continuous lane load at position {k} is not the vehicle plus the lane load")
    # a clear zone longer than the bridge leaves the vehicle alone
    b.run_load_model(step, w, clearances=(2 * (T + Lv), 2 * (T + Lv)))
    require(all(np.all(np.abs(p - q) <= s) for p, q in zip(f(), base)), "a clear zone over the whole bridge still leaves lane load")
    # doubling the lane doubles its share
    clr = tuple(q * T for q in c["clr"])
    b.run_load_model(step, w, clearances=clr)
    one = f()
    b.run_load_model(step, 2 * w, clearances=clr)
    two = f()
    for p0, p1, p2 in zip(base, one, two):
        require(np.all(np.abs((p2 - p0) - 2 * (p1 - p0)) <= 4 * s), "lane load effects are not proportional to the lane load")
    rec.mark()


def relations_st():
    c = st.sampled_from([0.0, 0.05, 0.3, 0.21])
    return st.fixed_dictionaries({
        "beam": gen.beams(max_spans=3, max_loads=1, min_loads=0),
        "veh": mv.vehicles(1, 4), "n": st.integers(2, 8), "w": gen.mags(40), "clr": st.tuples(c, c),
    })


BAD = ["neg-back", "neg-front", "nan", "inf", "one", "three", "scalar", "neg-both", "-inf", "text"]


def invalid(c, rec):
    case = c["beam"]
    b = bridge(case, mv.vehicle(c["veh"]))
    x = c["x"]
    clr = {"neg-back": (-x, x), "neg-front": (x, -x), "nan": (math.nan, x) if c["flip"] else (x, math.nan),
           "inf": (math.inf, x) if c["flip"] else (x, math.inf), "one": (x,), "three": (x, x, x), "scalar": x,
           "neg-both": (-x, -x), "-inf": (x, -math.inf), "text": ("a", "b")}[c["kind"]]
    rec.cls(c["kind"])
    rec.mark()
    try:
        b.run_load_model(5.0, 6.0, clearances=clr)
    except ValueError:
        return
    require(False, f"clearances {clr!r} accepted")


def invalid_st():
    return st.fixed_dictionaries({
        "beam": gen.beams(max_spans=2, max_loads=1), "veh": mv.vehicles(1, 3),
        "x": st.sampled_from([0.001, 1.0, 5.0, 1e-9]), "flip": st.booleans(), "kind": st.sampled_from(BAD),
    })


CHECK = Check(
    "C15",
    "non-trivial = the clear zone meets the deck at some position, or a continuous lane",
    [
        Sub("positions", strat, check, 800, 12000),
        Sub("relations", relations_st, relations, 240, 4000),
        Sub("invalid_clearances", invalid_st, invalid, 120, 1000),
    ],
    ["as for moving vehicles: one-sided shear under an axle, axle within round-off of a bridge end"],
)
