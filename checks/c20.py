"""C20: design load patterning analyses every documented arrangement with the right factors."""
from copy import deepcopy

import numpy as np
from hypothesis import strategies as st

from checks.c13 import check_envelope
from checks.c18 import factored
from harness import gen
from harness.core import Check, Sub, require


def arrangements(N):
    out = [(f"Max hogging spans {i}-{i + 1}", {i, i + 1}) for i in range(1, N)]
    out.append(("Max odd spans", set(range(1, N + 1, 2))))
    out.append(("Max even spans", set(range(2, N + 1, 2))))
    out.append(("All spans max", set(range(1, N + 1))))
    return out


def expected(c):
    G, Q = c["dead"], c["live"]
    (gx, gn), (qx, qn) = c["g"], c["q"]
    out = {}
    for name, mx in arrangements(len(c["beam"]["L"])):
        LM = []
        for rows, a, b in ((G, gx, gn), (Q, qx, qn)):
            for r in rows:
                LM += factored([r], a if r[0] in mx else b)
        out[name] = LM
    return out


def eq_rows(A, B):
    return len(A) == len(B) and all(
        len(a) == len(b) and np.allclose(np.array(a, float), np.array(b, float), rtol=1e-12, atol=0) for a, b in zip(A, B)
    )


def pattern(c, rec):
    from pycba import LoadCase, LoadPattern

    case = c["beam"]
    gen.solved_reference(case, rc_min=1e-6)
    N = len(case["L"])
    ba = gen.beam_analysis(case)
    lp = LoadPattern(ba)
    dead, live = deepcopy(c["dead"]), deepcopy(c["live"])
    wrap = (lambda LM: LoadCase("n", LM)) if c["as_case"] else (lambda LM: LM)
    for LM, wrong in (("dead", lp.set_live_loads), ("live", lp.set_dead_loads)):
        if c["partial"]:  # only one kind of load set: refused
            other = LoadPattern(gen.beam_analysis(case))
            (other.set_dead_loads if LM == "dead" else other.set_live_loads)(deepcopy(c[LM]), 1.0, 1.0)
            for g in (other.analyze, other.to_load_cases, other.to_LM):
                try:
                    g()
                except ValueError:
                    continue
                require(False, f"patterning with only {LM} loads accepted")
    if c["twice"]:  # later settings replace earlier ones
        lp.set_dead_loads([[1, 1, 99.0]], 7.0, 3.0)
        lp.set_live_loads([[N, 2, 55.0, 0.1]], 9.0, 2.0)
    if c["order"]:
        lp.set_dead_loads(wrap(dead), *c["g"])
        lp.set_live_loads(wrap(live), *c["q"])
    else:
        lp.set_live_loads(wrap(live), *c["q"])
        lp.set_dead_loads(wrap(dead), *c["g"])
    for r in dead + live:  # the nominal loads were copied
        r[2] = 4e9
    exp = expected(c)
    lcs = lp.to_load_cases()
    require(list(lcs.names) == list(exp), "arrangements", lcs.names, list(exp))
    got = lcs.to_LM()
    for name, LM in exp.items():
        require(eq_rows(got[name], LM), f"loads of {name!r}", got[name], LM)
        require(eq_rows(lp.to_LM()[name], LM), f"load matrix of {name!r}")
    for q, (name, mx) in zip(lcs, arrangements(N)):
        require(set(q.loaded_spans) == {i - 1 for i in mx}, f"spans of {name!r}", q.loaded_spans)
    results = [gen.analysed(case, c["npts"], LM).beam_results for LM in exp.values()]
    env = lp.analyze(c["npts"]) if c["npts"] else lp.analyze()
    require(env.nres == len(exp), "number of analyses in the envelope")
    check_envelope(env, results, "pattern envelope")
    rec.cls(f"spans{N}", "settlement" if case["D"] and any(case["D"]) else "no settlement")
    rec.mark(N > 1 and c["g"][0] != c["g"][1] and c["q"][0] != c["q"][1])
    # repeatable, and the nominal loads can be re-set
    env2 = lp.analyze(c["npts"])
    for a in ("Mmax", "Mmin", "Vmax", "Vmin", "Rmaxval", "Rminval"):
        require(np.array_equal(getattr(env, a), getattr(env2, a)), "patterning again gives another " + a)
    lp.set_live_loads([], 1.0, 0.0)
    c2 = dict(c, live=[])
    require(all(eq_rows(lp.to_LM()[k], v) for k, v in expected(c2).items()), "live loads removed")


@st.composite
def pattern_st(draw):
    case = draw(gen.beams(max_spans=6, nonprismatic=draw(st.integers(0, 5)) == 0))
    L = case["L"]
    types = (1, 1, 2, 3, 4, 5)
    if draw(st.booleans()):
        dead = [[i + 1, 1, draw(gen.mags(40))] for i in range(len(L))]
        live = [[i + 1, 1, draw(gen.mags(40))] for i in range(len(L))]
    else:
        dead = draw(gen.load_matrix(L, types, 1, 5))
        live = draw(gen.load_matrix(L, types, 1, 5))
    f = st.sampled_from([1.35, 1.0, 0.9, 0.0, 1.5, 1.2, -0.2])
    return {
        "beam": case,
        "dead": dead,
        "live": live,
        "g": [draw(f), draw(f)],
        "q": [draw(f), draw(f)],
        "npts": draw(st.sampled_from([None, None, 10, 31])),
        "as_case": draw(st.booleans()),
        "order": draw(st.booleans()),
        "twice": draw(st.booleans()),
        "partial": draw(st.integers(0, 3)) == 0,
    }


CHECK = Check(
    "C20",
    "non-trivial = more than one span with maximum and minimum factors that differ",
    [Sub("pattern", pattern_st, pattern, 640, 12000)],
    ["each nominal load row belongs to the span it is written for"],
)
