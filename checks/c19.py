"""C19: additive / sign-selective envelopes and target combinations are the extreme selections."""
import itertools

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Check, SkipCase, Sub, require


def matrix(c):
    B = np.array(c["B"], float)
    return B.astype(int) if c["ints"] else B


def additive(c, rec):
    from pycba import additive_envelope

    B = matrix(c)
    n, m = B.shape
    k = min(c["k"], n)
    B0 = B.copy()
    neg, pos, ineg, ipos = additive_envelope(B.tolist() if c["list"] else B, k) if k != 2 or c["list"] else additive_envelope(B)
    sc = 1e-9 * max(np.abs(B).max(), 1e-30) * n
    rec.cls(f"n{n}", f"k{k}")
    rec.mark(1 < k < n)
    sets = list(itertools.combinations(range(n), k))
    sums = np.array([B[list(s)].sum(axis=0) for s in sets], float)
    require(np.array_equal(B, B0), "the response matrix changed")
    for nm, env, idx, exp in (("negative", neg, ineg, sums.min(axis=0)), ("positive", pos, ipos, sums.max(axis=0))):
        env, idx = np.asarray(env, float), np.asarray(idx)
        require(env.shape == (m,) and np.all(np.abs(env - exp) <= sc), f"{nm} additive envelope of {k} cases")
        require(idx.shape == (k, m), f"{nm} governing cases: shape {idx.shape}")
        for j in range(m):
            s = sorted(int(i) for i in idx[:, j])
            require(len(set(s)) == k and 0 <= s[0] and s[-1] < n, f"{nm} governing cases {s}")
            require(abs(B[s, j].sum() - exp[j]) <= sc, f"{nm} governing cases do not give the envelope")


def mats(many=False):
    v = st.one_of(st.integers(-5, 5).map(float), st.floats(-1e3, 1e3).map(gen.r4), st.just(0.0))
    small = st.tuples(st.integers(1, 7), st.integers(1, 5))
    return (st.one_of(small, small, small, st.just((66, 1))) if many else small).flatmap(
        lambda t: st.lists(st.lists(v, min_size=t[1], max_size=t[1]), min_size=t[0], max_size=t[0])
    )


def additive_st():
    return st.fixed_dictionaries({"B": mats(), "k": st.integers(1, 6), "ints": st.booleans(), "list": st.booleans()})


def selective(c, rec):
    from pycba import sign_selective_envelope

    B = matrix(c)
    n, m = B.shape
    B0 = B.copy()
    pos_id = None if c["pos"] is None else [c["pos"][i % len(c["pos"])] for i in range(n)]
    neg, pos, mneg, mpos = sign_selective_envelope(B, pos_id) if pos_id is not None else sign_selective_envelope(B)
    ids = [1 << i for i in range(n)] if pos_id is None else pos_id
    sc = 1e-9 * max(np.abs(B).max(), 1e-30) * n
    if n <= 7:
        S = np.array(list(itertools.product([0, 1], repeat=n)), float) @ B
    else:  # too many selections to list: the best ones take each case by its sign
        rec.cls("many cases")
        S = np.array([[min(b, 0.0) for b in col] for col in B.T]).sum(axis=1)[None], np.array([[max(b, 0.0) for b in col] for col in B.T]).sum(axis=1)[None]
        S = np.concatenate(S)
    rec.mark(n > 1 and np.any(B > 0) and np.any(B < 0))
    require(np.array_equal(B, B0), "the response matrix changed")
    require(np.all(np.abs(np.asarray(neg, float) - S.min(axis=0)) <= sc), "negative envelope is not the most negative selection")
    require(np.all(np.abs(np.asarray(pos, float) - S.max(axis=0)) <= sc), "positive envelope is not the most positive selection")
    for j in range(m):
        a = b = 0
        for i in range(n):
            if B[i, j] < 0:
                a |= ids[i]
            if B[i, j] > 0:
                b |= ids[i]
        require(int(mneg[j]) == a and int(mpos[j]) == b, f"positions contributing at station {j}: {mneg[j]}, {mpos[j]} not {a}, {b}")


def selective_st():
    ids = st.lists(st.one_of(st.integers(0, 80).map(lambda k: 1 << k), st.integers(1, 2**70)), min_size=1, max_size=7)
    return st.fixed_dictionaries({"B": mats(True), "ints": st.booleans(), "pos": st.one_of(st.none(), ids)})


def target(c, rec):
    """The target combination is the best of every selection, by direct analyses."""
    import pycba
    from pycba import LoadCases, sign_selective_envelope, additive_envelope

    case = c["beam"]
    ref = gen.solved_reference(case, rc_min=1e-6)
    ba = gen.beam_analysis(case)
    L = case["L"]
    if c["segments"]:
        lc = pycba.make_patterned_udl(ba, c["w"], c["segments"])
    else:
        lc = LoadCases(ba)
        for k, rows in enumerate(c["cases"]):
            lc.add(f"case {k}", rows)
    n = len(lc)
    lms = list(lc.to_LM().values())
    res = [gen.analysed(case, None, LM).beam_results for LM in lms]
    att = c["response"]
    X = np.asarray(res[0].results.x)
    total = float(X.max())
    xs = np.concatenate([[0.0], np.cumsum(L)])
    x = min(c["x"] * total, total)
    if c["node"] <= len(L):
        x = min(float(xs[c["node"]]), total)
    fit = lambda x: [float(np.atleast_1d(v)[0]) for v in (r.at(x, (att,))[att] for r in res)]
    vals = np.array(fit(x))
    mx = max(np.abs(getattr(r.results, att)).max() for r in res)
    tol = 1e-6 * mx
    if mx == 0:
        raise SkipCase("no response")
    # a target within a station spacing of a jump reads an interpolation across it
    at = [getattr(r.results, att) for r in res]
    near = np.abs(X - x) <= 1.01 * max(L) / 100
    spread = np.array([a[near].max() - a[near].min() for a in at])
    amb = (np.abs(vals) <= tol) | ((np.abs(vals) <= 1.001 * spread) if att in "MV" else (np.abs(vals) <= 0.02 * spread))
    sel, uns = c["factors"]
    comb = lc.target_combination("T", x, sense=c["sense"], response=att, selected_factor=sel, unselected_factor=uns)
    low = c["sense"].lower() in ("min", "minimum", "neg", "negative", "hogging")
    f = comb.factor_vector()
    require(f.shape == (n,) and comb.name == "T", "factors of the target combination")
    want = vals < 0 if low else vals > 0
    got = np.array([i in comb.metadata["selected_indices"] for i in range(n)])
    require(np.all((got == want) | amb), f"selection for {c['sense']} {att} at {x}", got.tolist(), vals.tolist())
    require(np.all(f == np.where(got, sel, uns)), "factors", f.tolist())
    require(comb.metadata["selected_names"] == [lc[i].name for i in range(n) if got[i]], "selected names")
    tv = np.array(comb.metadata["target_values"])
    require(np.all((np.abs(tv - vals) <= tol + 1.01 * spread)), "target values", tv.tolist(), vals.tolist())
    rec.cls(att, "min" if low else "max", "segments" if c["segments"] else "cases")
    rec.mark(bool(got.any() and not got.all()))
    # no other selection does better (direct analysis of the selected loads)
    value = float(f @ vals)
    sgn = -1 if low else 1
    slack = tol * n * (abs(sel) + abs(uns)) + np.abs(vals[amb]).sum() * (abs(sel) + abs(uns))
    if sel >= uns:
        for bits in c["others"]:
            g = np.where([(bits >> i) & 1 for i in range(n)], sel, uns)
            require(sgn * float(g @ vals) <= sgn * value + slack, "another selection is worse for the target effect")
    if not case["D"]:
        r = comb.analyze().beam_results
        d = float(np.atleast_1d(r.at(x, (att,))[att])[0])
        require(abs(d - value) <= 1e-6 * mx * n * max(1, abs(sel) + abs(uns)), f"target effect {d} is not the sum of its cases {value}")
    # bound convenience methods
    xx, y = comb.response(response=att)
    e = sum(ff * a for ff, a in zip(f, at))
    require(np.all(np.abs(y - e) <= 1e-9 * mx * n * max(1, abs(sel), abs(uns))), "response of the bound combination")
    # envelopes of the same responses
    _, B = lc.response_matrix(att)
    neg, pos, _, _ = sign_selective_envelope(B, lc.load_positions())
    q = e if (sel, uns) == (1.0, 0.0) else None
    if q is not None:
        require(np.all(neg <= q + tol * n) and np.all(pos >= q - tol * n), "selected response outside the sign-selective envelope")
    if n >= c["k"]:
        an, ap, _, _ = additive_envelope(B, c["k"])
        require(np.all(an <= ap + tol), "additive envelopes cross")
        require(np.all(an >= neg - tol * n) and np.all(ap <= pos + tol * n), "k cases exceed the best selection")


@st.composite
def target_st(draw):
    case = draw(gen.beams(max_spans=4, settlements=False))
    n = draw(st.integers(1, 5))
    return {
        "beam": case,
        "segments": draw(st.sampled_from([0, 0, 0, 1, 2, 4])),
        "w": draw(gen.mags(40)),
        "cases": [draw(gen.load_matrix(case["L"], (1, 2, 3, 5), 1, 2)) for _ in range(n)],
        "x": draw(st.one_of(st.integers(0, 20).map(lambda k: k / 20), st.floats(0, 1).map(gen.r4))),
        "node": draw(st.integers(0, 12)),
        "sense": draw(st.sampled_from(["min", "negative", "hogging", "NEG", "max", "positive", "Sagging", "maximum"])),
        "response": draw(st.sampled_from(["M", "M", "V", "D", "R"])),
        "factors": draw(st.sampled_from([[1.0, 0.0], [1.0, 0.0], [1.5, 0.0], [1.35, 1.0], [1.0, -0.5]])),
        "others": draw(st.lists(st.integers(0, 2**16 - 1), min_size=3, max_size=8)),
        "k": draw(st.integers(1, 3)),
    }


def refusals(c, rec):
    from pycba import LoadCases, additive_envelope, sign_selective_envelope

    B = matrix(c)
    n = B.shape[0]
    case = c["beam"]
    gen.solved_reference(case, rc_min=1e-7)
    lc = LoadCases(gen.beam_analysis(case))
    lc.add("a", [[1, 1, 1.0]])
    Lt = sum(case["L"])
    rec.mark()
    for what, g in (
        ("more cases than there are", lambda: additive_envelope(B, n + 1)),
        ("no case", lambda: additive_envelope(B, 0)),
        ("a negative number of cases", lambda: additive_envelope(B, -1)),
        ("a vector of responses", lambda: additive_envelope(B[0], 1)),
        ("a vector of responses", lambda: sign_selective_envelope(B[0])),
        ("too few positions", lambda: sign_selective_envelope(B, [1] * (n + 1))),
        ("unknown sense", lambda: lc.target_combination("t", 0.5 * Lt, sense=c["sense"])),
        ("unknown response", lambda: lc.target_combination("t", 0.5 * Lt, response="Q")),
        ("a target left of the beam", lambda: lc.target_combination("t", -0.01 * Lt)),
        ("a target right of the beam", lambda: lc.target_combination("t", 1.01 * Lt)),
        ("no cases", lambda: LoadCases(lc.beam_model).target_combination("t", 0.5 * Lt)),
    ):
        try:
            g()
        except ValueError:
            continue
        require(False, what + " accepted")


def refusals_st():
    return st.fixed_dictionaries({"B": mats(), "ints": st.booleans(), "beam": gen.beams(max_spans=2), "sense": st.sampled_from(["", "up", "both", "m"])})


CHECK = Check(
    "C19",
    "non-trivial = 1 < k < n cases / responses of both signs / a target selecting some but not all cases",
    [
        Sub("additive", additive_st, additive, 2400, 40000),
        Sub("selective", selective_st, selective, 2400, 40000),
        Sub("target", target_st, target, 640, 12000),
        Sub("refusals", refusals_st, refusals, 80, 600),
    ],
    ["a case whose effect at the target is zero to round-off, or changes sign within one station of it, may be selected or not"],
)
