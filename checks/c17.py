"""C17: algebra of envelopes."""
from copy import deepcopy

import numpy as np
from hypothesis import strategies as st

from checks.c13 import check_envelope
from harness import gen
from harness.core import Check, Sub, require

ATTR = ("Vmax", "Vmin", "Mmax", "Mmin", "Vco_Mmax", "Vco_Mmin", "Mco_Vmax", "Mco_Vmin", "Rmax", "Rmin", "Rmaxval", "Rminval")
EXT = ("Vmax", "Vmin", "Mmax", "Mmin", "Rmaxval", "Rminval")


def snap(e):
    return {a: np.array(getattr(e, a), float) for a in ATTR} | {"x": np.array(e.x), "nres": e.nres, "npts": e.npts, "nsup": e.nsup}


def same(a, b, tol, what, attrs=ATTR):
    for q in attrs:
        require(a[q].shape == b[q].shape, f"{what}: shape of {q} is {a[q].shape}, expected {b[q].shape}")
        require(a[q].size == 0 or np.all(np.abs(a[q] - b[q]) <= tol), f"{what}: {q} is not as expected")


def groups(c):
    """The results of each group of load cases, and the envelope of each group."""
    from pycba import Envelopes

    case = c["beam"]
    gen.solved_reference(case, rc_min=1e-6)
    out = []
    for g in c["groups"]:
        res = []
        for LM in g:
            ba = gen.analysed(dict(case, D=None) if not c["D"] else case, npts=c["npts"], LM=LM)
            res.append(ba.beam_results)
        out.append((res, Envelopes(list(res))))
    return out


def groups_st(max_groups=4, extra=None):
    def rest(case):
        d = {
            "beam": st.just(case),
            "groups": st.lists(st.lists(gen.load_matrix(case["L"], (1, 2, 3), 0, 2), min_size=1, max_size=3), min_size=1, max_size=max_groups),
            "npts": st.sampled_from([None, 10, 25]),
            "D": st.booleans(),
        }
        d.update(extra or {})
        return st.fixed_dictionaries(d)

    return gen.beams(max_spans=3, types=(1, 2)).flatmap(rest)


def ref_envelope(results):
    from pycba import Envelopes

    return Envelopes(results)


def algebra(c, rec):
    from pycba import Envelopes

    G = groups(c)
    envs = [e for _, e in G]
    results = [r for g, _ in G for r in g]
    before = [snap(e) for e in envs]
    M = max(np.abs(r.results.M).max() for r in results) + 1e-12
    V = max(np.abs(r.results.V).max() for r in results) + 1e-12
    R = max([np.abs(r.R).max() for r in results if r.R.size] + [1e-12])
    tol = 1e-9 * (M + V + R) * len(envs)
    nres = {e.nres for e in envs}
    rec.cls(f"groups{len(envs)}", "equal histories" if len(nres) == 1 else "unequal histories")
    rec.mark(len(envs) > 1)
    for res, e in G:
        check_envelope(e, res, "envelope of a group")
    # envelope of everything
    comb = Envelopes.combine(envs) if c["default"] else Envelopes.combine(envs, mode="envelope")
    exp = {}
    for q in ("Vmax", "Mmax", "Rmaxval"):
        exp[q] = np.max([b[q] for b in before] + [np.zeros_like(before[0][q])], axis=0)
    for q in ("Vmin", "Mmin", "Rminval"):
        exp[q] = np.min([b[q] for b in before] + [np.zeros_like(before[0][q])], axis=0)
    got = snap(comb)
    same(got, exp, tol, "combine", EXT)
    X, Y = np.array([r.results.M for r in results]), np.array([r.results.V for r in results])
    for nm, A, B, co in (("Mmax", X, Y, "Vco_Mmax"), ("Mmin", X, Y, "Vco_Mmin"), ("Vmax", Y, X, "Mco_Vmax"), ("Vmin", Y, X, "Mco_Vmin")):
        att = np.abs(A - exp[nm][None, :]) <= tol
        ok = np.any(att & (np.abs(B - got[co][None, :]) <= tol), axis=0) | ((np.abs(exp[nm]) <= tol) & (np.abs(got[co]) <= tol))
        require(np.all(ok), f"combine: {co} does not coexist with {nm}")
    if len(nres) == 1:
        same(got, {"Rmax": np.max([b["Rmax"] for b in before], axis=0), "Rmin": np.min([b["Rmin"] for b in before], axis=0)}, tol, "combine", ("Rmax", "Rmin"))
    else:
        require(not np.any(got["Rmax"]) and not np.any(got["Rmin"]), "combine keeps a reaction history for differing numbers of analyses")
    # sum of everything
    tot = snap(Envelopes.combine(envs, mode="sum"))
    for q in EXT:
        same(tot, {q: np.sum([b[q] for b in before], axis=0)}, tol, "sum", (q,))
    if len(nres) == 1:
        for q in ("Rmax", "Rmin"):
            same(tot, {q: np.sum([b[q] for b in before], axis=0)}, tol, "sum", (q,))
    else:
        require(not np.any(tot["Rmax"]) and not np.any(tot["Rmin"]), "sum keeps a reaction history for differing numbers of analyses")
    # operators, order, idempotence
    perm = [envs[i % len(envs)] for i in c["perm"]] + envs[::-1]
    same(snap(Envelopes.combine(perm)), exp, tol, "combine in another order", EXT)
    a, b = envs[0], envs[-1]
    same(snap(a | b), snap(Envelopes.combine([a, b])), 0.0, "a | b")
    same(snap(a + b), snap(Envelopes.combine([a, b], "sum")), 0.0, "a + b")
    same(snap(b | a), snap(a | b), tol, "b | a", EXT + (("Rmax", "Rmin") if a.nres == b.nres else ()))
    same(snap(b + a), snap(a + b), tol, "b + a", EXT)
    same(snap(a | a), snap(a), tol, "a | a")
    acc = a
    for e in envs[1:]:
        acc = acc | e
    same(snap(acc), exp, tol, "a | b | c", EXT)
    if len(nres) > 1:
        require(not np.any(acc.Rmax) and not np.any(acc.Rmin), "a chain of merges brings back a dropped reaction history")
    elif len(envs) > 1:
        same(snap(acc), got, tol, "a | b | c", ("Rmax", "Rmin"))
    # zero element
    z = Envelopes.zero_like(a)
    sz = snap(z)
    require(all(not np.any(sz[q]) for q in ATTR) and z.npts == a.npts and z.nsup == a.nsup and np.array_equal(z.x, a.x), "zero_like is not zero")
    same(snap(z | a), before[0], tol, "zero | a")
    same(snap(z + a), before[0], tol, "zero + a", EXT + ("Rmax", "Rmin"))
    for e, s in zip(envs, before):
        same(snap(e), s, 0.0, "an operand afterwards")
        require(e.nres == s["nres"] and e.npts == s["npts"], "an operand afterwards")
    # in place
    m = deepcopy(a)
    require(m.augment(b) is None, "augment returns something")
    same(snap(m), snap(a | b), 0.0, "augment")
    m = deepcopy(a)
    m.sum(b)
    same(snap(m), snap(a + b), tol, "in-place sum", EXT + ("Rmax", "Rmin"))
    same(snap(b), before[-1], 0.0, "the augmenting envelope afterwards")


def algebra_st():
    return groups_st(4, {"perm": st.lists(st.integers(0, 3), max_size=3), "default": st.booleans()})


def merged(kind, m, o):
    """Model of augmenting (or adding to) m with o, in place."""
    up, lo = (np.maximum, np.minimum) if kind == "envelope" else (np.add, np.add)
    keep = m["nres"] == o["nres"] and m["hist"] and o["hist"]
    new = {q: (up if "max" in q else lo)(m[q], o[q]) for q in EXT}
    for q in ("Rmax", "Rmin"):
        new[q] = (up if "max" in q else lo)(m[q], o[q]) if keep else np.zeros_like(m[q])
    return dict(new, hist=keep, nres=m["nres"])


def zeroed(m):
    return {q: np.zeros_like(m[q]) for q in EXT + ("Rmax", "Rmin")} | {"hist": True, "nres": m["nres"]}


def history(c, rec):
    """Any sequence of operations on a pool of envelopes against a model of each."""
    from pycba import Envelopes

    pool = [e for _, e in groups(c)]
    model = [{q: np.array(getattr(e, q), float) for q in EXT + ("Rmax", "Rmin")} | {"hist": True, "nres": e.nres} for e in pool]
    size = max(max(np.abs(m[q]).max() if m[q].size else 0.0 for q in EXT) for m in model) + 1e-12
    done = 0
    for op, i, j, k in c["ops"]:
        i, j, k = i % len(pool), j % len(pool), k % len(pool)
        if size > 1e12:
            break
        what = f"{op} of {i}, {j}, {k}"
        if op in ("or", "add", "or3", "add3", "self"):
            idx = [i, i] if op == "self" else [i, j] + ([k] if op.endswith("3") else [])
            kind = "sum" if op.startswith("add") else "envelope"
            if len(idx) == 3:
                new = Envelopes.combine([pool[x] for x in idx], mode=kind)
            else:
                new = pool[idx[0]] + pool[idx[1]] if kind == "sum" else pool[idx[0]] | pool[idx[1]]
            m = zeroed(model[idx[0]])
            for x in idx:
                m = merged(kind, m, model[x])
            pool.append(new)
            model.append(m)
        elif op == "zero":
            pool.append(Envelopes.zero_like(pool[i]))
            model.append(zeroed(model[i]))
        else:
            getattr(pool[i], op)(pool[j])
            model[i] = merged("sum" if op == "sum" else "envelope", model[i], model[j])
        size = max([size] + [np.abs(m[q]).max() for m in model[-1:] + [model[i]] for q in EXT if m[q].size])
        done += 1
        rec.cls(op)
        for n, (e, m) in enumerate(zip(pool, model)):
            for q in EXT + ("Rmax", "Rmin"):
                g = np.asarray(getattr(e, q), float)
                require(g.shape == m[q].shape and (g.size == 0 or np.all(np.abs(g - m[q]) <= 1e-11 * size)), f"after {what}: {q} of envelope {n} is not as the operations so far make it")
    rec.mark(done > 1)


def history_st():
    op = st.tuples(st.sampled_from(["or", "add", "or3", "add3", "self", "zero", "augment", "augment", "sum"]), st.integers(0, 7), st.integers(0, 7), st.integers(0, 7))
    return groups_st(3, {"ops": st.lists(op, min_size=1, max_size=8)})


def adapter(c, rec):
    """A single analysed beam as an envelope; refusals."""
    from pycba import BeamAnalysis, Envelopes

    case = c["beam"]
    ba = gen.beam_analysis(case)
    try:
        Envelopes.from_beam_analysis(ba)
    except ValueError:
        pass
    else:
        require(False, "envelope of an unanalysed beam")
    gen.solved_reference(case, rc_min=1e-7)
    ba.analyze()
    e = Envelopes.from_beam_analysis(ba)
    check_envelope(e, [ba.beam_results], "single analysis")
    rec.mark()
    for bad in ([], ):
        try:
            Envelopes.combine(bad)
        except ValueError:
            pass
        else:
            require(False, "combine of nothing accepted")
    try:
        Envelopes.combine([e], mode=c["mode"])
    except ValueError:
        pass
    else:
        require(False, f"mode {c['mode']!r} accepted")
    # another beam
    n = len(case["L"]) + 1
    other = BeamAnalysis([4.0] * n, 1e4, [-1, 0] * (n + 1), LM=[[1, 1, 3.0]])
    other.analyze()
    o = Envelopes.from_beam_analysis(other)
    sup = BeamAnalysis(list(case["L"]), 1e4, [-1, -1] * (n - 1) + [-1, -1 if e.nsup != 2 * n else 0], LM=[[1, 1, 3.0]])
    sup.analyze()
    p = Envelopes.from_beam_analysis(sup)
    s0 = snap(e)
    for q in (o, p):
        if q.npts == e.npts and q.nsup == e.nsup:
            continue
        for f in (lambda: e | q, lambda: e + q, lambda: e.augment(q), lambda: e.sum(q), lambda: Envelopes.combine([e, q])):
            try:
                f()
            except ValueError:
                continue
            require(False, "envelopes of different beams combined")
    same(snap(e), s0, 0.0, "after refused combinations")


def adapter_st():
    return st.fixed_dictionaries({"beam": gen.beams(max_spans=3), "mode": st.sampled_from(["max", "", "Envelope", "add", None])})


CHECK = Check(
    "C17",
    "non-trivial = at least two envelopes combined / two operations carried out",
    [
        Sub("algebra", algebra_st, algebra, 1200, 20000),
        Sub("history", history_st, history, 500, 10000),
        Sub("adapter", adapter_st, adapter, 250, 3000),
    ],
    ["coincident effects: any value coexisting with the extreme is accepted"],
)
