"""C22: point queries, per-span reductions and exports against the stored diagrams."""
import contextlib
import io
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from harness import cmp, gen
from harness.core import Check, SkipCase, Sub, require

FX = ("M", "V", "R", "D")
ENV = ("Mmax", "Mmin", "Vmax", "Vmin", "Vco_Mmax", "Vco_Mmin", "Mco_Vmax", "Mco_Vmin")


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c22_")
    try:
        yield d
    finally:
        shutil.rmtree(d)


def where():
    """A place: (member fraction, member fraction, kind)."""
    return st.tuples(st.integers(0, 10**6), st.floats(0, 1).map(gen.r4), st.sampled_from(["station", "between", "between", "node", "after", "before"]))


@st.composite
def cases(draw):
    k = draw(st.integers(0, 6))
    case = draw(gen.beams(max_spans=4, nonprismatic=k in (0, 1), found=k == 2, timo=k == 3, types=(1, 2, 3, 4, 5)))
    return {
        "beam": case,
        "npts": draw(st.sampled_from([None, 10, 37, 64])),
        "xs": draw(st.lists(where(), min_size=3, max_size=8)),
        "attrs": draw(st.lists(st.sampled_from(FX), min_size=1, max_size=4, unique=True)),
        "fmt": draw(st.sampled_from([None, None, ";", "\t"])),
        "pts": draw(st.lists(st.floats(0.02, 0.98).map(gen.r4), max_size=2)),
    }


def place(members, w):
    """The global coordinate of a place and the expected value per stored array.

    members: list of evaluation stations (global x) per span."""
    k, f, kind = w
    n = len(members)
    i = k % n
    x = members[i]
    # stations at different coordinates, first of coincident ones
    if kind == "node":
        g = float(x[0])
    elif kind == "station":
        g = float(x[int(f * (len(x) - 1))])
    elif kind == "after":
        g = float(x[0] + f * (x[1] - x[0]))
    elif kind == "before":
        g = float(x[-1] - f * (x[-1] - x[-2]))
    else:
        g = float(x[0] + f * (x[-1] - x[0]))
    for i, x in enumerate(members):  # the span that ends at a node is the left-hand one
        if g <= x[-1]:
            break
    return g, i, kind


def expected(x, y, g):
    """Linear interpolation on one span's stations, as the range over coincident ones."""
    eps = 1e-12 * (x[-1] - x[0] + abs(x[-1]))  # mesh points of a foundation span coincide
    here = np.abs(x - g) <= eps
    if np.any(here):
        return y[here].min(), y[here].max()
    b = int(np.searchsorted(x, g, "left"))
    a = b - 1
    out = []
    for p in np.nonzero(np.abs(x - x[a]) <= eps)[0]:
        for q in np.nonzero(np.abs(x - x[b]) <= eps)[0]:
            t = (g - x[a]) / (x[b] - x[a])
            out.append(y[p] + t * (y[q] - y[p]))
    return min(out), max(out)


def spanwise(b):
    return [np.asarray(m.x, float)[1:-1] for m in b.vRes]


def inspan(b, i, name):
    return np.asarray(getattr(b.vRes[i], name), float)[1:-1]


def within(got, rng, sc, what):
    require(np.isfinite(got) and rng[0] - 1e-9 * sc <= got <= rng[1] + 1e-9 * sc, f"{what}: {got:.10g}, the diagram has {rng[0]:.10g}")


def query(c, rec):
    case = c["beam"]
    ref = gen.solved_reference(case, rc_min=1e-7)
    from pycba import BeamAnalysis

    ba = gen.beam_analysis(case)
    with contextlib.redirect_stdout(io.StringIO()):
        require(ba.at(0.0) is None and ba.to_dataframe() is None and ba.to_csv("/nonexistent/x.csv") is None, "results reported before any analysis")
    kw = {} if c["npts"] is None else {"npts": c["npts"]}
    ba.analyze(**kw)
    b = ba.beam_results
    gen.classify(case, rec)
    rec.mark()
    xs = spanwise(b)
    L = np.concatenate([[0.0], np.cumsum(case["L"])])
    sc = {q: max(1e-300, np.max(np.abs(np.asarray(getattr(b.results, q))))) for q in FX}
    F, M, d, th = cmp.scales(ref)
    for w in c["xs"]:
        g, i, kind = place(xs, w)
        rec.cls("query " + kind)
        r = ba.at(g)
        require(set(r) == set(FX), f"at() returned {sorted(r)}")
        r2 = b.at(g, tuple(c["attrs"]))
        require(list(r2) == list(c["attrs"]), f"at() with attrs {c['attrs']} returned {list(r2)}")
        for q in FX:
            within(r[q], expected(xs[i], inspan(b, i, q), g), sc[q], f"{q} at x={g:.10g}")
            if q in r2:
                require(r2[q] == r[q], f"at({g}) depends on the attributes asked for")
        # and the true value, within the resolution of the stations
        if case.get("kf"):
            continue
        s = np.clip(g - L[i], 0, case["L"][i])
        j = min(max(int(np.searchsorted(xs[i], g)), 1), len(xs[i]) - 1)
        t = np.clip(xs[i][[j - 1, j]] - L[i], 0, case["L"][i])
        e = 1e-8 * case["L"][i]
        grid = np.clip(np.concatenate([np.linspace(t[0], t[1], 5), [t[0] - e, t[0] + e, t[1] - e, t[1] + e]]), 0, case["L"][i])
        for q, k, tol in (("V", 0, F), ("M", 1, M)):
            v = np.concatenate([ref.VM(i, grid, -1)[k], ref.VM(i, grid, 1)[k]])
            rt = max(1e-7, 1e-13 / ref.rc)
            spread = v.max() - v.min()
            require(v.min() - spread - rt * tol <= r[q] <= v.max() + spread + rt * tol, f"{q} at x={g:.10g} is {r[q]:.8g}, the exact values around it are {v.min():.8g}..{v.max():.8g}")
    # deflection curve: one value per station, no closure points
    x, y = b.deflection_curve()
    cmp.close(x, np.concatenate(xs), 0.0, "stations of the deflection curve")
    cmp.close(y, np.concatenate([inspan(b, i, "D") for i in range(len(xs))]), 0.0, "deflection curve")


def export(c, rec):
    case = c["beam"]
    gen.solved_reference(case, rc_min=1e-7)
    ba = gen.beam_analysis(case)
    ba.analyze(**({} if c["npts"] is None else {"npts": c["npts"]}))
    b = ba.beam_results
    rec.mark()
    rec.cls("delimiter" if c["fmt"] else "default format")
    cols = ("x",) + ("M", "V", "R", "D")
    arr = [np.concatenate([np.asarray(getattr(m, q), float) for m in b.vRes]) for q in cols]
    for q, a in zip(cols, arr):
        cmp.close(getattr(b.results, q), a, 0.0, f"whole-beam {q} against the members'")
    kw = {} if c["fmt"] is None else {"delimiter": c["fmt"]}
    with scratch() as d:
        for who, o in (("analysis", ba), ("results", b)):
            p = os.path.join(d, who + ".csv")
            require(o.to_csv(p, **kw) == p, "to_csv does not return the path")
            head = open(p).readline().strip()
            require(head == "x,M,V,R,D", f"header {head!r}")
            back = np.loadtxt(p, delimiter=c["fmt"] or ",", skiprows=1, ndmin=2)
            cmp.close(back, np.column_stack(arr), 0.0, f"values read back from {who}.to_csv")
    for o in (ba, b):
        df = o.to_dataframe()
        require(list(df.columns) == list(cols), f"data frame columns {list(df.columns)}")
        for q, a in zip(cols, arr):
            cmp.close(df[q].to_numpy(), a, 0.0, f"data frame column {q}")


def envelopes(c, rec):
    from pycba import Envelopes

    case = c["beam"]
    gen.solved_reference(case, rc_min=1e-7)
    res = []
    for f in (1.0, -0.6):
        LM = [[r[0], r[1], r[2] * f] + list(r[3:]) if r[1] != 5 else [r[0], 5, r[2] * f, r[3] * f] + list(r[4:]) for r in case["LM"]]
        if f < 0:
            LM = LM[: max(1, len(LM) - 1)]
        res.append(gen.analysed(dict(case, D=None), npts=c["npts"], LM=LM).beam_results)
    env = Envelopes(list(res))
    if c["pts"]:
        env = env | env
    rec.mark()
    xs = spanwise(res[0])
    pad = [len(m.x) for m in res[0].vRes]
    offs = np.concatenate([[0], np.cumsum(pad)])
    sc = {q: max(1e-300, np.max(np.abs(getattr(env, q)))) for q in ENV}
    for w in c["xs"]:
        g, i, kind = place(xs, w)
        rec.cls("query " + kind)
        attrs = ENV if w[0] % 2 else ("Mmax", "Mmin", "Vmax", "Vmin")
        r = env.at(g, attrs) if w[0] % 2 else env.at(g)
        require(set(r) == set(attrs), f"at() returned {sorted(r)}")
        for q in attrs:
            y = np.asarray(getattr(env, q), float)[offs[i] : offs[i + 1]][1:-1]
            within(r[q], expected(xs[i], y, g), sc[q], f"{q} at x={g:.10g}")
    for q in ENV:
        a = np.asarray(getattr(env, q), float)
        chunks = [a[offs[i] : offs[i + 1]] for i in range(len(pad))]
        raw = env.per_span(q, reduce="none")
        require(len(raw) == len(chunks) and all(np.array_equal(u, v) for u, v in zip(raw, chunks)), f"per_span('{q}', 'none') is not the split of the stations")
        for how in ("auto", "max", "min"):
            f = np.min if how == "min" or (how == "auto" and q.endswith("min")) else np.max
            cmp.close(env.per_span(q, reduce=how), np.array([f(u) for u in chunks]), 0.0, f"per_span('{q}', '{how}')")
    cmp.close(env.per_span(), env.per_span("Mmax", "max"), 0.0, "per_span default")
    try:
        env.per_span("Mmax", reduce="mean")
        require(False, "an unknown reduction was accepted")
    except ValueError:
        pass
    attrs = tuple(q for k, q in enumerate(ENV) if (c["xs"][0][0] >> k) & 1) or ENV[:1]
    with scratch() as d:
        for at in (None, attrs):
            use = at or ("Mmax", "Mmin", "Vmax", "Vmin")
            p = os.path.join(d, "e.csv")
            kw = {} if at is None else {"attrs": at}
            require(env.to_csv(p, **kw) == p, "to_csv does not return the path")
            require(open(p).readline().strip() == ",".join(("x",) + use), "header of the envelope file")
            want = np.column_stack([env.x] + [getattr(env, q) for q in use])
            cmp.close(np.loadtxt(p, delimiter=",", skiprows=1, ndmin=2), want, 0.0, "envelope values read back")
            df = env.to_dataframe(**kw)
            require(list(df.columns) == ["x"] + list(use), f"columns {list(df.columns)}")
            cmp.close(df.to_numpy(), want, 0.0, "envelope data frame")


CHECK = Check(
    "C22",
    "non-trivial = a stable analysed beam was queried or exported (always)",
    [
        Sub("query", cases, query, 1200, 14000),
        Sub("export", cases, export, 240, 3000),
        Sub("envelopes", cases, envelopes, 500, 6000),
    ],
    ["coordinates lie on the beam"],
)
