"""C18: load cases and combinations behave as the factored loads analysed directly."""
from copy import deepcopy

import numpy as np
from hypothesis import strategies as st

from checks.c13 import check_envelope
from harness import gen
from harness.core import Check, Sub, require

ATT = {"M": "M", "V": "V", "D": "D", "R": "R", "moment": "M", "Shear": "V", "deflection": "D", "displacement": "D", "rotation": "R"}


def template(c):
    """The beam definition handed to the load-case tools, in one of its accepted forms."""
    ba = gen.beam_analysis(c["beam"])
    if c["npts"]:
        ba.analyze(c["npts"])
    return ba.beam if c["as_beam"] else ba


def direct(c, LM, npts="template"):
    if npts == "template":
        npts = None if c["as_beam"] else c["npts"]
    return gen.analysed(c["beam"], npts, LM).beam_results


def factored(rows, f):
    out = []
    for r in rows:
        r = list(r)
        t = r[1]
        r[2] = r[2] * f
        if t == 5:
            r[3] = r[3] * f
        if t == 6:
            r[3:] = [k * f for k in r[3:]]
        out.append(r)
    return out


def npts_of(c):
    return c["npts"] if c["npts"] and not c["as_beam"] else 100


def scale(results, att):
    return max([np.abs(getattr(r.results, att)).max() for r in results] + [1e-30])


def near(a, b, tol, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape, f"{what}: shape {a.shape}, expected {b.shape}")
    require(a.size == 0 or np.all(np.abs(a - b) <= tol), f"{what}: not as the direct analysis")


def put(lc, name, row, how):
    """Add one load row to a named case through one of the documented routes."""
    i, t = row[0], row[1]
    target = lc if how % 3 == 0 else lc.case(name)
    args = (name,) if how % 3 == 0 else ()
    if how % 3 == 2:
        r = list(row)
        lc.add_load(name, r)
        r[2] = 1e9  # the caller's row stays the caller's
        return
    if t == 1:
        target.add_udl(*args, i, row[2])
    elif t == 2:
        target.add_pl(*args, i, row[2], row[3])
    elif t == 3:
        target.add_pudl(*args, i, row[2], row[3], row[4])
    elif t == 4:
        target.add_ml(*args, i, row[2], row[3])
    elif t == 5:
        if len(row) == 4:
            target.add_trap(*args, i, row[2], row[3])
        elif len(row) == 5:  # (the methods take a start and a cover)
            target.add_load(*args, list(row))
        else:
            target.add_trap(*args, i, row[2], row[3], row[4], row[5])
    else:
        target.add_ic(*args, i, list(row[2:]))


def combos(c, rec):
    from pycba import LoadCases, LoadCombination
    from pycba.load import LoadMatrix  # noqa: F401

    case = c["beam"]
    gen.solved_reference(case, rc_min=1e-6)
    tpl = template(c)
    lc = LoadCases(tpl)
    model = {}
    for k, rows in enumerate(c["cases"]):
        name = f"case {k}"
        rows = [list(r) for r in rows]
        how = c["how"][k % len(c["how"])]
        if how < 6:
            for r in rows:
                put(lc, name, r, how)
            if not rows:
                lc.add_case(name)
        else:
            mine = deepcopy(rows)
            lc.add(name, mine) if how == 6 else lc.set(name, mine)
            for r in mine:
                r[2] = -7e8
            mine.append([1, 1, 1e6])
        model[name] = rows
    n = len(model)
    f = [float(v) for v in c["factors"][:n]]
    if c["mapping"] == "name":
        F = {f"case {k}": v for k, v in enumerate(f) if v != 0.0}
    elif c["mapping"] == "index":
        F = {k: v for k, v in enumerate(f)}
    else:
        F = f if c["mapping"] == "list" else np.array(f)
    require(lc.to_LM() == model, "the stored load cases are not the loads added")
    comb = LoadCombination("ULS", F, metadata={"k": 1})
    res = [direct(c, rows) for rows in model.values()]
    rec.cls(f"cases{n}", "mapping " + c["mapping"])
    rec.mark(sum(1 for v, rows in zip(f, model.values()) if v and rows) >= 2)
    near(lc.factors(F), f, 0, "factor vector")
    near(comb.factor_vector(lc), f, 0, "factor vector of a combination")
    # responses
    resp = c["response"]
    att = ATT[resp]
    x, B = lc.response_matrix(resp)
    near(x, res[0].results.x, 0, "stations")
    sc = scale(res, att)
    near(B, [getattr(r.results, att) for r in res], 1e-9 * sc, "response matrix")
    tolc = 1e-9 * sc * (1 + sum(abs(v) for v in f))
    exp = sum(v * getattr(r.results, att) for v, r in zip(f, res))
    for nm, g in (
        ("combine", lambda: lc.combine(F, resp)),
        ("linear_combination", lambda: lc.linear_combination(comb, resp)),
        ("response", lambda: comb.response(lc, resp)),
    ):
        xx, y = g()
        near(xx, x, 0, nm + " stations")
        near(y, exp, tolc, nm)
    f2 = [f, [1.0] * n, [v * -0.5 for v in f]]
    _, Y = lc.combine(f2, resp)
    near(Y, [sum(v * getattr(r.results, att) for v, r in zip(ff, res)) for ff in f2], tolc * 2 + 1e-9 * sc * n, "several combinations at once")
    # loads and the analysis of the combined loads
    LM = [r for v, rows in zip(f, model.values()) if v for r in factored(rows, v)]
    npts = c["npts2"]
    dr = direct(c, LM, npts) if npts else direct(c, LM)
    fs = max([abs(r[2]) for r in LM] + [1e-30])
    got = lc.combined_loads(F)
    require(len(got) == len(LM) and all(len(a) == len(b) and list(a[:2]) == list(b[:2]) for a, b in zip(got, LM)), "combined loads", got, LM)
    for a, b in zip(got, LM):
        near(a, b, 1e-12 * np.maximum(np.abs(b), 1e-300), "combined loads")
    require(comb.to_LM(lc) == got, "loads of the combination")
    one = comb.to_load_case(lc)
    require(one.name == "ULS" and one.loads == got, "combination as a load case")
    require(tuple(one.loaded_spans) == tuple(sorted({int(r[0]) - 1 for r in got})), "spans loaded by the combination")
    for nm, g in (
        ("analyze_combination", lambda: lc.analyze_combination(F, npts).beam_results),
        ("analyze", lambda: comb.analyze(lc, npts).beam_results),
        ("analyse", lambda: comb.analyse(lc, npts=npts).beam_results),
    ):
        r = g()
        near(r.results.x, dr.results.x, 0, nm + " stations")
        for a in "MVDR":
            near(getattr(r.results, a), getattr(dr.results, a), 1e-9 * scale([dr], a), f"{nm} {a}")
        near(r.R, dr.R, 1e-9 * max(np.abs(dr.R).max() if dr.R.size else 0, 1e-30), nm + " reactions")
    check_envelope(comb.envelope(lc, npts), [dr], "envelope of a combination")
    check_envelope(lc.envelope(npts), [direct(c, rows, npts) if npts else direct(c, rows) for rows in model.values()], "envelope of the load cases")
    # superposition against the direct analysis
    if not any(v for v in (case["D"] or [])):
        r = direct(c, LM)
        # diagrams of imposed curvatures integrate with station-spacing accuracy
        ic = att in "DR" and any(q[1] == 6 for q in LM)
        rel = 10 / (npts_of(c) ** 2) if ic else 1e-7
        # a determinate beam answers an imposed curvature with round-off only
        F, T = gen.load_force(case, [q for rows in model.values() for q in rows]), float(sum(case["L"]))
        floor = 1e-12 * {"M": F * T, "V": F, "D": F * T**3 / gen.eimin(case), "R": F * T**2 / gen.eimin(case)}[att]
        near(exp, getattr(r.results, att), (rel * sc + floor) * (sum(abs(v) for v in f) + 1), f"{resp} of the combination against the direct analysis")
    # nothing stored or handed in has changed
    require(lc.to_LM() == model, "the stored load cases changed")
    cp = lc.to_LM()
    for rows in cp.values():
        rows.append([1, 1, 5.0])
        for r in rows:
            r[2] = 3e7
    got[:] = []
    require(lc.to_LM() == model, "editing a returned load matrix edits the stored case")
    require(comb.metadata == {"k": 1} and one.metadata == {"k": 1}, "metadata")


def mk_case(opts):
    return gen.beams(max_spans=4, **opts)


@st.composite
def combos_st(draw):
    opts = draw(st.sampled_from([{}, {}, {"timo": True}, {"found": True}, {"nonprismatic": True}]))
    case = draw(gen.beams(max_spans=3 if opts else 4, **opts))
    types = (1, 2, 3) if opts.get("found") else ((1, 2, 3, 4, 5) if opts else (1, 2, 3, 4, 5, 6))
    n = draw(st.integers(1, 4))
    return {
        "beam": case,
        "cases": [draw(gen.load_matrix(case["L"], types, 0, 3)) for _ in range(n)],
        "how": draw(st.lists(st.integers(0, 7), min_size=1, max_size=4)),
        "factors": draw(st.lists(st.sampled_from([0.0, 1.0, 1.35, -1.0, 0.5, -0.3, 2.0, 1e3]), min_size=n, max_size=n)),
        "mapping": draw(st.sampled_from(["list", "array", "name", "index"])),
        "response": draw(st.sampled_from(sorted(ATT))),
        "npts": draw(st.sampled_from([None, None, 8, 40])),
        "npts2": draw(st.sampled_from([None, None, 12])),
        "as_beam": draw(st.booleans()),
    }


# ------------------------------------------------------------ the collection --
def collection(c, rec):
    """A history of edits against an ordered-dictionary model."""
    from pycba import LoadCase, LoadCases

    case = c["beam"]
    n = len(case["L"])
    lc = LoadCases(gen.beam_analysis(case))
    model = {}  # name -> [rows, loaded_spans, metadata]
    trash = []
    for k, op in enumerate(c["ops"]):
        kind, name, rows, sp = op["op"], op["name"], [list(r) for r in op["rows"]], tuple(i % n for i in op["spans"])
        mine = deepcopy(rows)
        meta = {"tag": [k]} if op["meta"] else None
        mm = deepcopy(meta)
        trash += mine
        refuse = False
        try:
            if kind == "add":
                refuse = name in model
                ret = lc.add(name, mine, loaded_spans=sp, metadata=mm)
                model[name] = [rows, sp, meta]
            elif kind == "add_case":
                refuse = name in model
                ret = lc.add_case(name, mine)
                model[name] = [rows, (), None]
            elif kind == "set":
                ret = lc.set(name, mine, loaded_spans=sp, metadata=mm)
                model[name] = [rows, sp, meta]
            elif kind == "append":
                refuse = name in model
                obj = LoadCase(name, mine, sp, mm) if op["form"] % 2 else {"name": name, "loads": mine, "loaded_spans": sp, "metadata": mm}
                ret = lc.append(obj)
                model[name] = [rows, sp or tuple(sorted({r[0] - 1 for r in rows})), meta]
            elif kind == "append_list":
                name = f"LC {len(model) + 1}"
                refuse = name in model
                ret = lc.append(mine)
                model[name] = [rows, tuple(sorted({r[0] - 1 for r in rows})), None]
            elif kind == "extend":
                refuse = name in model
                lc.extend([LoadCase(name, mine, sp, mm)])
                ret = lc.case(name, create=False)
                model[name] = [rows, sp or tuple(sorted({r[0] - 1 for r in rows})), meta]
            elif kind == "case":
                ret = lc.case(name)
                model.setdefault(name, [[], (), None])
            elif kind == "no_create":
                refuse = name not in model
                ret = lc.case(name, create=False)
            else:  # rows through the helpers
                for r in rows:
                    put(lc, name, r, op["form"])
                ret = lc.case(name)
                model.setdefault(name, [[], (), None])
                model[name][0] = model[name][0] + rows
            require(not refuse, f"{kind} of {name!r} not refused")
            require(ret.name == name and ret is lc.case(name, create=False), f"{kind} returns another case")
            if mm is not None:
                mm["tag"].append("edited")
        except (ValueError, KeyError):
            require(refuse, f"{kind} of {name!r} refused")
            rec.cls("refused " + kind)
        for r in trash:
            r[2] = 1e12
        require(list(lc.names) == list(model), f"names after {kind}", lc.names, list(model))
        require(lc.to_LM() == {q: v[0] for q, v in model.items()}, f"loads after {kind}")
    require(len(lc) == len(model) and [q.name for q in lc] == list(model) and len(lc.cases) == len(model), "iteration")
    for j, (q, v) in enumerate(model.items()):
        require(lc[j].name == q and tuple(lc[j].loaded_spans) == v[1] and lc[j].metadata == v[2], f"case {q}", lc[j], v)
    require(lc.load_positions() == [1 << j for j in range(len(model))], "positions")
    rec.cls(f"ops{len(c['ops'])}")
    rec.mark(len(model) >= 2)
    if not model:
        try:
            lc.response_matrix()
        except ValueError:
            return
        require(False, "responses of no load cases")
    gen.solved_reference(case, rc_min=1e-6)
    _, B = lc.response_matrix("V")
    for j, v in enumerate(model.values()):
        r = gen.analysed(case, None, v[0]).beam_results.results.V
        near(B[j], r, 1e-9 * max(np.abs(r).max(), 1e-30), "response after the history")


@st.composite
def collection_st(draw):
    case = draw(gen.beams(max_spans=3))
    op = st.fixed_dictionaries(
        {
            "op": st.sampled_from(["add", "add_case", "set", "append", "append_list", "extend", "case", "no_create", "rows", "rows"]),
            "name": st.sampled_from(["A", "B", "LC 1", "LC 2", "wind"]),
            "rows": gen.load_matrix(case["L"], (1, 2, 3, 4, 5, 6), 0, 2),
            "spans": st.lists(st.integers(0, 3), max_size=2, unique=True).map(sorted),
            "meta": st.booleans(),
            "form": st.integers(0, 5),
        }
    )
    return {"beam": case, "ops": draw(st.lists(op, min_size=1, max_size=9))}


# ------------------------------------------------------------ generated loads --
def helpers(c, rec):
    """Global segments, span loads and patterned segments as the loads they stand for."""
    import pycba
    from pycba import LoadCase, LoadCases
    from harness import refbeam  # noqa: F401

    case = c["beam"]
    gen.solved_reference(case, rc_min=1e-6)
    ba = gen.beam_analysis(case)
    tpl = ba.beam if c["as_beam"] else ba
    L = case["L"]
    xs = np.concatenate([[0.0], np.cumsum(L)])
    w = c["w"]
    n = len(L)
    x0, x1 = sorted(c["seg"])
    x0, x1 = x0 * xs[-1], x1 * xs[-1]
    if c["snap"] < n:
        x0 = float(xs[c["snap"]])
    if c["snap2"] <= n:
        x1 = float(xs[c["snap2"]])
    x0, x1 = max(0.0, x0 + c["off"] * L[0]), min(xs[-1], x1 + c["off2"] * L[0])  # just beside a support
    nz = {"beam": case, "npts": None, "as_beam": False}

    def check(LM, spans_loaded, what):
        """spans_loaded = [(span, a, c)] as a partial UDL each"""
        ref = [[i + 1, 3, w, a, q] for i, a, q in spans_loaded]
        r = direct(nz, ref).results
        g = direct(nz, LM).results
        full = direct(nz, [[i + 1, 1, w] for i in range(n)])
        for a in "MVDR":
            near(getattr(g, a), getattr(r, a), 1e-6 * max(scale([full], a), 1e-30), f"{what} {a}")

    if x1 > x0 + 1e-6 * xs[-1]:
        over = []
        for i in range(n):
            a, b = max(x0, xs[i]), min(x1, xs[i + 1])
            if b - a > 1e-9:
                over.append((i, a - xs[i], b - a))
        for LM in (
            LoadCase("s").add_segment_udl(tpl, x0, x1, w).to_LM(),
            LoadCases(tpl).add_segment_udl("s", x0, x1, w).to_LM(),
        ):
            require({r[0] for r in LM} == {i + 1 for i, _, _ in over}, "spans under a segment", LM)
            check(LM, over, "segment UDL")
            tot = sum(r[2] * (L[r[0] - 1] if r[1] == 1 else r[4]) for r in LM)
            require(abs(tot - w * (x1 - x0)) <= 1e-9 * abs(w) * xs[-1], "total load of a segment")
        rec.mark(len(over) > 1)
        rec.cls(f"segment over {len(over)} spans")
    for bad in ((x1, x0), (-0.1, x1), (x0, xs[-1] + 0.1)):
        if bad[0] == bad[1] == x0:
            continue
        if bad == (x1, x0) and x1 < x0:
            continue
        try:
            LoadCase("s").add_segment_udl(tpl, *bad, w)
        except ValueError:
            continue
        require(False, f"segment {bad} accepted")
    # all spans
    whole = [(i, 0.0, L[i]) for i in range(n)]
    check(LoadCase("s").add_all_spans_udl(tpl, w).to_LM(), whole, "all spans")
    check(LoadCases(tpl).add_all_spans_udl("s", w).to_LM(), whole, "all spans")
    lcs = pycba.make_span_udl_cases(tpl, w) if c["make"] else LoadCases(tpl)
    if not c["make"]:
        lcs.add_span_udl(w)
    require(len(lcs) == n, "one case per span")
    for i, q in enumerate(lcs):
        check(q.to_LM(), [whole[i]], f"span {i + 1} load")
        require(tuple(q.loaded_spans) == (i,) and q.name == f"UDL on span {i + 1}", "span case")
    # segments
    m = c["nseg"]
    pat = pycba.make_patterned_udl(tpl, w, m)
    require(len(pat) == n * m and len(set(pat.names)) == n * m, "number of segments")
    pos = pat.load_positions()
    require(pos == [1 << j for j in range(n * m)], "segment positions")
    end = 0.0
    for j, q in enumerate(pat):
        i, k = divmod(j, m)
        a, b = q.metadata["x0"], q.metadata["x1"]
        require(abs(a - end) <= 1e-9 * xs[-1] and abs(b - (xs[i] + L[i] * (k + 1) / m)) <= 1e-9 * xs[-1], f"segment {j} spans [{a}, {b}]")
        end = b
        require(tuple(q.loaded_spans) == (i,) and q.metadata["span"] == i, "segment span")
    j = c["pick"] % (n * m)
    i, k = divmod(j, m)
    check(pat[j].to_LM(), [(i, L[i] * k / m, L[i] / m)], "one segment")
    check(pat.combined_loads([1.0] * (n * m)), whole, "all segments together")
    for bad in (0, -1, 2.5, True, "3"):
        try:
            pycba.make_patterned_udl(tpl, w, bad)
        except ValueError:
            continue
        require(False, f"{bad!r} segments accepted")


@st.composite
def helpers_st(draw):
    return {
        "beam": draw(gen.beams(max_spans=4, settlements=False)),
        "as_beam": draw(st.booleans()),
        "w": draw(gen.mags(60)),
        "seg": draw(st.tuples(st.floats(0, 1), st.floats(0, 1)).map(lambda t: [round(v, 3) for v in t])),
        "snap": draw(st.integers(0, 8)),
        "off": draw(st.sampled_from([0.0, 0.0, 0.0, 3e-6, -3e-6])),
        "off2": draw(st.sampled_from([0.0, 0.0, 0.0, 3e-6, -3e-6])),
        "snap2": draw(st.integers(1, 10)),
        "make": draw(st.booleans()),
        "nseg": draw(st.integers(1, 7)),
        "pick": draw(st.integers(0, 60)),
    }


def refusals(c, rec):
    from pycba import LoadCases, LoadCombination, LoadCase

    case = c["beam"]
    ba = gen.beam_analysis(case)
    lc = LoadCases(ba)
    for k in range(c["n"]):
        lc.add_udl(f"c{k}", 1, 1.0 + k)
    n = c["n"]
    rec.mark()
    bad = [
        (ValueError, "too few factors", lambda: lc.factors([1.0] * (n - 1))),
        (ValueError, "too many factors", lambda: lc.combine([1.0] * (n + 1))),
        (ValueError, "factor rows of the wrong length", lambda: lc.factors([[1.0] * (n + 1)] * 2)),
        (ValueError, "3D factors", lambda: lc.factors(np.ones((1, 1, n)))),
        (KeyError, "unknown name", lambda: lc.factors({"nope": 1.0})),
        (KeyError, "unknown name", lambda: LoadCombination("x", {"nope": 1.0}).to_LM(lc)),
        (ValueError, "2D factors as one load matrix", lambda: lc.combined_loads([[1.0] * n] * 2)),
        (ValueError, "unbound combination", lambda: LoadCombination("x", [1.0] * n).to_LM()),
        (ValueError, "unbound combination", lambda: LoadCombination("x", [1.0] * n).analyze()),
        (ValueError, "unbound combination", lambda: LoadCombination("x", [1.0] * n).factor_vector()),
        (ValueError, "unknown response", lambda: lc.response_matrix(c["resp"])),
        (KeyError, "unknown case", lambda: lc.case("nope", create=False)),
        (ValueError, "trapezium without its length", lambda: LoadCase("t").add_trap(1, 1.0, 2.0, a=0.1)),
        (TypeError, "not a beam", lambda: LoadCase("t").add_all_spans_udl([3.0, 4.0], 2.0)),
    ]
    for exc, what, g in bad:
        try:
            g()
        except exc:
            continue
        except Exception as e:
            require(False, f"{what}: {type(e).__name__} instead of {exc.__name__}")
        require(False, f"{what} accepted")
    require(len(lc) == n, "a refusal changed the collection")


def refusals_st():
    return st.fixed_dictionaries({"beam": gen.beams(max_spans=2, settlements=False), "n": st.integers(2, 4), "resp": st.sampled_from(["", "N", "MV", "mom", "theta"])})


CHECK = Check(
    "C18",
    "non-trivial = at least two loaded cases with non-zero factors / at least two stored cases / a segment over more than one span",
    [
        Sub("combos", combos_st, combos, 480, 10000),
        Sub("collection", collection_st, collection, 640, 12000),
        Sub("helpers", helpers_st, helpers, 240, 5000),
        Sub("refusals", refusals_st, refusals, 60, 400),
    ],
    ["template settlements apply once per analysed case, as documented for the template model"],
)
