"""C27: every accepted way of describing the same model, loads or crossing gives the same results."""
import numpy as np
from hypothesis import strategies as st

from harness import cmp, gen, moving
from harness.core import Check, Sub, require

NAMES = {
    (-1, 0): ["p", "pin", "pinned", "r", "roller"],
    (-1, -1): ["e", "encastre", "fixed", "clamped"],
    (0, 0): ["f", "free"],
}
TYPES = {1: "FF", 2: "FP", 3: "PF", 4: "PP"}


def styled(draw, s):
    """A name in some letter case, perhaps with blanks around it."""
    s = draw(st.sampled_from([s, s, s.upper(), s.capitalize()]))
    return draw(st.sampled_from([s, s, s, " " + s, s + " "]))


@st.composite
def cases(draw):
    k = draw(st.integers(0, 9))
    types = (1, 2, 3) if k == 2 else draw(st.sampled_from([(1, 2, 3, 4, 5), (1, 2, 3, 4, 5, 6)]))
    case = draw(gen.beams(max_spans=4, nonprismatic=k in (0, 1), found=k == 2, timo=k in (3, 4), types=types))
    n = len(case["L"])
    if draw(st.integers(0, 2)) == 0:  # one rigidity for all spans
        L, E = case["L"][0], case["EI"][0]
        case["L"] = [L] * n
        case["EI"] = [E] * n
        if case.get("GA"):
            g = [x for x in case["GA"] if x is not None and not (isinstance(x, list) and abs(x[-1]["x"][-1] - L) > 1e-9)]
            case["GA"] = [g[0] if g else 10 * (E if not isinstance(E, list) else 1e5) / L**2] * n
        if case.get("kf"):
            case["kf"] = [[x for x in case["kf"] if x is not None][0]] * n
            case["et"] = [1] * n  # (foundation spans must be fixed-fixed)
        for r in case["LM"]:  # positions stay on the (new) member
            i = int(r[0]) - 1
            if r[1] in (2, 4):
                r[3] = min(r[3], L)
            elif r[1] == 3 or (r[1] == 5 and len(r) > 4):
                k = 3 if r[1] == 3 else 4
                r[k] = min(r[k], 0.9 * L)
    sup = []
    for i in range(n + 1):
        p = (case["R"][2 * i], case["R"][2 * i + 1])
        nm = NAMES.get(p)
        sup.append(styled(draw, draw(st.sampled_from(nm))) if nm and draw(st.integers(0, 3)) else list(p))
    one = lambda *a: draw(st.sampled_from(a))
    return {
        "beam": case,
        "sup": sup,
        "use_sup": draw(st.booleans()),
        "L": one("list", "tuple", "array", "int"),
        "EI": one("scalar", "scalar", "list", "tuple", "array", "np64"),
        "GA": one("scalar", "list", "tuple", "array"),
        "kf": one("scalar", "list", "array"),
        "R": one("list", "array", "tuple", "float"),
        "D": one("list", "none", "array"),
        "et": [draw(st.sampled_from(["code", "enum", "name", "name", "float"])) for _ in range(n)],
        "etname": [styled(draw, TYPES[e]) for e in case["et"]],
        "etkind": one("list", "list", "array", "column", "none"),
        "LM": one("ctor", "set", "add", "add", "split", "beam", "rows"),
        "ints": draw(st.booleans()),
        "order": draw(st.booleans()),
    }


def as_kind(v, kind):
    if kind == "tuple":
        return tuple(v)
    if kind == "array":
        return np.array(v) if not any(x is None or not isinstance(x, (int, float)) for x in v) else np.array(v, dtype=object)
    if kind == "float":
        return [float(x) for x in v]
    if kind == "int":
        return [int(x) if float(x).is_integer() else x for x in v]
    return list(v)


def same(v):
    return all(a == v[0] for a in v)


def variant(c):
    import pycba as cba

    case = c["beam"]
    n = len(case["L"])
    conv = lambda v: gen.section(v) if isinstance(v, list) else v
    kw = {"L": as_kind(case["L"], c["L"])}
    EI = [conv(e) for e in case["EI"]]
    if c["EI"] in ("scalar", "np64") and same(case["EI"]):
        kw["EI"] = EI[0]
        if c["EI"] == "np64" and not isinstance(EI[0], cba.SectionEI):
            kw["EI"] = np.int64(EI[0]) if float(EI[0]).is_integer() else np.float64(EI[0])
        elif not isinstance(EI[0], cba.SectionEI) and float(EI[0]).is_integer():
            kw["EI"] = int(EI[0])
    else:
        kw["EI"] = as_kind(EI, c["EI"])
    if case.get("GA"):
        GA = [conv(g) for g in case["GA"]]
        kw["GAv"] = GA[0] if c["GA"] == "scalar" and same(case["GA"]) else as_kind(GA, c["GA"])
    if case.get("kf"):
        kw["kf"] = np.float64(case["kf"][0]) if c["kf"] == "scalar" and same(case["kf"]) else as_kind(case["kf"], c["kf"])
    if c["use_sup"]:
        kw["supports"] = list(c["sup"])
    else:
        kw["R"] = as_kind(case["R"], c["R"])
    D = case.get("D")
    if D is not None and not (c["D"] == "none" and all(d is None for d in D)):
        kw["D"] = np.array(D, dtype=object) if c["D"] == "array" else list(D)
    if c["etkind"] == "none" and all(e == 1 for e in case["et"]):
        pass
    elif c["etkind"] == "array":
        kw["eletype"] = np.array(case["et"])
    elif c["etkind"] == "column":
        kw["eletype"] = np.array(case["et"], float).reshape(-1, 1)
    else:
        f = {"code": lambda e, s: e, "enum": lambda e, s: cba.MemberType(e), "name": lambda e, s: s, "float": lambda e, s: float(e)}
        kw["eletype"] = [f[k](e, s) for k, e, s in zip(c["et"], case["et"], c["etname"])]
    LM = [list(r) for r in case["LM"]]
    if c["ints"]:
        LM = [[int(v) if float(v).is_integer() else v for v in r] for r in LM]
    if c["LM"] == "ctor":
        return cba.BeamAnalysis(LM=LM, **kw)
    if c["LM"] == "split":
        ba = cba.BeamAnalysis(LM=LM[:1], **kw)
        add_rows(ba, LM[1:])
        return ba
    ba = cba.BeamAnalysis(**kw)
    if c["LM"] == "set":
        ba.set_loads([[1, 1, 99.0]])
        ba.set_loads(LM)
    elif c["LM"] == "beam":
        ba.beam.loads = LM
    elif c["LM"] == "rows":
        for r in LM:
            ba.beam.add_load(r)
    else:
        add_rows(ba, LM)
    return ba


def add_rows(o, LM, *lead):
    """The named load methods of o, one call per row."""
    for k, r in enumerate(LM):
        i, t = int(r[0]), int(r[1])
        if t == 1:
            o.add_udl(*lead, i, r[2])
        elif t == 2:
            o.add_pl(*lead, i, r[2], r[3])
        elif t == 3:
            o.add_pudl(*lead, i, r[2], r[3], r[4])
        elif t == 4:
            o.add_ml(*lead, i, r[2], r[3])
        elif t == 5:
            if len(r) == 5:  # (the methods take a start and a cover)
                (o if hasattr(o, "add_load") else o.beam).add_load(*lead, list(r))
            elif len(r) > 4 and k % 2:
                o.add_trap(*lead, i, r[2], r[3], a=r[4], c=r[5])
            else:
                o.add_trap(*lead, i, *r[2:])
        else:
            kap = list(r[2:])
            o.add_ic(*lead, i, kap[0] if len(kap) == 1 else (np.array(kap) if k % 2 else kap))


def equal_results(a, b, what, rtol=1e-9, nodes=True):
    ra, rb = a.beam_results, b.beam_results
    q = ("x", "M", "V", "R", "D")
    for k in ("R", "Rs", "D"):
        u, v = np.asarray(getattr(ra, k), float), np.asarray(getattr(rb, k), float)
        cmp.close(u, v, rtol * max(1e-300, np.max(np.abs(v), initial=0.0)), f"{what}: {k}")
    require(len(ra.vRes) == len(rb.vRes), f"{what}: {len(ra.vRes)} members instead of {len(rb.vRes)}")
    for k in q:
        u, v = np.asarray(getattr(ra.results, k), float), np.asarray(getattr(rb.results, k), float)
        cmp.close(u, v, rtol * max(1e-300, np.max(np.abs(v))), f"{what}: {k}")


def describe(c, rec):
    case = c["beam"]
    from pycba import supports_to_R

    gen.solved_reference(case, rc_min=1e-8)
    canonical = gen.analysed(case)
    ba = variant(c)
    ba.analyze()
    gen.classify(case, rec)
    if c["use_sup"]:
        rec.cls("supports")
    rec.cls(f"loads:{c['LM']}", f"EI:{c['EI']}", f"et:{c['etkind']}")
    rec.mark()
    # (identical inputs in other containers: the same arithmetic)
    equal_results(ba, canonical, "another description of the same model", 1e-12)
    R = supports_to_R(c["sup"], n_nodes=len(case["L"]) + 1)
    require([float(v) for v in R] == [float(v) for v in case["R"]], f"supports {c['sup']} lowered to {R}, expected {case['R']}")
    require([float(v) for v in supports_to_R(c["sup"])] == [float(v) for v in case["R"]], "supports_to_R depends on n_nodes")


# ------------------------------------------------------------ beam strings ----
@st.composite
def strings(draw):
    n = draw(st.integers(1, 5))
    first = draw(st.sampled_from("preepf"))
    last = draw(st.sampled_from("preef"))
    mid = [draw(st.sampled_from("prprh")) for _ in range(n - 1)]
    Ls = [draw(st.one_of(st.integers(1, 60).map(str), st.integers(1, 600).map(lambda k: f"{k / 10}"), st.floats(0.5, 60).map(lambda x: f"{x:.4f}"))) for _ in range(n)]
    ts = [first] + mid + [last]
    ts = [t.upper() if draw(st.integers(0, 3)) else t for t in ts]
    sp = draw(st.booleans())
    return {"T": ts, "L": Ls, "space": sp and draw(st.booleans()), "w": draw(gen.mags(40)), "load": draw(st.lists(gen.frac(False), min_size=n, max_size=n))}


def string(c, rec):
    import pycba as cba

    n = len(c["L"])
    s = c["T"][0]
    for l, t in zip(c["L"], c["T"][1:]):
        s += (f" {l} " if c["space"] else l) + t
    L, EI, R, et = cba.parse_beam_string(s)
    T = [t.lower() for t in c["T"]]
    dof = {"p": [-1, 0], "r": [-1, 0], "e": [-1, -1], "f": [0, 0], "h": [0, 0]}
    expR = [v for t in T for v in dof[t]]
    require([float(v) for v in L] == [float(l) for l in c["L"]], f"{s!r}: span lengths {L}")
    require([float(v) for v in R] == expR, f"{s!r}: restraints {R}, expected {expR}")
    require(len(EI) == n and np.all(np.asarray(EI) > 0) and np.ptp(np.asarray(EI, float)) == 0, f"{s!r}: rigidities {EI}")
    # a hinge must release the moment at its node exactly once; nothing else may
    require(len(et) == n, f"{s!r}: {len(et)} member types")
    rec.cls(*(f"terminal {t}" for t in sorted(set(T))))
    for k in range(n + 1):
        left = k > 0 and int(et[k - 1]) in (2, 4)
        right = k < n and int(et[k]) in (3, 4)
        if T[k] == "h":
            require(left != right, f"{s!r}: the hinge at node {k} gives member types {list(et)}")
        else:
            require(not left and not right, f"{s!r}: moment released at node {k} ({T[k]}): {list(et)}")
    case = {"L": [float(l) for l in c["L"]], "EI": [float(e) for e in EI], "R": expR, "et": [2 if k + 1 < n and T[k + 1] == "h" else 1 for k in range(n)], "D": None}
    case["LM"] = [[i + 1, 2, c["w"], f * case["L"][i]] for i, f in enumerate(c["load"])]
    ref = gen.solved_reference(case, rc_min=1e-8)
    rec.mark()
    ba = cba.BeamAnalysis(L, EI, R, case["LM"], eletype=et)
    ba.analyze()
    cmp.reactions(ba, ref)
    cmp.forces(ba, ref)
    # the other consumers of the four vectors
    il = cba.InfluenceLines(L, EI, R, et)
    il.create_ils(step=sum(case["L"]) / 7)
    require(len(il.vResults) == 8, f"{s!r}: {len(il.vResults)} influence line positions")
    b = cba.BridgeAnalysis()
    b.add_bridge(L, EI, R, et)
    b.ba.set_loads(case["LM"])
    b.ba.analyze()
    equal_results(b.ba, ba, "add_bridge on a parsed beam", 1e-12)


# ------------------------------------------------------------ member by member
@st.composite
def built(draw):
    k = draw(st.integers(0, 6))
    types = (1, 2, 3) if k == 2 else (1, 2, 3, 4, 5, 6)
    case = draw(gen.beams(max_spans=4, nonprismatic=k in (0, 1), found=k == 2, timo=k in (3, 4), types=types))
    return {"beam": case, "how": [draw(st.sampled_from(["span", "member", "kw", "name"])) for _ in case["L"]], "x": draw(st.lists(st.floats(0, 1).map(gen.r4), min_size=2, max_size=5)), "et": draw(st.booleans())}


def build(c, rec):
    import pycba as cba

    case = c["beam"]
    n = len(case["L"])
    conv = lambda v: gen.section(v) if isinstance(v, list) else v
    GA, kf = case.get("GA") or [None] * n, case.get("kf") or [None] * n
    one = cba.Beam()
    for i, how in enumerate(c["how"]):
        L, EI, e, g, k = case["L"][i], conv(case["EI"][i]), case["et"][i], conv(GA[i]), kf[i]
        if how == "span":
            one.add_span(L, EI, e, g, k)
        elif how == "member":
            one.add_member(L, EI, cba.MemberType(e), g, k)
        elif how == "name":
            one.add_member(L, EI, mbr_type=TYPES[e].lower(), GAv=g, kf=k)
        else:
            one.add_span(L=L, EI=EI, eletype=TYPES[e], GAv=g, kf=k)
    one.restraints = list(case["R"])
    if case.get("D"):
        one.prescribed_displacements = list(case["D"])
    one.loads = [list(r) for r in case["LM"]]
    kw = gen.kwargs(case)
    if not c["et"] and all(e == 1 for e in case["et"]):
        del kw["eletype"]  # the documented default is fixed-fixed
        rec.cls("default member types")
    two = cba.Beam(**kw)
    gen.classify(case, rec)
    rec.mark()
    for b, what in ((one, "built member by member"), (two, "built in one call")):
        require(b.no_members == n and b.no_spans == n, f"{what}: {b.no_members} members instead of {n}")
        require(abs(b.length - sum(case["L"])) <= 1e-9 * sum(case["L"]), f"{what}: length {b.length}")
        require(list(map(float, b.restraints)) == list(map(float, case["R"])), f"{what}: restraints {b.restraints}")
        require(b.no_fixed_restraints == sum(r < 0 for r in case["R"]), f"{what}: {b.no_fixed_restraints} fixed restraints")
        require([list(r) for r in b.loads] == case["LM"], f"{what}: loads {b.loads}")
        b._set_loads()
    for i in range(n):
        for f in ("get_span_k", "get_ref"):
            u, v = (np.array(list(getattr(b, f)(i)), float) for b in (one, two))
            cmp.close(u, v, 1e-12 * max(1e-300, np.max(np.abs(v))), f"{f}({i}) of the beam built member by member")
    X = np.concatenate([[0.0], np.cumsum(case["L"])])
    for f in c["x"]:
        g = f * X[-1]
        for b in (one, two):
            i, s = b.get_local_span_coords(g)
            require(0 <= i < n and abs(X[i] + s - g) <= 1e-9 * X[-1] and -1e-9 <= s <= case["L"][i] * (1 + 1e-9), f"x={g} located in span {i} at {s}")
    if case.get("GA") is None and case.get("kf") is None and not case.get("D"):
        # and the analyses that accept a Beam as the model
        from pycba.load_cases import build_pycba_model

        gen.solved_reference(case, rc_min=1e-8)
        u = build_pycba_model(one, cba.LoadCase("A", [list(r) for r in case["LM"]]))
        v = gen.beam_analysis(case)
        u.analyze()
        v.analyze()
        equal_results(u, v, "model from a beam built member by member", 1e-12)


# ------------------------------------------------- physically equal loadings ----
@st.composite
def splits(draw):
    k = draw(st.integers(0, 5))
    case = draw(gen.beams(max_spans=4, nonprismatic=k == 0, timo=k == 1, found=k == 2, types=(1, 2, 3) if k == 2 else (1, 2, 3, 4, 5), overhang=False, hinges=k != 3))
    return {"beam": case, "cut": [min(max(draw(gen.frac(False)), 0.01), 0.99) for _ in case["LM"]], "how": [draw(st.integers(0, 3)) for _ in case["LM"]], "perm": draw(st.permutations(range(2 * len(case["LM"]))))}


def same_load(row, f, how, case):
    """The same physical load written as other rows."""
    i, t = int(row[0]), int(row[1])
    L = case["L"][i - 1]
    found = case.get("kf") is not None
    # (the shear strain of a station under a load is integrated on one side of it, so a
    # load moved to the next member shifts shear deflections by a fraction of a station)
    moves = not found and not case.get("GA")
    if t == 1:
        w = row[2]
        return [
            [[i, 3, w, 0.0, f * L], [i, 3, w, f * L, L - f * L]],
            [[i, 3, w, 0.0, L]] if found else [[i, 5, w, w]],
            [[i, 1, 0.25 * w], [i, 1, 0.75 * w]],
            [[i, 3, w, 0.0, L]] if found else [[i, 5, w, 0.0], [i, 5, 0.0, w]],
        ][how]
    if t == 2:
        P, a = row[2:4]
        if a == 0.0 and i > 1 and moves and how < 2:
            return [[i - 1, 2, P, case["L"][i - 2]]]
        if a == L and i < len(case["L"]) and moves and how < 2:
            return [[i + 1, 2, P, 0.0]]
        return [[i, 2, P * 0.25, a], [i, 2, P * 0.75, a]]
    if t == 3:
        w, a, c = row[2:5]
        if how == 0 and not found:
            return [[i, 5, w, w, a, c]]
        if how == 1 and not found:
            return [[i, 5, w, 0.0, a, c], [i, 5, 0.0, w, a, c]]
        return [[i, 3, w, a, c * f], [i, 3, w, a + c * f, c - c * f]]
    if t == 4:
        return [[i, 4, row[2] * 0.25, row[3]], [i, 4, row[2] * 0.75, row[3]]]
    w1, w2 = row[2:4]
    a, c = gen.cover(row, L)
    wm = w1 + (w2 - w1) * f
    if how == 0:
        return [[i, 5, w1, wm, a, c * f], [i, 5, wm, w2, a + c * f, c - c * f]]
    if how == 1:
        return [[i, 3, w1, a, c], [i, 5, 0.0, w2 - w1, a, c]]
    if how == 2 and len(row) < 6:
        return [[i, 5, w1, w2, a, c]]
    if how == 2 and a + c == L:
        return [[i, 5, w1, w2, a] if a else [i, 5, w1, w2]]
    return [[i, 5, w1, 0.0, a, c], [i, 5, 0.0, w2, a, c]]


def equivalent(c, rec):
    case = c["beam"]
    ref = gen.solved_reference(case, rc_min=1e-7)
    rows = []
    for r, f, how in zip(case["LM"], c["cut"], c["how"]):
        if r[1] == 2 and r[3] in (0.0, case["L"][int(r[0]) - 1]):
            rec.cls("point load at a node")
        rows += same_load(r, f, how, case)
    rows = [rows[k] for k in c["perm"] if k < len(rows)] + rows[len(c["perm"]):]
    gen.classify(case, rec)
    rec.mark()
    a, b = gen.analysed(case), gen.analysed(case, LM=rows)
    F, M, d, th = cmp.scales(ref)
    rt = max(1e-7, 1e-13 / ref.rc)
    ra, rb = a.beam_results, b.beam_results
    for k in ("R", "Rs"):
        cmp.close(getattr(rb, k), getattr(ra, k), rt * M, f"loads {rows} for {case['LM']}: {k}")
    cmp.close(np.asarray(rb.D)[0::2], np.asarray(ra.D)[0::2], 1e2 * rt * d, f"loads {rows} for {case['LM']}: nodal deflections")
    if case.get("kf"):
        # (the mesh of a foundation span is the same: exact superposition does not hold
        # between stations next to a load edge, so only the nodal results are compared)
        return
    # away from the load edges the diagrams coincide
    jumps = {}
    for r in list(rows) + case["LM"]:
        i = int(r[0]) - 1
        j = jumps.setdefault(i, {0.0, case["L"][i]})
        if r[1] in (2, 4):
            j.add(float(r[3]))
    for i, (u, v) in enumerate(zip(ra.vRes, rb.vRes)):
        s = np.asarray(u.x, float)[1:-1] - sum(case["L"][:i])
        free = np.all(np.abs(s[:, None] - np.array(sorted(jumps.get(i, {0.0, case["L"][i]})))[None, :]) > 1e-6 * case["L"][i], axis=1)
        for q, sc in (("V", F), ("M", M), ("D", 1e2 * d)):
            x, y = (np.asarray(getattr(z, q), float)[1:-1][free] for z in (v, u))
            cmp.close(x, y, rt * sc, f"loads {rows} for {case['LM']}: {q} on member {i + 1}")


# ------------------------------------------------------------ crossings, cases
@st.composite
def crossings(draw):
    case = draw(gen.beams(max_spans=3, springs=False, settlements=False, types=(1, 2, 3), free_ends=False, llo=4.0, lhi=25.0))
    return {
        "beam": case,
        "sp": draw(st.lists(st.integers(1, 60).map(lambda k: k / 10), max_size=4)),
        "seed": draw(st.integers(0, 10**6)),
        "kind": draw(st.sampled_from(["list", "array", "tuple"])),
        "way": draw(st.integers(0, 2)),
        "order": draw(st.booleans()),
        "step": draw(st.sampled_from([0.5, 1.0, 1.7])),
        "static": draw(st.booleans()),
    }


def crossing(c, rec):
    import pycba as cba

    case = dict(c["beam"])
    if not c["static"]:
        case = dict(case, LM=[])
    gen.solved_reference(case, rc_min=1e-8)
    sp = c["sp"]
    wt = [float((c["seed"] // (7**k)) % 97 + 10) for k in range(len(sp) + 1)]
    one = cba.BridgeAnalysis(gen.beam_analysis(case), cba.Vehicle(np.array(sp), np.array(wt)))
    env1 = one.run_vehicle(c["step"])
    k = c["kind"]
    two = cba.BridgeAnalysis()
    veh = lambda: two.add_vehicle(as_kind(sp, k), as_kind(wt, k)) if c["way"] else two.set_vehicle(cba.Vehicle(as_kind(sp, k), as_kind(wt, k)))

    def bridge():
        if c["way"] < 2 or c["static"]:
            two.set_bridge(gen.beam_analysis(case))
        else:
            kw = gen.kwargs(case)
            two.add_bridge(as_kind(kw["L"], k), kw["EI"], as_kind(kw["R"], k), eletype=kw["eletype"])

    for f in (veh, bridge) if c["order"] else (bridge, veh):
        f()
    env2 = two.run_vehicle(step=c["step"])
    rec.cls(f"way {c['way']}", "static loads" if c["static"] else "vehicle alone", f"{len(wt)} axles")
    rec.mark()
    for q in ("x", "Mmax", "Mmin", "Vmax", "Vmin", "Rmax", "Rmin"):
        u, v = np.asarray(getattr(env2, q), float), np.asarray(getattr(env1, q), float)
        cmp.close(u, v, 1e-10 * max(1e-300, np.max(np.abs(v), initial=0.0)), f"crossing set up another way: {q}")


@st.composite
def casesets(draw):
    case = draw(gen.beams(max_spans=4, types=(1, 2, 3, 4, 5, 6), hinges=False, springs=False, settlements=False))
    n = len(case["LM"])
    return {"beam": case, "split": [draw(st.integers(0, 2)) for _ in range(n)], "w": draw(gen.mags(40)), "seg": sorted(draw(st.lists(st.integers(0, 40), min_size=2, max_size=2, unique=True)))}


def caseset(c, rec):
    import pycba as cba

    case = c["beam"]
    gen.solved_reference(case, rc_min=1e-8)
    names = ["G", "Q", "W"]
    base = gen.beam_analysis(dict(case, LM=[]))
    rows = {n: [r for r, s in zip(case["LM"], c["split"]) if names[s] == n] for n in names}
    used = [n for n in names if rows[n]]
    a = cba.LoadCases(base)  # raw rows
    for n in used:
        a.add(n, [list(r) for r in rows[n]])
    b = cba.LoadCases(base)  # named methods of the collection
    for n in used:
        add_rows(b, rows[n], n)
    d = cba.LoadCases(base)  # named methods of each case
    for n in used:
        add_rows(d.add_case(n), rows[n])
    e = cba.LoadCases(base, [cba.LoadCase(n, [list(r) for r in rows[n]]) for n in used])
    f = cba.LoadCases(base)
    for n in used:
        f.case(n)
        for r in rows[n]:
            f.add_load(n, list(r))
    g = cba.LoadCases(base)
    for n in used:
        g.set(n, [[1, 1, 5.0]])
        g.set(n, [list(r) for r in rows[n]])
    rec.mark()
    rec.cls(f"{len(used)} cases")
    norm = lambda LM: [[float(v) for v in r] for r in LM]
    for k, o in (("collection methods", b), ("case methods", d), ("LoadCase objects", e), ("rows one at a time", f), ("set", g)):
        require(o.names == tuple(used), f"{k}: cases {o.names} instead of {used}")
        for n in used:
            require(norm(o.to_LM()[n]) == norm(rows[n]), f"{k}: case {n} holds {o.to_LM()[n]}, expected {rows[n]}")
            require(norm(o.case(n).to_LM()) == norm(rows[n]), f"{k}: case {n} holds {o.case(n).to_LM()}")
    # whole-beam and segment loads in the two spellings
    X = sum(case["L"])
    x0, x1 = (v / 40 * X for v in c["seg"])
    w = c["w"]
    b.add_all_spans_udl("all", w)
    case_all = cba.LoadCase("all").add_all_spans_udl(base, w)
    exp = [[float(i + 1), 1.0, float(w)] for i in range(len(case["L"]))]
    require(norm(b.case("all").to_LM()) == exp and norm(case_all.to_LM()) == exp, f"all-span load: {b.case('all').to_LM()} / {case_all.to_LM()}")
    b.add_segment_udl("seg", x0, x1, w)
    seg = cba.LoadCase("seg").add_segment_udl(base.beam, x0, x1, w)
    require(norm(b.case("seg").to_LM()) == norm(seg.to_LM()), f"segment load: {b.case('seg').to_LM()} / {seg.to_LM()}")
    x, B = a.response_matrix("M")
    for i, n in enumerate(used):
        ba = gen.analysed(dict(case, LM=rows[n]))
        v = np.asarray(ba.beam_results.results.M, float)
        cmp.close(B[i], v, 1e-10 * max(1e-300, np.max(np.abs(v))), f"response of case {n}")


CHECK = Check(
    "C27",
    "the same model written in two different accepted ways was analysed (or lowered) both ways and compared",
    [
        Sub("description", cases, describe, 1400, 12000),
        Sub("beam_string", strings, string, 800, 6000),
        Sub("member_by_member", built, build, 1000, 8000),
        Sub("equivalent_loads", splits, equivalent, 1000, 9000),
        Sub("crossing", crossings, crossing, 100, 900),
        Sub("load_cases", casesets, caseset, 300, 3000),
    ],
    [
        "the canonical description (lists, raw R, load matrix rows) is judged against the reference model by C01-C03",
        "load rows are lists, as parse_LM requires; leading and trailing text of a beam string is not generated",
    ],
)
