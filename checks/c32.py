"""C32: vehicle and train geometry, library vehicles."""
import numpy as np
from hypothesis import strategies as st

from checks.c13 import bridge
from harness import gen
from harness import moving as mv
from harness.core import Check, Sub, require


def loads_of(veh):
    """(distance behind the leading axle, weight), ordered."""
    return sorted(zip(np.asarray(veh.axle_coords, float), np.asarray(veh.axw, float)))


def same_axles(got, exp, what):
    require(len(got) == len(exp), f"{what}: {len(got)} axles, expected {len(exp)}")
    tol = 1e-9 * (1 + max(abs(x) for x, _ in exp))
    # axles at the same place may come in any order
    key = lambda q: (round(q[0] / (10 * tol)), q[1])
    for (x, w), (y, v) in zip(sorted(got, key=key), sorted(exp, key=key)):
        require(abs(x - y) <= 20 * tol and abs(w - v) <= 1e-9 * abs(v), f"{what}: axle of {w:.8g} at {x:.8g}, expected {v:.8g} at {y:.8g}")


def expected(v):
    c = mv.axle_coords(v)
    if v.get("rev"):
        c = c[-1] - c
    return sorted(zip(c, v["w"]))


def geometry(c, rec):
    from pycba import Vehicle

    v = {"s": c["veh"]["s"], "w": c["veh"]["w"]}
    s, w = np.array(v["s"], float), np.array(v["w"], float)
    if c["aslist"]:
        s, w = list(v["s"]), list(v["w"])
    veh = Vehicle(s, w)
    Lv = float(np.sum(v["s"]))
    rec.mark(len(w) > 1)
    rec.cls(f"axles{len(w)}")

    def chk(q, rev, what):
        require(abs(q.L - Lv) <= 1e-9 * (1 + Lv), f"{what}: length {q.L}")
        require(abs(q.W - sum(v["w"])) <= 1e-9 * sum(v["w"]), f"{what}: weight {q.W}")
        require(q.NoAxles == len(v["w"]), f"{what}: number of axles {q.NoAxles}")
        same_axles(loads_of(q), expected(dict(v, rev=rev)), what)

    chk(veh, None, "vehicle")
    r = veh.reverse(in_place=False)
    chk(veh, None, "vehicle after making a reversed copy")
    chk(r, True, "reversed copy")
    chk(r.reverse(in_place=False), None, "reversed copy of the reversed copy")
    require(veh.reverse() is None, "reverse in place returns something")
    chk(veh, True, "vehicle reversed in place")
    chk(veh.reverse(in_place=False), None, "reversed copy of a vehicle reversed in place")
    veh.reverse()
    chk(veh, None, "vehicle reversed twice")
    require(list(s) == v["s"] and list(w) == v["w"], "the caller's axle data changed")
    # inconsistent counts
    for ss, ww in ((v["s"] + [1.0], v["w"]), (v["s"], v["w"] + [1.0]), (v["s"], v["w"][:-1])):
        if len(ss) + 1 == len(ww):
            continue
        try:
            Vehicle(np.array(ss), np.array(ww))
        except ValueError:
            continue
        require(False, f"vehicle with {len(ss)} spacings and {len(ww)} axles accepted")


def geometry_st():
    return st.fixed_dictionaries({"veh": mv.vehicles(1, 6, reverse=False), "aslist": st.booleans()})


def train(c, rec):
    from pycba import make_train

    vs = c["vehs"]
    n = len(vs)
    gaps = c["gaps"][: max(n - 1, 0)]
    while len(gaps) < n - 1:
        gaps = gaps + [gaps[-1]]
    vehs = [mv.vehicle(v) for v in vs]
    if c["shared"]:
        vehs = [vehs[0]] * n
        vs = [vs[0]] * n
    equal = c["equal"] and n > 2
    arg = gaps if not equal else gaps[:1]
    if equal:
        gaps = gaps[:1] * (n - 1)
    before = [loads_of(v) for v in vehs]
    t = make_train(vehs, list(arg) if c["aslist"] else np.array(arg, float))
    rec.mark(n > 1)
    rec.cls(f"vehicles{n}", "one common gap" if equal else "gaps", "zero spacing" if any(0.0 in v["s"] for v in vs) else "apart")
    if any(v.get("rev") for v in vs):
        rec.cls("reversed member")
    exp, x = [], 0.0
    for v, g in zip(vs, [0.0] + gaps):
        x += g
        exp += [(x + a, w) for a, w in expected(v)]
        x += float(np.sum(v["s"]))
    same_axles(loads_of(t), sorted(exp), "train")
    require(abs(t.L - x) <= 1e-9 * (1 + x) and abs(t.W - sum(w for _, w in exp)) <= 1e-9 * t.W and t.NoAxles == len(exp), "train totals")
    for v, b in zip(vehs, before):
        same_axles(loads_of(v), b, "a vehicle after joining a train")
    # refusals
    for bad in (gaps + [1.0, 1.0], gaps[:-1] if n > 3 else gaps + [2.0, 3.0]):
        try:
            make_train(vehs, np.array(bad))
        except ValueError:
            continue
        require(False, f"{len(bad)} gaps accepted for {n} vehicles")
    try:
        make_train(vehs[:-1] + ["truck"], np.array(gaps))
    except ValueError:
        pass
    else:
        require(False, "a train of something else than vehicles accepted")
    # on a bridge the train acts as its vehicles together
    if c["pos"] is not None:
        case = c["beam"]
        T = float(np.sum(case["L"]))
        p = c["pos"] * (T + t.L)
        ax = [(p - a, w) for a, w in sorted(exp)]
        if mv.ambiguous(case, ax):
            return
        gen.solved_reference(case, rc_min=1e-6)
        res = bridge(case, t).static_vehicle(p)
        mv.compare(case, res, mv.static(case, case["LM"] + mv.rows(case, ax)), ax, "train on a bridge", 1e-7)
        rec.cls("on a bridge")


def train_st():
    return st.fixed_dictionaries({
        "vehs": st.lists(mv.vehicles(1, 4), min_size=1, max_size=4),
        "gaps": st.lists(st.one_of(st.sampled_from([0.0, 4.0, 10.0, 1.2]), st.floats(0.5, 20.0).map(gen.r4)), min_size=3, max_size=3),
        "equal": st.booleans(), "aslist": st.booleans(), "shared": st.sampled_from([False, False, True]),
        "pos": st.one_of(st.none(), gen.frac(False)),
        "beam": gen.beams(max_spans=3, max_loads=1, min_loads=0),
    })


G = 9.81
KIP, FT = 4.4482216, 0.3048


def lib_table():
    """name -> (call, parameter domain or None, axle spacings and weights by published definition)."""
    bd = [[3.0, 1.2, a, 1.2, 1.2, b, 1.2, 1.2] for a, b in ((5.5, 6.5), (6.0, 6.0), (6.5, 5.5))]
    m1600 = lambda x: [1.25, 1.25, 3.75, 1.25, 1.25, x, 1.25, 1.25, 5.0, 1.25, 1.25]
    loco = [8, 5, 5, 5, 9, 5, 6, 5]
    wl = [5, 10, 10, 10, 10, 6.5, 6.5, 6.5, 6.5]

    def la(n, g, w):
        s, p = [2.0, 1.7, 1.1, 1.7], [1.2] + [1.0] * 4
        for _ in range(n - 1):
            s += [g - 4.5, 1.7, 1.1, 1.7]
            p += [1.0] * 4
        return s, [w * q for q in p]

    return {
        "bdouble": lambda V, u: (V.AU.get_abag_bdouble(int(u * 2.99)), bd[int(u * 2.99)], [6 * G] + [8.5 * G] * 2 + [7.5 * G] * 6),
        "semitrailer": lambda V, u: (V.AU.get_abag_semitrailer(int(u * 3.99)), [3.0, 1.2, [4.4, 6.4, 8.4, 10.4][int(u * 3.99)], 1.2, 1.2], [6 * G] + [8.5 * G] * 2 + [7.5 * G] * 3),
        "permit": lambda V, u: (V.AU.get_example_permit(), [1.793, 2.507, 1.370, 5.403, 1.232, 1.232, 6.303, 1.232, 1.232], [5.5 * G] * 2 + [8.5 * G] * 2 + [7.5 * G] * 6),
        "m1600": lambda V, u: (V.AU.get_m1600(6.25 + 20 * u), m1600(6.25 + 20 * u), [120.0] * 12),
        "s1600": lambda V, u: (V.AU.get_s1600(6.25 + 20 * u), m1600(6.25 + 20 * u), [80.0] * 12),
        "a160": lambda V, u: (V.AU.get_a160(), [], [160.0]),
        "w80": lambda V, u: (V.AU.get_w80(), [], [80.0]),
        "la": lambda V, u: (V.AU.get_la_rail(1 + int(u * 7), 12 + 8 * u, 100 + 250 * u), *la(1 + int(u * 7), 12 + 8 * u, 100 + 250 * u)),
        "300la": lambda V, u: (V.AU.get_300la(1 + int(u * 7), 12 + 8 * u), *la(1 + int(u * 7), 12 + 8 * u, 300.0)),
        "300la default": lambda V, u: (V.AU.get_300la(), *la(10, 12.0, 300.0)),
        "la default": lambda V, u: (V.AU.get_la_rail(), *la(10, 12.0, 300.0)),
        "t44": lambda V, u: (V.AU.get_t44(3 + 5 * u), [3.7, 1.2, 3 + 5 * u, 1.2], [48.0] + [96.0] * 4),
        "t44 default": lambda V, u: (V.AU.get_t44(), [3.7, 1.2, 3.0, 1.2], [48.0] + [96.0] * 4),
        "ms18": lambda V, u: (V.AU.get_ms18(4.27 + 4.87 * u * 0.999), [4.27, 4.27 + 4.87 * u * 0.999], [35.6, 142.3, 142.3]),
        "ms18 default": lambda V, u: (V.AU.get_ms18(), [4.27, 4.27], [35.6, 142.3, 142.3]),
        "hl93": lambda V, u: (V.US.get_hl93_truck(4.3 + 4.69 * u), [4.3, 4.3 + 4.69 * u], [35.0, 145.0, 145.0]),
        "hl93 default": lambda V, u: (V.US.get_hl93_truck(), [4.3, 4.3], [35.0, 145.0, 145.0]),
        "tandem": lambda V, u: (V.US.get_hl93_tandem(), [1.2], [110.0, 110.0]),
        "cooper": lambda V, u: (V.US.get_cooper(10 + 90 * u), [q * FT for q in loco + [8.0] + loco], [q * (10 + 90 * u) / 10 * KIP for q in wl + wl]),
        "cooper default": lambda V, u: (V.US.get_cooper(), [q * FT for q in loco + [8.0] + loco], [q * 8 * KIP for q in wl + wl]),
        "lm1": lambda V, u: (V.EU.get_lm1(0.5 + u), [1.2], [300 * (0.5 + u)] * 2),
        "lm71": lambda V, u: (V.EU.get_lm71(0.75 + 0.7 * u), [1.6] * 3, [250 * (0.75 + 0.7 * u)] * 4),
        "lm71 default": lambda V, u: (V.EU.get_lm71(), [1.6] * 3, [250.0] * 4),
        "lm1 default": lambda V, u: (V.EU.get_lm1(), [1.2], [300.0] * 2),
        "hb": lambda V, u: (V.UK.get_hb(25 + 20 * u, [6.0, 11.0, 16.0, 21.0, 26.0][int(u * 4.99)]), [1.8, [6.0, 11.0, 16.0, 21.0, 26.0][int(u * 4.99)], 1.8], [10 * (25 + 20 * u)] * 4),
        "hb default": lambda V, u: (V.UK.get_hb(), [1.8, 6.0, 1.8], [450.0] * 4),
        "cl625": lambda V, u: (V.CA.get_cl625(), [3.6, 1.2, 6.6, 6.6], [50.0, 125.0, 125.0, 175.0, 150.0]),
        "jtg": lambda V, u: (V.CN.get_jtg_vehicle(), [3.0, 1.4, 7.0, 1.4], [30.0, 120.0, 120.0, 140.0, 140.0]),
        "validation": lambda V, u: (V.get_validation_truck(), [4.0, 4.0], [5.0, 4.0, 3.0]),
    }


REFUSE = {
    "m1600": lambda V, d: V.AU.get_m1600(6.25 - d),
    "s1600": lambda V, d: V.AU.get_s1600(6.25 - d),
    "la short": lambda V, d: V.AU.get_la_rail(3, 12 - d),
    "la long": lambda V, d: V.AU.get_la_rail(3, 20 + d),
    "300la short": lambda V, d: V.AU.get_300la(3, 12 - d),
    "300la long": lambda V, d: V.AU.get_300la(3, 20 + d),
    "la none": lambda V, d: V.AU.get_la_rail(0, 12),
    "t44 short": lambda V, d: V.AU.get_t44(3.0 - d),
    "t44 long": lambda V, d: V.AU.get_t44(8.0 + d),
    "ms18 short": lambda V, d: V.AU.get_ms18(4.27 - d),
    "ms18 long": lambda V, d: V.AU.get_ms18(9.14 + d),
    "hl93 short": lambda V, d: V.US.get_hl93_truck(4.3 - d),
    "hl93 long": lambda V, d: V.US.get_hl93_truck(9.0 + d),
}
NAMES = sorted(lib_table())


def library(c, rec):
    from pycba import VehicleLibrary as V

    rec.cls(c["name"])
    rec.mark()
    for k in range(2):  # the same vehicle again, after the first one was changed
        veh, s, w = lib_table()[c["name"]](V, c["u"])
        same_axles(loads_of(veh), sorted(zip(np.concatenate([[0.0], np.cumsum(s)]), w)), c["name"])
        require(abs(veh.W - sum(w)) < 1e-9 * sum(w) and abs(veh.L - sum(s)) < 1e-9 * (1 + sum(s)) and veh.NoAxles == len(w), f"{c['name']}: totals")
        veh.reverse()
        veh.axle_coords += 1.0
    name = c["refuse"]
    try:
        REFUSE[name](V, c["d"])
    except ValueError:
        return
    require(False, f"{name} by {c['d']} accepted")


def library_st():
    return st.fixed_dictionaries({
        "name": st.sampled_from(NAMES), "u": st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(0, 1).map(gen.r4)),
        "refuse": st.sampled_from(sorted(REFUSE)), "d": st.sampled_from([0.01, 0.5, 3.0]),
    })


CHECK = Check(
    "C32",
    "non-trivial = several axles / several vehicles / a library vehicle compared with its definition",
    [
        Sub("geometry", geometry_st, geometry, 600, 8000),
        Sub("train", train_st, train, 900, 12000),
        Sub("library", library_st, library, 600, 4000),
    ],
    ["the definitions are those of the published models quoted in the documentation"],
)
