"""C28: input that breaks a stated rule is refused, and the neighbouring valid input is accepted."""
import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Check, Sub, Violation, require

RULES = {}  # name -> (errors, maker)


def rule(*errors, name=None):
    def deco(f):
        RULES[name or f.__name__] = (errors, f)
        return f

    return deco


class P:
    """The generated parameters of one case, drawn from in order."""

    def __init__(self, c):
        self.c, self.k = c, 0
        self.beam = c["beam"]
        self.n = len(self.beam["L"])

    def i(self, n):
        self.k += 1
        return self.c["u"][(self.k - 1) % len(self.c["u"])] % n

    def f(self):
        return (self.i(997) + 1) / 1000

    def one(self, *a):
        return a[self.i(len(a))]

    def kw(self, **over):
        return dict(gen.kwargs(self.beam), **over)

    def ba(self, **over):
        import pycba as cba

        return cba.BeamAnalysis(**self.kw(**over))

    def wrong_count(self, n):
        return self.one(*[k for k in (n - 1, n + 1, 0, n + 2, 2 * n) if k != n and k >= 0])


# Each maker returns (bad, ok, watch): the refused call, the nearest accepted one (or
# None) and the objects that a refusal must leave as they were.


# ------------------------------------------------------------------ the model
@rule(ValueError)
def r_and_supports(p):
    import pycba as cba

    R = p.beam["R"]
    sup = [[R[2 * i], R[2 * i + 1]] for i in range(p.n + 1)]
    kw = p.kw(supports=sup)
    ok = {k: v for k, v in kw.items() if k != "R"}
    cls = p.one(cba.BeamAnalysis, cba.Beam)
    return (lambda: cls(**kw)), (lambda: cls(**ok)), []


@rule(ValueError)
def no_supports(p):
    import pycba as cba

    cls = p.one(cba.BeamAnalysis, cba.Beam)
    return (lambda: cls(**p.kw(R=None))), (lambda: cls(**p.kw())), []


@rule(ValueError)
def restraint_count(p):
    import pycba as cba

    cls = p.one(cba.BeamAnalysis, cba.Beam)
    R = list(p.beam["R"])
    bad = p.one(R[:-1], R[:-2], R + [0], R + [-1, 0], [])
    return (lambda: cls(**p.kw(R=bad, D=None))), (lambda: cls(**p.kw(D=None))), []


@rule(ValueError)
def support_count(p):
    import pycba as cba

    k = p.wrong_count(p.n + 1)
    cls = p.one(cba.BeamAnalysis, cba.Beam)
    kw = {k: v for k, v in p.kw(D=None).items() if k != "R"}
    if p.i(2):
        return (lambda: cls(**kw, supports=["p"] * k)), (lambda: cls(**kw, supports=["p"] * (p.n + 1))), []
    return (lambda: cba.supports_to_R(["p"] * k, n_nodes=p.n + 1)), (lambda: cba.supports_to_R(["p"] * (p.n + 1), n_nodes=p.n + 1)), []


@rule(ValueError)
def support_name(p):
    import pycba as cba

    bad = p.one("hinge", "h", "H", "x", "", "pp", "spring", "roll", [-1], [-1, 0, 0], [])
    sup = ["pin"] * (p.n + 1)
    good = list(sup)
    sup[p.i(p.n + 1)] = bad
    kw = {k: v for k, v in p.kw(D=None).items() if k != "R"}
    how = p.i(3)
    if how == 0:
        return (lambda: cba.supports_to_R(sup)), (lambda: cba.supports_to_R(good)), []
    cls = (cba.BeamAnalysis, cba.Beam)[how - 1]
    return (lambda: cls(**kw, supports=sup)), (lambda: cls(**kw, supports=good)), []


@rule(ValueError)
def per_span_count(p):
    """EI, GAv, kf and member types are one value or one per span."""
    import pycba as cba

    k = p.wrong_count(p.n)
    what = p.one("EI", "GAv", "kf", "eletype")
    v = {"EI": 1e5, "GAv": 1e5, "kf": 100.0, "eletype": 1}[what]
    cls = p.one(cba.BeamAnalysis, cba.Beam)
    base = p.kw(EI=1e5, eletype=[1] * p.n)
    base.pop("GAv", None)
    base.pop("kf", None)
    conv = p.one(list, np.array)
    return (lambda: cls(**dict(base, **{what: conv([v] * k)}))), (lambda: cls(**dict(base, **{what: conv([v] * p.n)}))), []


@rule(ValueError)
def displacement_count(p):
    import pycba as cba

    D = [None] * (2 * p.n + 2)
    bad = p.one(D[:-1], D + [None], D + [0.0, None])
    if p.i(2):
        b = p.ba()

        def call():
            b.beam.prescribed_displacements = bad

        def ok():
            b.beam.prescribed_displacements = D

        return call, ok, [b]
    cls = p.one(cba.BeamAnalysis, cba.Beam)
    return (lambda: cls(**p.kw(D=bad))), (lambda: cls(**p.kw(D=D))), []


@rule(ValueError)
def member_type(p):
    import pycba as cba

    bad = p.one(0, 5, -1, 7, "XX", "F", "", "FFF", [1, 2], 12)
    good = p.one(1, 2, 3, 4, "FF", "fp", "Pf", " PP ", cba.MemberType.FP)
    how = p.i(4)
    if how == 0:
        return (lambda: cba.MemberType.coerce(bad)), (lambda: cba.MemberType.coerce(good)), []
    if how == 1:
        b = cba.Beam()
        return (lambda: b.add_member(5.0, 1e5, bad)), (lambda: b.add_member(5.0, 1e5, good)), []
    et = [1] * p.n
    g = list(et)
    j = p.i(p.n)
    et[j], g[j] = bad, good
    cls = (cba.BeamAnalysis, cba.Beam)[how - 2]
    return (lambda: cls(**p.kw(eletype=et))), (lambda: cls(**p.kw(eletype=g))), []


@rule(ValueError)
def section_coverage(p):
    import pycba as cba

    j = p.i(p.n)
    L = p.beam["L"][j]
    f = p.one(0.5, 0.99, 1.01, 1.5, 0.999)
    s, g = (cba.SectionEI([("const", [0.0, x], 1e5)]) for x in (L * f, L))
    if p.i(5) == 0:
        s = cba.SectionEI()  # empty
    what = p.one("EI", "GAv")
    cls = p.one(cba.BeamAnalysis, cba.Beam)
    if p.i(3) == 0:
        return (lambda: s.validate_length(L)), (lambda: g.validate_length(L)), []
    return (
        lambda: cls(**p.kw(**{what: [s if i == j else 1e5 for i in range(p.n)]})),
        lambda: cls(**p.kw(**{what: [g if i == j else 1e5 for i in range(p.n)]})),
        [],
    )


@rule(ValueError)
def section_segment(p):
    import pycba as cba

    s = cba.SectionEI()
    x = 0.0
    for _ in range(p.i(3)):
        d = 1 + p.i(9)
        s.add_segment("const", [x, x + d], 1e5)
        x += d
    d = 1.0 + p.i(9)
    gap = p.one(0.1, -0.1, 1.0, 1e-3, -1e-3)
    nonpos = p.one(0.0, -1.0, -1e5)
    bad = [
        ("cubic", [x, x + d], [1.0, 2.0]),
        ("", [x, x + d], 1.0),
        ("const", [x + gap, x + gap + d], 1.0),
        ("linear", [x + gap, x + gap + d], [1.0, 2.0]),
        ("pwl", [x, x + 0.5 * d, x + 0.5 * d, x + d], [1.0, 2.0, 3.0, 4.0]),
        ("pwl", [x, x + d, x + 0.5 * d], [1.0, 2.0, 3.0]),
        ("const", [x, x], 1.0),
        ("linear", [x + d, x], [1.0, 2.0]),
        ("const", [x], 1.0),
        ("const", [x, x + d], [1.0, 2.0]),
        ("linear", [x, x + d], [1.0, 2.0, 3.0]),
        ("linear", [x, x + 0.5 * d, x + d], [1.0, 2.0, 3.0]),
        ("pwl", [x, x + 0.5 * d, x + d], [1.0, 2.0]),
        ("poly", [x, x + 0.5 * d, x + d], [1.0, 2.0]),
        ("const", [x, x + d], nonpos),
        ("linear", [x, x + d], [1.0, nonpos]),
        ("linear", [x, x + d], [nonpos, 1.0]),
        ("pwl", [x, x + 0.5 * d, x + d], [1.0, nonpos, 2.0]),
        ("poly", [x, x + 0.5 * d, x + d], [1.0, nonpos, 2.0]),
        ("poly", [x, x + d], lambda t: 0.0 * np.asarray(t) + nonpos),
    ]
    good = [
        ("const", [x, x + d], 1.0),
        ("linear", [x, x + d], [1.0, 2.0]),
        ("pwl", [x, x + 0.5 * d, x + d], [1.0, 3.0, 2.0]),
        ("poly", [x, x + 0.5 * d, x + d], [1.0, 1.1, 2.0]),
        ("poly", [x, x + d], lambda t: 1.0 + 0.0 * np.asarray(t)),
    ]
    b, g = bad[p.i(len(bad))], good[p.i(len(good))]
    if p.i(3) == 0 and x == 0.0:
        return (lambda: cba.SectionEI([b])), (lambda: cba.SectionEI([g])), []
    return (lambda: s.add_segment(*b)), (lambda: s.add_segment(*g)), [s]


@rule(ValueError)
def beam_string(p):
    import pycba as cba

    l = f"{1 + p.i(40)}"
    bad = p.one(
        "P", "", "E" + l, f"H{l}P", f"P{l}H", f"H{l}R{l}H", f"P{l}F{l}R", f"P{l}E{l}R", f"E{l}E{l}E", f"P{l}R{l}F{l}R", l,
    )
    good = p.one(f"P{l}R", f"E{l}H{l}R", f"P{l}H{l}R{l}R".replace("H", "R", 1), f"F{l}R{l}R", f"E{l}E")
    return (lambda: cba.parse_beam_string(bad)), (lambda: cba.parse_beam_string(good)), []


# ------------------------------------------------------------------ the loads
@rule(ValueError)
def load_row(p):
    """A row must be a list naming an existing member and a known load type."""
    import pycba as cba

    L = p.beam["L"][0]
    row = p.one([1, 1, 5.0], [1, 2, 5.0, 0.3 * L], [1, 3, 5.0, 0.1 * L, 0.5 * L], [1, 4, 5.0, 0.5 * L], [1, 5, 1.0, 2.0])
    bad = p.one(
        tuple(row),
        np.array(row),
        [0] + row[1:],
        [p.n + 1] + row[1:],
        [-1] + row[1:],
        [p.n + 5] + row[1:],
        [1, 0, 5.0, 0.1, 0.2, 0.3],
        [1, 7, 5.0, 0.1, 0.2, 0.3],
        [1, -2, 5.0, 0.1, 0.2, 0.3],
        [1, "udl", 5.0],
    )
    b = p.ba()
    b.analyze()
    pos = p.i(len(p.beam["LM"]) + 1)
    LM = [list(r) for r in p.beam["LM"]]
    new = LM[:pos] + [bad] + LM[pos:]

    def call():
        b.set_loads(new)
        try:
            b.analyze()
        finally:
            b.set_loads(LM)

    if p.beam.get("kf") or p.beam.get("GA"):
        row = [1, 1, 5.0]

    def ok():
        b.set_loads(LM[:pos] + [row] + LM[pos:])
        b.analyze()

    return call, ok, [b]


@rule(ValueError)
def trapezoid_cover(p):
    """A trapezoid given where it starts must say how far it runs."""
    import pycba as cba

    j = 1 + p.i(p.n)
    L = p.beam["L"][j - 1]
    a = L * p.f() * 0.9
    how = p.i(3)
    if how == 0:
        b = p.ba()
        return (lambda: b.add_trap(j, 1.0, 2.0, a)), (lambda: b.add_trap(j, 1.0, 2.0, a, 0.1 * L)), [b]
    if how == 1:
        c = cba.LoadCase("A", [[1, 1, 2.0]])
        return (lambda: c.add_trap(j, 1.0, 2.0, a=a)), (lambda: c.add_trap(j, 1.0, 2.0, a, 0.1 * L)), [c]
    lc = cba.LoadCases(p.ba())
    lc.add("A", [[1, 1, 2.0]])
    return (lambda: lc.add_trap("A", j, 1.0, 2.0, a)), (lambda: lc.add_trap("A", j, 1.0, 2.0)), [lc]


@rule(ValueError)
def settled_spring(p):
    """A spring, a settlement and a load at one degree of freedom cannot be combined."""
    j = p.i(p.n + 1)
    R = [-1, -1] * (p.n + 1)
    D = [None] * (2 * p.n + 2)
    R[2 * j] = 1000.0
    D[2 * j] = -0.01
    LM = [[i + 1, 1, 5.0] for i in range(p.n)]
    over = dict(EI=1e5, R=R, D=D, eletype=[1] * p.n)
    drop = p.i(3)
    good = dict(over)
    if drop == 0:
        good["D"] = None
    elif drop == 1:
        good["R"] = [-1, -1] * (p.n + 1)
    a = p.ba(**over, LM=LM)
    b = p.ba(**good, LM=[] if drop == 2 else LM)
    for x in (a, b):
        x.beam.mbr_kf = [None] * p.n
        x.beam.mbr_GAv = [None] * p.n
    return a.analyze, b.analyze, []


@rule(ValueError)
def mechanism(p):
    """Too little restraint."""
    R = [0, 0] * (p.n + 1)
    kind = p.i(4)
    et = [1] * p.n
    good = list(R)
    if kind == 0:  # one pin
        R[2 * p.i(p.n + 1)] = -1
    elif kind == 1:  # rotations only
        for j in range(p.n + 1):
            R[2 * j + 1] = -1
    elif kind == 2:  # an internal hinge too many
        R = [-1, 0] * (p.n + 1)
        if p.n > 1:
            R[2 * (1 + p.i(p.n - 1))] = 0
            et = [2] * (p.n - 1) + [1]  # hinges over every inner node
        else:
            R[0] = 0
    for j in range(p.n + 1):
        good[2 * j] = -1
    kw = dict(EI=1e5, LM=[[1, 1, 5.0]], D=None, kf=None, GAv=None)
    a, b = p.ba(R=R, eletype=et, **kw), p.ba(R=good, eletype=[1] * p.n, **kw)
    require(a.is_stable() is False and b.is_stable() is True, f"is_stable() of restraints {R} / {good} with member types {et}")
    require(a.beam_results is None, "results before any analysis")
    return a.analyze, b.analyze, [a]


@rule(NotImplementedError)
def foundation(p):
    """What a foundation span cannot yet carry."""
    import pycba as cba

    j = p.i(p.n)
    L = p.beam["L"][j]
    kf = [None] * p.n
    kf[j] = 50.0
    kw = dict(EI=[1e5] * p.n, R=[-1, 0] * (p.n + 1), D=None, GAv=None, kf=kf, eletype=[1] * p.n, LM=[[j + 1, 1, 3.0]])
    good = dict(kw)
    what = p.i(5)
    if what == 0:
        kw["EI"] = [1e5 if i != j else cba.SectionEI([("linear", [0, L], [1e5, 2e5])]) for i in range(p.n)]
    elif what == 1:
        kw["GAv"] = [None if i != j else 1e5 for i in range(p.n)]
        if p.n > 1:
            good["GAv"] = [1e5 if i != j else None for i in range(p.n)]
    elif what == 2:
        kw["eletype"] = [1 if i != j else p.one(2, 3, 4) for i in range(p.n)]
    else:
        row = p.one([j + 1, 4, 5.0, 0.4 * L], [j + 1, 5, 1.0, 2.0], [j + 1, 5, 1.0, 2.0, 0.1 * L, 0.3 * L], [j + 1, 6, 1e-4])
        kw["LM"] = [[j + 1, 1, 3.0], row]
        if p.n > 1:
            o = (j + 1) % p.n
            good["LM"] = [[j + 1, 1, 3.0], [o + 1, 4, 5.0, 0.4 * p.beam["L"][o]]]
    a, b = p.ba(**kw), p.ba(**good)
    return a.analyze, b.analyze, [a]


@rule(NotImplementedError)
def modal_model(p):
    import pycba as cba

    j = p.i(p.n)
    L = p.beam["L"][j]
    kw = dict(EI=[1e5] * p.n, R=[-1, 0] * (p.n + 1), D=None, GAv=None, kf=None, eletype=[1] * p.n)
    good = p.ba(**kw)
    what = p.i(4)
    one = lambda v, d=None: [v if i == j else d for i in range(p.n)]
    if what == 0:
        kw["EI"] = one(cba.SectionEI([("linear", [0, L], [1e5, 2e5])]), 1e5)
    elif what == 1:
        kw["GAv"] = one(1e5)
    elif what == 2:
        kw["kf"] = one(50.0)
    else:
        kw["eletype"] = one(p.one(2, 3, 4), 1)
    a = p.ba(**kw)
    m = p.one(1.5, [1.5] * p.n)
    return (lambda: a.modal(m, n_modes=2)), (lambda: good.modal(m, n_modes=2)), [a]


@rule(ValueError)
def modal_mass(p):
    b = p.ba(EI=1e5, R=[-1, 0] * (p.n + 1), D=None, GAv=None, kf=None, eletype=[1] * p.n)
    k = p.wrong_count(p.n)
    return (lambda: b.modal([1.0] * k, n_modes=2)), (lambda: b.modal([1.0] * p.n, n_modes=2)), [b]


@rule(ValueError, TypeError)
def nonlinear(p):
    import pycba as cba

    L = [4.0] * p.n
    kw = dict(L=L, EI=1e4, R=[-1, 0] * (p.n + 1), Mp=100.0, mesh_size=1.0)
    nl = cba.NonlinearBeamAnalysis(**kw)
    row = p.one([1, 3, 2.0, 1.0, 2.0], [1, 4, 5.0, 2.0], [1, 5, 1.0, 2.0], [1, 6, 1e-4])
    sec = cba.SectionEI([("const", [0, 4.0], 1e4)])
    what = p.i(3)
    if what == 0:
        return (lambda: nl.analyze([[1, 2, 5.0, 2.0], row], lambda_max=1.0)), (lambda: nl.analyze([[1, 2, 5.0, 2.0]], lambda_max=0.5)), []
    if what == 1:
        EI = p.one(sec, [sec] * p.n, [1e4] * (p.n - 1) + [sec])
        return (lambda: cba.NonlinearBeamAnalysis(**dict(kw, EI=EI))), (lambda: cba.NonlinearBeamAnalysis(**dict(kw, EI=[1e4] * p.n))), []
    return (lambda: nl.analyze_moving()), (lambda: nl.analyze_moving(P=1.0, step=2.0)), []


# ------------------------------------------------------------------ crossings
@rule(ValueError)
def missing_objects(p):
    import pycba as cba

    veh = cba.Vehicle(np.array([2.0]), np.array([5.0, 7.0]))
    b = cba.BridgeAnalysis()
    full = cba.BridgeAnalysis(p.ba(), veh)
    if p.i(3) == 1:
        b.set_bridge(p.ba())
    elif p.i(3) == 1:
        b.set_vehicle(veh)
    step = sum(p.beam["L"]) / 3
    call = p.one(
        lambda o: o.run_vehicle(step),
        lambda o: o.static_vehicle(1.0),
        lambda o: o.run_load_model(step, 2.0),
    )
    return (lambda: call(b)), (lambda: call(full)), []


@rule(ValueError)
def vehicle_counts(p):
    import pycba as cba

    n = 1 + p.i(5)
    k = p.one(*[m for m in (n - 2, n, n + 1) if m >= 0])
    f = cba.Vehicle if p.i(2) else cba.BridgeAnalysis().add_vehicle
    conv = p.one(list, np.array)
    return (lambda: f(conv([1.0] * k), conv([5.0] * n))), (lambda: f(conv([1.0] * (n - 1)), conv([5.0] * n))), []


@rule(ValueError)
def train(p):
    import pycba as cba

    v = cba.Vehicle(np.array([2.0]), np.array([5.0, 7.0]))
    n = 1 + p.i(4)
    if p.i(2):
        k = p.one(*[m for m in (n + 1, n, n + 2, n - 2) if m > 1 or (m == 1 and n == 1)])
        if k == n - 1:
            k = n + 1
        return (lambda: cba.make_train([v] * n, [4.0] * k)), (lambda: cba.make_train([v] * n, [4.0] * (n - 1) if n > 1 else [])), []
    bad = [v] * n
    bad[p.i(n)] = p.one("truck", 5.0, None, np.array([1.0, 2.0]))
    return (lambda: cba.make_train(bad, [4.0] * (n - 1))), (lambda: cba.make_train([v] * n, [4.0] * (n - 1))), []


@rule(ValueError)
def library_range(p):
    import pycba as cba

    V = cba.VehicleLibrary
    d = p.one(1e-6, 0.01, 0.5, 3.0)
    u = p.f()
    f, lo, hi = p.one(
        (V.AU.get_m1600, 6.25, None),
        (V.AU.get_s1600, 6.25, None),
        (lambda s: V.AU.get_la_rail(3, s), 12.0, 20.0),
        (lambda s: V.AU.get_300la(2, s), 12.0, 20.0),
        (V.AU.get_t44, 3.0, 8.0),
        (V.AU.get_ms18, 4.27, 9.14),
        (V.US.get_hl93_truck, 4.3, 9.0),
        (lambda s: V.AU.get_la_rail(int(s), 14.0), 1, None),
    )
    if lo == 1:
        k = p.one(0, -1, -5)
        return (lambda: f(k)), (lambda: f(1 + p.i(5))), []
    hi_ = hi if hi is not None else lo + 20.0
    bad = hi + d if hi is not None and p.i(2) else lo - d
    good = p.one(lo, hi_, lo + u * (hi_ - lo))
    return (lambda: f(bad)), (lambda: f(good)), []


@rule(ValueError)
def clearances(p):
    import pycba as cba

    b = cba.BridgeAnalysis(p.ba(), cba.Vehicle(np.array([2.0]), np.array([5.0, 7.0])))
    bad = p.one((-0.1, 1.0), (1.0, -2.0), (np.nan, 1.0), (1.0, np.inf), (1.0,), (1.0, 2.0, 3.0), 5.0, ())
    good = p.one(None, (0.0, 0.0), (1.0, 2.0), [0.5, 0.0])
    step = sum(p.beam["L"]) / 3
    return (lambda: b.run_load_model(step, 2.0, clearances=bad)), (lambda: b.run_load_model(step, 2.0, clearances=good)), []


def crossing(p, npts=None, scale=1.0):
    import pycba as cba

    ba = p.ba(EI=1e5, R=[-1, 0] * (p.n + 1), D=None, GAv=None, kf=None, eletype=[1] * p.n, LM=[])
    if npts:
        ba.npts = npts
    b = cba.BridgeAnalysis(ba, cba.Vehicle(np.array([1.0]), np.array([50.0, 70.0]) * scale))
    return b, b.run_vehicle(sum(p.beam["L"]) / 5)


@rule(ValueError)
def foreign_envelope(p):
    b, env = crossing(p)
    _, other = crossing(p, scale=p.one(1.5, 0.6, 3.0))
    return (lambda: b.critical_values(other)), (lambda: b.critical_values(env)), []


@rule(ValueError)
def incompatible_envelopes(p):
    import pycba as cba

    b, env = crossing(p)
    _, two = crossing(p, scale=0.7)
    how = p.i(5)
    o = p.one(10, 50, 101)
    _, other = crossing(p, npts=o)
    if p.i(2):  # another number of supports
        R = [-1, 0] * (p.n + 1)
        R[1] = -1  # one more reaction
        ba = p.ba(EI=1e5, R=R, D=None, GAv=None, kf=None, eletype=[1] * p.n, LM=[[1, 1, 3.0]])
        ba.analyze()
        other = cba.Envelopes.from_beam_analysis(ba)
        rev = p.i(2)
    f = [
        lambda x: env.augment(x),
        lambda x: env.sum(x),
        lambda x: cba.Envelopes.combine([env, x]),
        lambda x: cba.Envelopes.combine([env, x], mode="sum"),
        lambda x: b.envelopes_ratios(x, env),
    ][how]
    return (lambda: f(other)), (lambda: f(two)), [env, other]


@rule(ValueError)
def envelope_arguments(p):
    import pycba as cba

    b, env = crossing(p)
    fresh = p.ba()
    what = p.i(5)
    if what == 0:
        return (lambda: cba.Envelopes.combine([])), (lambda: cba.Envelopes.combine([env])), [env]
    if what == 1:
        m = p.one("max", "", "add", "Envelope")
        return (lambda: cba.Envelopes.combine([env, env], mode=m)), (lambda: cba.Envelopes.combine([env, env], mode="envelope")), [env]
    if what == 2:
        done = p.ba()
        done.analyze()
        return (lambda: cba.Envelopes.from_beam_analysis(fresh)), (lambda: cba.Envelopes.from_beam_analysis(done)), []
    if what == 3:
        r = p.one("mean", "", "MAX", "sum")
        return (lambda: env.per_span("Mmax", reduce=r)), (lambda: env.per_span("Mmax", reduce=p.one("auto", "max", "min", "none"))), [env]
    ratios = b.envelopes_ratios(env, env)
    k = p.one("x", "Mmax", "Mmin", "Vmax", "Vmin", "nsup", "Rmax0", "Rmin0")
    bad = {q: v for q, v in ratios.items() if q != k}
    return (lambda: b.plot_ratios(bad)), (lambda: b.plot_ratios(ratios)), []


# ------------------------------------------------------------------ load cases
def cases_of(p):
    import pycba as cba

    lc = cba.LoadCases(p.ba(EI=1e5, R=[-1, 0] * (p.n + 1), D=None, GAv=None, kf=None, eletype=[1] * p.n, LM=[]))
    lc.add("G", [[1, 1, 4.0]])
    lc.add("Q", [[p.n, 2, 7.0, 0.4 * p.beam["L"][-1]]])
    return lc


@rule(ValueError)
def duplicate_case(p):
    import pycba as cba

    lc = cases_of(p)
    nm = p.one("G", "Q")
    f = p.one(
        lambda k: lc.add(k, [[1, 1, 1.0]]),
        lambda k: lc.add_case(k),
        lambda k: lc.append(cba.LoadCase(k, [[1, 1, 1.0]])),
        lambda k: lc.extend([cba.LoadCase(k, [[1, 1, 1.0]])]),
        lambda k: cba.LoadCases(lc.beam_model, [cba.LoadCase("A"), cba.LoadCase(k), cba.LoadCase(nm)]),
    )
    return (lambda: f(nm)), (lambda: f("W")), [lc]


@rule(KeyError)
def unknown_case(p):
    lc = cases_of(p)
    bad = p.one("g", "W", "", "Q ")
    f = p.one(
        lambda k: lc.case(k, create=False),
        lambda k: lc.factors({k: 1.5}),
        lambda k: lc.combine({"G": 1.0, k: 2.0}),
        lambda k: lc.combined_loads({k: 2.0}),
        lambda k: lc.analyze_combination({k: 2.0}),
    )
    return (lambda: f(bad)), (lambda: f("Q")), [lc]


@rule(ValueError)
def factor_shape(p):
    lc = cases_of(p)
    bad = p.one([1.0], [1.0, 2.0, 3.0], [], [[1.0], [2.0]], [[1.0, 2.0, 3.0]], 5.0, [[[1.0, 2.0]]])
    f = p.one(lc.factors, lc.combine, lc.combined_loads, lc.linear_combination, lc.analyze_combination)
    return (lambda: f(bad)), (lambda: f([1.0, 2.0])), [lc]


@rule(ValueError)
def one_factor_set(p):
    lc = cases_of(p)
    bad = [[1.0, 2.0]] * (1 + p.i(3))
    if p.i(2):  # a single case, whose factor rows have one entry
        lc = type(lc)(p.ba(EI=1e5, R=[-1, 0] * (p.n + 1), D=None, GAv=None, kf=None, eletype=[1] * p.n, LM=[]))
        lc.add("G", [[1, 1, 4.0]])
        bad = [[1.5]] * len(bad)
    f = p.one(lc.combined_loads, lc.analyze_combination)
    return (lambda: f(bad)), (lambda: f(bad[0])), [lc]


@rule(ValueError)
def response_name(p):
    import pycba as cba

    lc = cases_of(p)
    bad = p.one("X", "", "moments", "MV", "Mmax")
    good = p.one("M", "V", "D", "R", "moment", "deflection", "Rotation", "v")
    f = p.one(
        lambda r: lc.response_matrix(r),
        lambda r: lc.combine([1.0, 2.0], response=r),
        lambda r: cba.load_cases.analyse_load_case(lc.beam_model, lc[0], response=r),
        lambda r: lc.target_combination("t", 1.0, response=r),
    )
    return (lambda: f(bad)), (lambda: f(good)), [lc]


@rule(ValueError)
def target(p):
    lc = cases_of(p)
    X = sum(p.beam["L"])
    d = X * p.one(1e-3, 0.1, 2.0)
    if p.i(2):
        bad, good = p.one(-d, X + d), p.one(0.0, X * p.f())
        return (lambda: lc.target_combination("t", bad)), (lambda: lc.target_combination("t", good)), [lc]
    s = p.one("low", "", "both", "m")
    g = p.one("min", "max", "NEG", "positive", "hogging", "sagging")
    return (lambda: lc.target_combination("t", X / 2, sense=s)), (lambda: lc.target_combination("t", X / 2, sense=g)), [lc]


@rule(ValueError)
def segments(p):
    import pycba as cba

    lc = cases_of(p)
    X = sum(p.beam["L"])
    bad = p.one((0.5 * X, 0.5 * X), (0.6 * X, 0.2 * X), (-0.1 * X, 0.5 * X), (0.5 * X, 1.1 * X))
    if p.i(2):
        return (lambda: lc.add_segment_udl("G", *bad, 3.0)), (lambda: lc.add_segment_udl("G", 0.0, X * p.f(), 3.0)), [lc]
    k = p.one(0, -1, 2.0, 1.5, True, None, "3")
    return (lambda: cba.make_patterned_udl(lc.beam_model, 3.0, k)), (lambda: cba.make_patterned_udl(lc.beam_model, 3.0, p.one(1, 2, np.int64(3)))), []


@rule(ValueError)
def matrix_envelopes(p):
    from pycba import additive_envelope, sign_selective_envelope

    n = 1 + p.i(4)
    B = np.arange(12.0 * n).reshape(n, 12) - 6
    what = p.i(5)
    if what == 0:
        k = p.one(0, -1, n + 1, n + 3)
        return (lambda: additive_envelope(B, k)), (lambda: additive_envelope(B, 1 + p.i(n))), []
    if what == 1:
        f = p.one(additive_envelope, sign_selective_envelope)
        bad = p.one(B[0], B[None], np.float64(3))
        return (lambda: f(bad, *((1,) if f is additive_envelope else ()))), (lambda: f(B, *((1,) if f is additive_envelope else ()))), []
    if what == 2:
        k = p.one(*[m for m in (n - 1, n + 1, 2 * n) if m != n])
        return (lambda: sign_selective_envelope(B, [1] * k)), (lambda: sign_selective_envelope(B, [1] * n)), []
    if what == 3:
        import pycba as cba

        lc = cases_of(p)
        comb = cba.LoadCombination("ULS", [1.2, 1.5])
        f = p.one(lambda c, **k: c.to_LM(**k), lambda c, **k: c.response(**k), lambda c, **k: c.analyze(**k), lambda c, **k: c.envelope(**k), lambda c, **k: c.factor_vector(**k), lambda c, **k: c.to_load_case(**k))
        return (lambda: f(comb)), (lambda: f(comb, load_cases=lc)), [lc]
    lc = cases_of(p)
    import pycba as cba

    empty = cba.LoadCases(lc.beam_model)
    return (lambda: empty.response_matrix()), (lambda: lc.response_matrix()), []


@rule(TypeError)
def beam_model(p):
    import pycba as cba
    from pycba.load_cases import build_pycba_model

    good = p.ba()
    bad = p.one(None, [5.0, 6.0], "beam", {"L": [5.0]})
    f = p.one(
        lambda m: build_pycba_model(m, cba.LoadCase("A", [[1, 1, 2.0]])),
        lambda m: cba.make_span_udl_cases(m, 3.0),
        lambda m: cba.make_patterned_udl(m, 3.0, 2),
        lambda m: cba.LoadCase("A").add_all_spans_udl(m, 2.0),
        lambda m: cba.prestress.equivalent_loads(m, 100.0, [None] * p.n) if m is good else cba.plot_vehicle(m),
    )
    return (lambda: f(bad)), (lambda: f(good)), []


@rule(ValueError)
def pattern(p):
    import pycba as cba

    LM = [[i + 1, 1, 5.0] for i in range(p.n)]
    a, b = (cba.LoadPattern(p.ba(EI=1e5, R=[-1, 0] * (p.n + 1), D=None, GAv=None, kf=None, eletype=[1] * p.n)) for _ in range(2))
    k = p.i(3)
    if k == 1:
        a.set_dead_loads(LM, 1.4, 1.0)
    elif k == 2:
        a.set_live_loads(LM, 1.6, 0.0)
    b.set_dead_loads(LM, 1.4, 1.0)
    b.set_live_loads(p.one(LM, []), 1.6, 0.0)
    f = p.one(lambda o: o.analyze(), lambda o: o.to_load_cases(), lambda o: o.to_LM())
    return (lambda: f(a)), (lambda: f(b)), []


# ------------------------------------------------------------------ prestress
@rule(ValueError)
def tendon_counts(p):
    import pycba as cba

    b = p.ba()
    prof = [None] * p.n
    prof[p.i(p.n)] = cba.prestress.Parabola(-0.1, 0.3, -0.2)
    if p.i(2):
        k = p.wrong_count(p.n)
        return (lambda: cba.prestress.equivalent_loads(b, 100.0, [None] * k)), (lambda: cba.prestress.equivalent_loads(b, 100.0, [None] * p.n)), [b]
    k = p.wrong_count(p.n)
    return (lambda: cba.prestress.equivalent_loads(b, [100.0] * k, [None] * p.n)), (lambda: cba.prestress.equivalent_loads(b, [100.0] * p.n, [None] * p.n)), [b]


@rule(ValueError)
def tendon_geometry(p):
    import pycba as cba

    L = 2.0 + p.i(38)
    d = L * p.one(1e-6, 0.01, 0.2)
    f = lambda *v: [L * x for x in v]
    e = (-0.1, 0.4, -0.2)
    e2 = (-0.1, 0.4, 0.3, -0.2)
    bad = p.one(
        cba.prestress.Parabola(*e, c_left=0.6 * L, c_right=0.4 * L + d),
        cba.prestress.Parabola(*e, c_left=L + d),
        cba.prestress.Harp(*e, a=0.0 - d),
        cba.prestress.Harp(*e, a=L + d),
        cba.prestress.Harp(*e, a=0.3 * L, c_left=0.3 * L + d),
        cba.prestress.Harp(*e, a=0.7 * L, c_right=0.3 * L + d),
        cba.prestress.DoubleHarp(*e2, a=0.6 * L, b=0.6 * L - d),
        cba.prestress.DoubleHarp(*e2, a=0.0 - d, b=0.6 * L),
        cba.prestress.DoubleHarp(*e2, a=0.2 * L, b=L + d),
        cba.prestress.DoubleHarp(*e2, a=0.2 * L, b=0.7 * L, c_left=0.2 * L + d),
        cba.prestress.CompoundParabola(*e, a=0.5 * L + d, b=0.1 * L, c=0.5 * L),
        cba.prestress.CompoundParabola(*e, a=0.1 * L, b=0.5 * L + d, c=0.5 * L),
        cba.prestress.CompoundParabola(*e, a=0.0 - d, b=0.1 * L, c=0.5 * L),
        cba.prestress.CompoundParabola(*e, a=0.1 * L, b=0.0 - d, c=0.5 * L),
    )
    good = p.one(
        cba.prestress.Parabola(*e, c_left=0.1 * L, c_right=0.2 * L),
        cba.prestress.Harp(*e, a=0.4 * L, c_left=0.1 * L, c_right=0.5 * L),
        cba.prestress.DoubleHarp(*e2, a=0.2 * L, b=0.7 * L, c_left=0.1 * L),
        cba.prestress.CompoundParabola(*e, a=0.1 * L, b=0.15 * L, c=0.5 * L),
    )
    b = cba.BeamAnalysis([L], 1e5, [-1, 0, -1, 0])
    return (lambda: cba.prestress.equivalent_loads(b, 100.0, [bad])), (lambda: cba.prestress.equivalent_loads(b, 100.0, [good])), [b]


@rule(NotImplementedError)
def tendon_cantilever(p):
    import pycba as cba

    L = 2.0 + p.i(38)
    side = p.i(2)
    R = [-1, -1, 0, 0] if side else [0, 0, -1, -1]
    b, g = cba.BeamAnalysis([L], 1e5, R), cba.BeamAnalysis([L], 1e5, [-1, 0, -1, 0])
    prof = cba.prestress.CompoundParabola(-0.1, 0.4, -0.2, a=0.1 * L, b=0.15 * L, c=0.5 * L)
    return (lambda: cba.prestress.equivalent_loads(b, 100.0, [prof])), (lambda: cba.prestress.equivalent_loads(g, 100.0, [prof])), [b]


# ------------------------------------------------------------------ display
@rule(KeyError, ValueError)
def display(p):
    import pycba as cba

    b = p.ba(kf=None)
    if p.i(2):
        bad = p.one("metricc", "kN", "imperial", "SI-mm-N")
        good = p.one("SI", "us ft", "N_MM", "none", "Kip-In", "EU")
        f = p.one(cba.set_units, lambda u: b.plot_beam(units=u))
        before = cba.get_units()

        def ok():
            f(good)
            cba.set_units("SI")

        def call():
            try:
                f(bad)
            finally:
                require(cba.get_units() is before, f"units {bad!r} changed the display default")

        return call, ok, []
    from pycba.plotting import resolve_backend

    bad = p.one("bokeh", "mpl", "matplot")
    good = p.one("matplotlib", "plotly", "Plotly")
    f = p.one(cba.set_backend, resolve_backend)

    def ok():
        f(good)
        cba.set_backend("matplotlib")

    def call():
        try:
            f(bad)
        finally:
            require(resolve_backend(None) == "matplotlib", f"backend {bad!r} changed the display default")

    return call, ok, []


# ------------------------------------------------------------------ the check
def snap(o):
    import pycba as cba

    if isinstance(o, cba.BeamAnalysis):
        b = o.beam
        r = o.beam_results
        return repr(
            [
                [list(map(str, x)) for x in b.loads],
                list(map(str, b.mbr_lengths)),
                [id(e) if not np.isscalar(e) else e for e in b.mbr_EIs],
                list(map(str, b.restraints)),
                list(map(str, b.prescribed_displacements)),
                list(map(int, b.mbr_eletype)),
                b.no_members,
                o.npts,
                None if r is None else [np.asarray(x, float).tobytes() for x in (r.results.x, r.results.M, r.results.V, r.results.D, r.results.R, r.D, r.R, r.Rs)],
            ]
        )
    if isinstance(o, cba.LoadCases):
        return repr([(c.name, c.to_LM(), c.loaded_spans) for c in o])
    if isinstance(o, cba.LoadCase):
        return repr((o.name, o.to_LM(), o.loaded_spans))
    if isinstance(o, cba.Envelopes):
        return repr([np.asarray(getattr(o, k), float).tobytes() for k in ("x", "Mmax", "Mmin", "Vmax", "Vmin", "Vco_Mmax", "Mco_Vmin", "Rmax", "Rmin", "Rmaxval", "Rminval")])
    if isinstance(o, cba.SectionEI):
        x = np.linspace(0, max(o.length, 1.0), 23)
        return repr([o.length, list(o.breakpoints), len(o.pieces), [float(o(v)) for v in x] if o.pieces else None])
    raise TypeError(type(o))


@st.composite
def cases(draw, names):
    case = draw(gen.beams(max_spans=3, springs=False, settlements=False, hinges=False, types=(1, 2, 3), free_ends=False, overhang=False, llo=2.0, lhi=20.0, max_loads=3))
    return {"rule": draw(st.sampled_from(names)), "beam": case, "u": draw(st.lists(st.integers(0, 10**6), min_size=8, max_size=8))}


def refuse(c, rec):
    import matplotlib.pyplot as plt

    errors, maker = RULES[c["rule"]]
    rec.cls(c["rule"])
    p = P(c)
    names = " or ".join(e.__name__ for e in errors)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            bad, ok, watch = maker(p)
            before = [snap(o) for o in watch]
            try:
                out = bad()
            except errors as e:
                if isinstance(e, Violation):
                    raise
                msg = str(e)
            except (Violation, AssertionError):
                raise
            except Exception as e:
                raise Violation(f"{c['rule']}: {type(e).__name__} ({e}) instead of {names}")
            else:
                raise Violation(f"{c['rule']}: input that must be refused was accepted and gave {type(out).__name__} {out!r:.200}")
            rec.mark()
            require(msg.strip() != "", f"{c['rule']}: refused without an explanation")
            for o, s in zip(watch, before):
                require(snap(o) == s, f"{c['rule']}: the refused call changed {type(o).__name__}")
            if ok is not None:
                try:
                    ok()
                except Violation:
                    raise
                except Exception as e:
                    raise Violation(f"{c['rule']}: valid input refused with {type(e).__name__}: {e}")
    finally:
        plt.close("all")


MODEL = ["r_and_supports", "no_supports", "restraint_count", "support_count", "support_name", "per_span_count", "displacement_count", "member_type", "section_coverage", "section_segment", "beam_string"]
LOADS = ["load_row", "trapezoid_cover", "settled_spring", "mechanism", "foundation", "modal_model", "modal_mass", "nonlinear"]
MOVING = ["missing_objects", "vehicle_counts", "train", "library_range", "clearances", "foreign_envelope", "incompatible_envelopes", "envelope_arguments"]
CASES = ["duplicate_case", "unknown_case", "factor_shape", "one_factor_set", "response_name", "target", "segments", "matrix_envelopes", "beam_model", "pattern", "tendon_counts", "tendon_geometry", "tendon_cantilever", "display"]
assert sorted(MODEL + LOADS + MOVING + CASES) == sorted(RULES)

CHECK = Check(
    "C28",
    "an input that breaks one stated rule was refused with the stated kind of error",
    [
        Sub("model", lambda: cases(MODEL), refuse, 2500, 15000),
        Sub("loads_and_analyses", lambda: cases(LOADS), refuse, 1500, 8000),
        Sub("crossings_and_envelopes", lambda: cases(MOVING), refuse, 900, 4000),
        Sub("load_cases_and_display", lambda: cases(CASES), refuse, 1800, 10000),
    ],
    [
        "load positions outside a member are not refused (documented for partial loads only) and not generated",
        "the wording of the messages is free; only the kind of error and a non-empty message are required",
    ],
)
