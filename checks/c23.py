"""C23: natural frequencies and mode shapes against the exact dynamic stiffness method."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Check, Sub, require

SUP = ["pin", "pin", "pin", "fixed", "free", "vspring", "spring2", "rotspring", "guide"]


# ------------------------------------------------------------------ oracle ----
def dyn_stiff(L, EI, m, w):
    """Exact 4x4 dynamic stiffness of a Bernoulli beam and its clamped-mode count below w."""
    lam = L * (m * w * w / EI) ** 0.25
    if lam < 0.05:  # series limit: static stiffness less the consistent mass
        K = EI / L**3 * np.array([[12, 6 * L, -12, 6 * L], [6 * L, 4 * L * L, -6 * L, 2 * L * L], [-12, -6 * L, 12, -6 * L], [6 * L, 2 * L * L, -6 * L, 4 * L * L]])
        M = m * L / 420 * np.array([[156, 22 * L, 54, -13 * L], [22 * L, 4 * L * L, 13 * L, -3 * L * L], [54, 13 * L, 156, -22 * L], [-13 * L, -3 * L * L, -22 * L, 4 * L * L]])
        return K - w * w * M, 0
    c, s = math.cos(lam), math.sin(lam)
    # hyperbolics divided by cosh, so that long members do not overflow
    th, ich = math.tanh(lam), 1 / math.cosh(lam) if lam < 700 else 0.0
    d = ich - c  # (1 - cosh cos)/cosh
    f = EI * lam / L
    a1 = f * (s - c * th) / d
    a2 = f * (th - s * ich) / d
    a3 = f * lam / L * (s * th) / d
    a4 = f * lam / L * (1 - c * ich) / d
    a5 = f * (lam / L) ** 2 * (s + c * th) / d
    a6 = f * (lam / L) ** 2 * (th + s * ich) / d
    K = np.array([[a5, a3, -a6, a4], [a3, a1, -a4, a2], [-a6, -a4, a5, -a3], [a4, a2, -a3, a1]])
    i = int(math.floor(lam / math.pi))
    j = i - (1 - (-1) ** i * (1 if d > 0 else -1)) // 2
    return K, int(j)


def count(case, w):
    """Number of exact natural frequencies below w (Wittrick-Williams)."""
    n = len(case["L"])
    K = np.zeros((2 * n + 2, 2 * n + 2))
    J = 0
    for i in range(n):
        k, j = dyn_stiff(case["L"][i], case["EI"][i], case["m"][i], w)
        K[2 * i : 2 * i + 4, 2 * i : 2 * i + 4] += k
        J += j
    for i, r in enumerate(case["R"]):
        if r > 0:
            K[i, i] += r
    free = [i for i, r in enumerate(case["R"]) if r >= 0]
    if free:
        # lengths scaled out so that the inertia count is well conditioned
        s = np.array([1.0 if i % 2 == 0 else 1.0 / case["L"][0] for i in free])
        ev = np.linalg.eigvalsh(K[np.ix_(free, free)] * np.outer(s, s))
        J += int(np.sum(ev < 0))
    return J


@st.composite
def cases(draw, max_spans=4):
    n = draw(st.integers(1, max_spans))
    L0 = draw(gen.lengths(2, 40))
    same = draw(st.integers(0, 2)) == 0
    L = [L0] + [L0 if same else draw(gen.lengths(max(1, L0 / 3), min(60, L0 * 3))) for _ in range(n - 1)]
    E = draw(gen.EI0)
    EI = [E * draw(st.sampled_from([1.0, 1.0, 0.5, 2.0])) for _ in range(n)]
    m0 = draw(st.sampled_from([0.2, 1.0, 12.5, 900.0]))
    scalar = draw(st.booleans())
    m = [m0 if scalar else m0 * draw(st.sampled_from([1.0, 0.4, 2.5])) for _ in range(n)]
    R = []
    for i in range(n + 1):
        kv = gen.r4(E / L0**3 * draw(st.sampled_from([0.5, 10.0, 300.0])))
        kr = gen.r4(E / L0 * draw(st.sampled_from([0.3, 3.0, 50.0])))
        R += gen.sup_dofs(draw(st.sampled_from(SUP)), kv, kr)
    case = {"L": L, "EI": EI, "et": [1] * n, "R": R, "GA": None, "kf": None, "D": None, "LM": []}
    gen.stabilise(case)
    case["m"] = m
    case["how"] = draw(st.sampled_from(["scalar", "int", "list", "array"])) if len(set(m)) == 1 else draw(st.sampled_from(["list", "array"]))
    if case["how"] == "int" and m[0] != int(m[0]):
        case["how"] = "scalar"
    case["nseg"] = draw(st.sampled_from([12, 12, 12, 6, 8, 20]))
    case["n_modes"] = draw(st.sampled_from([10, 10, 1, 3, 6, 11, 15, 25, 200]))
    case["analysed"] = draw(st.booleans())
    return case


def solve(case, ba, **kw):
    how = case.get("how", "list")
    m = case["m"]
    mass = m[0] if how == "scalar" else int(m[0]) if how == "int" else np.array(m) if how == "array" else list(m)
    a = {}
    if case["nseg"] != 12:
        a["nseg"] = case["nseg"]
    if case["n_modes"] != 10:
        a["n_modes"] = case["n_modes"]
    a.update(kw)
    return ba.modal(mass, **a)


def build(case):
    c = {k: v for k, v in case.items() if k in ("L", "EI", "et", "R", "GA", "kf", "D", "LM")}
    ba = gen.beam_analysis(c, [[1, 1, 7.0]] if case.get("analysed") else [])
    if case.get("analysed"):
        ba.analyze()
    return ba


def tolerances(case, w, wmax):
    """Relative excess of the mesh frequency over the exact one, and round-off."""
    bh = max(l / case["nseg"] * (m * w * w / e) ** 0.25 for l, m, e in zip(case["L"], case["m"], case["EI"]))
    return bh, 3 * bh**4 / 1440 + 1e-6, 1e-6 + 1e-13 * (wmax / w) ** 2


def omega_max(case):
    h = [l / case["nseg"] for l in case["L"]]
    w = max((e / m) ** 0.5 * (8.5 / hh) ** 2 for e, m, hh in zip(case["EI"], case["m"], h))
    k = max([r for r in case["R"] if r > 0], default=0.0)
    return w + math.sqrt(40 * k / min(mm * min(hh, hh**3) for mm, hh in zip(case["m"], h)))


def check(case, rec):
    ba = build(case)
    before = copy.deepcopy(ba.beam_results.results.M.copy()) if case.get("analysed") else None
    res = solve(case, ba)
    n = len(case["L"])
    ns = case["nseg"]
    w = np.asarray(res.omega, float)
    nfree = 2 * (n * ns + 1) - sum(1 for r in case["R"] if r < 0)
    require(len(w) == res.n_modes == min(case["n_modes"], nfree), f"{len(w)} modes returned, {case['n_modes']} asked, {nfree} available")
    require(np.all(np.isfinite(w)) and np.all(w > 0), "frequencies not positive", w)
    require(np.all(np.diff(w) >= -1e-9 * w[1:]), "frequencies not ascending", w)
    require(np.allclose(res.f, w / 2 / math.pi, rtol=1e-12) and np.allclose(res.periods, 2 * math.pi / w, rtol=1e-12), "f and periods disagree with omega")
    rec.cls(f"spans={n}", "spring" if any(r > 0 for r in case["R"]) else "rigid", "mass=" + case["how"])
    rec.cls("uniform-mass" if len(set(case["m"])) == 1 else "varied-mass")
    wmax = omega_max(case)
    tested = 0
    for i, wi in enumerate(w):
        bh, up, ro = tolerances(case, wi, wmax)
        if bh > 1.2 or ro > 1e-3:
            break
        tested += 1
        # Rayleigh-Ritz: never below the exact frequency, above it by the mesh error
        lo, hi = count(case, wi * (1 - up - ro)), count(case, wi * (1 + ro))
        require(hi >= i + 1, f"mode {i+1}: omega={wi:.8g} lies below the exact frequency (only {hi} exact frequencies up to it)")
        require(lo <= i, f"mode {i+1}: omega={wi:.8g} lies above the exact frequency by more than the mesh error ({lo} exact frequencies below {wi*(1-up-ro):.8g})")
    rec.mark(tested >= min(2, case["n_modes"]))
    # nodes of the mesh
    x = np.asarray(res.x, float)
    ex = np.concatenate([[0.0]] + [np.arange(1, ns + 1) * L / ns + X for L, X in zip(case["L"], np.concatenate([[0], np.cumsum(case["L"])[:-1]]))])
    require(x.shape == ex.shape and np.allclose(x, ex, atol=1e-9 * ex[-1]), "mesh coordinates are not the refined spans")
    phi = np.asarray(res.phi, float)
    require(phi.shape == (2 * len(ex), len(w)), f"phi has shape {phi.shape}")
    # supports hold, modes orthogonal, Rayleigh quotient = omega^2
    for i, r in enumerate(case["R"]):
        if r < 0:
            dof = 2 * (i // 2) * ns + i % 2
            require(np.all(phi[dof] == 0), f"mode moves the rigid support of DOF {i}")
    g, gw = np.polynomial.legendre.leggauss(5)
    T = np.zeros((len(w), len(w)))
    U = np.zeros((len(w), len(w)))
    for e in range(n * ns):
        s = e // ns
        h = case["L"][s] / ns
        xi = (g + 1) / 2
        N = np.array([1 - 3 * xi**2 + 2 * xi**3, h * (xi - 2 * xi**2 + xi**3), 3 * xi**2 - 2 * xi**3, h * (xi**3 - xi**2)])
        B = np.array([-6 + 12 * xi, h * (-4 + 6 * xi), 6 - 12 * xi, h * (6 * xi - 2)]) / h**2
        d = phi[2 * e : 2 * e + 4]
        v, k = N.T @ d, B.T @ d
        wt = (gw * h / 2)[:, None]
        T += case["m"][s] * v.T @ (wt * v)
        U += case["EI"][s] * k.T @ (wt * k)
    for i, r in enumerate(case["R"]):
        if r > 0:
            d = phi[2 * (i // 2) * ns + i % 2]
            U += r * np.outer(d, d)
    dT = np.sqrt(np.diag(T))
    require(np.all(dT > 0), "a mode shape is zero")
    O = T / np.outer(dT, dT) - np.eye(len(w))
    require(np.abs(O).max() < 1e-5, f"mode shapes are not mass-orthogonal ({np.abs(O).max():.3g})")
    q = np.diag(U) / np.diag(T)
    ro = 1e-6 + 1e-13 * (wmax / w) ** 2
    bad = np.abs(q / w**2 - 1) > 4 * ro
    require(not np.any(bad), f"Rayleigh quotient of a mode differs from omega^2: {q[bad]} vs {w[bad]**2}")
    OU = U / np.sqrt(np.outer(np.diag(U), np.diag(U))) - np.eye(len(w))
    for i in range(len(w)):
        for j in range(i):
            r = (w[i] / w[j]) * (1e-5 + 1e-12 * (wmax / w[j]) ** 2)
            require(abs(OU[i, j]) < max(r, 1e-4), f"modes {i+1},{j+1} are not stiffness-orthogonal ({OU[i,j]:.3g})")
    for k in range(len(w)):
        xs, v = res.mode_shape(k)
        p = phi[0::2, k]
        require(np.allclose(xs, ex, atol=1e-9 * ex[-1]), "mode_shape coordinates")
        require(abs(np.abs(v).max() - 1) < 1e-9 and v[np.argmax(np.abs(v))] > 0 or abs(v.max() - 1) < 1e-9, "mode shape is not normalised to +1")
        c = float(v @ p / (p @ p))
        require(np.allclose(v, c * p, atol=1e-9), "mode_shape is not the eigenvector's deflection")
    if before is not None:
        require(np.array_equal(before, ba.beam_results.results.M), "modal analysis changed the static results")


# ------------------------------------------------------------ metamorphic -----
@st.composite
def related(draw):
    case = draw(cases(3))
    case["how"] = "list"
    case["op"] = draw(st.sampled_from(["stiff", "mass", "length", "mirror", "split", "loads", "more-modes", "restrain"]))
    case["f"] = draw(st.sampled_from([0.25, 3.0, 7.5]))
    case["pick"] = draw(st.integers(0, 30))
    return case


def related_check(case, rec):
    op, f = case["op"], case["f"]
    rec.cls("op=" + op)
    rec.mark()
    a = solve(case, build(case))
    b = copy.deepcopy(case)
    wmax = omega_max(case)
    ref, tol = a.omega, 1e-6 + 1e-13 * (wmax / a.omega) ** 2
    n = len(case["L"])
    if op == "stiff":
        b["EI"] = [e * f for e in b["EI"]]
        b["R"] = [r * f if r > 0 else r for r in b["R"]]
        ref = ref * f**0.5
    elif op == "mass":
        b["m"] = [m * f for m in b["m"]]
        ref = ref / f**0.5
    elif op == "length":
        b["L"] = [l * f for l in b["L"]]
        b["R"] = [(r / f**3 if i % 2 == 0 else r / f) if r > 0 else r for i, r in enumerate(b["R"])]
        ref = ref / f**2
    elif op == "mirror":
        for k in ("L", "EI", "m"):
            b[k] = b[k][::-1]
        b["R"] = [v for i in range(n, -1, -1) for v in case["R"][2 * i : 2 * i + 2]]
    elif op == "split":
        # the same mesh, described as two half spans per span
        b["nseg"] = case["nseg"] // 2
        for k in ("L", "EI", "m"):
            b[k] = [v / 2 if k == "L" else v for v in case[k] for _ in (0, 1)]
        R = []
        for i in range(n + 1):
            R += case["R"][2 * i : 2 * i + 2] + ([0, 0] if i < n else [])
        b["R"], b["et"] = R, [1] * (2 * n)
    elif op == "loads":
        b["analysed"] = not case["analysed"]
    elif op == "more-modes":
        b["n_modes"] = case["n_modes"] + 4
        ref = ref
    elif op == "restrain":
        free = [i for i, r in enumerate(case["R"]) if r >= 0]
        if not free:
            return
        k = free[case["pick"] % len(free)]
        b["R"][k] = -1
        w = solve(b, build(b)).omega
        m = min(len(w), len(ref))
        require(np.all(w[:m] >= ref[:m] * (1 - tol[:m])), f"a further restraint lowers a frequency: {w[:m]} < {ref[:m]}")
        more = solve({**case, "n_modes": case["n_modes"] + 1}, build(case)).omega
        m = min(len(w), len(more) - 1)
        require(np.all(w[:m] <= more[1 : m + 1] * (1 + tol[:m])), f"frequencies after one restraint do not interlace: {w[:m]} > {more[1:m+1]}")
        return
    w = solve(b, build(b)).omega
    m = min(len(w), len(ref))
    require(len(w) >= len(ref), f"{len(w)} modes after {op}, {len(ref)} before")
    bad = np.abs(w[:m] / ref[:m] - 1) > 2 * tol[:m]
    require(not np.any(bad), f"{op}: frequencies {w[:m][bad]}, expected {ref[:m][bad]}")


# ------------------------------------------------------------ refused ---------
@st.composite
def outside(draw):
    kind = draw(st.sampled_from(["section", "gav", "kf", "release", "mass"]))
    c = draw(gen.beams(max_spans=3, min_spans=2 if kind == "release" else 1, hinges=False, settlements=False,
                       nonprismatic=kind == "section", timo=kind == "gav", found=kind == "kf", types=(1,)))
    if kind == "release":
        n = len(c["L"])
        i = draw(st.integers(0, n - 1))
        c["et"][i] = draw(st.sampled_from([2, 3, 4]))
        # keep the model statically sensible: hold every node
        c["R"] = [-1, -1] * (n + 1)
    c["kind"] = kind
    c["mass"] = [1.0] * (len(c["L"]) + draw(st.sampled_from([-1, 1, 2]))) if kind == "mass" else draw(st.sampled_from([1.0, 20]))
    return c


def outside_check(case, rec):
    rec.cls("outside=" + case["kind"])
    rec.mark()
    ba = gen.beam_analysis(case)
    try:
        r = ba.modal(case["mass"])
    except NotImplementedError:
        require(case["kind"] != "mass", "wrong number of masses reported as not implemented")
        return
    except ValueError:
        require(case["kind"] == "mass", "unsupported model reported as a value error")
        return
    require(False, f"a model with {case['kind']} outside the modal theory was analysed", r)


CHECK = Check(
    "C23",
    "at least two modes (or all that were asked for) lie inside the mesh's accurate range and are counted against the exact spectrum",
    [
        Sub("spectrum", cases, check, 1500, 16000),
        Sub("relations", related, related_check, 900, 8000),
        Sub("refused", outside, outside_check, 80, 1500),
    ],
    ["mass per length is positive; rigid-body modes of unsupported beams are outside the domain", "the mesh frequency exceeds the exact one by at most 3(bh)^4/1440, compared while bh <= 1.2"],
)
