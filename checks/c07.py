"""C07: a mechanism is refused, a stable structure is not - at any point of a history."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Check, SkipCase, Sub, require


def mechanism(L, et, R, D, kf=None):
    """Kinematics of rigid members: is there a displacement needing no strain?"""
    n = len(L)
    nd = 2 * (n + 1) + 2 * n  # nodes, then member end rotations
    rows = []

    def row(*pairs):
        r = np.zeros(nd)
        for i, c in pairs:
            r[i] += c
        rows.append(r / np.linalg.norm(r))

    ls = np.mean(L)
    for i in range(n):  # members straight and of rotation (v2 - v1)/L; v scaled by ls
        a, b = 2 * (n + 1) + 2 * i, 2 * (n + 1) + 2 * i + 1
        row((a, 1.0), (2 * i, ls / L[i]), (2 * i + 2, -ls / L[i]))
        row((b, 1.0), (a, -1.0))
        if et[i] not in (3, 4):
            row((a, 1.0), (2 * i + 1, -1.0))
        if et[i] not in (2, 4):
            row((b, 1.0), (2 * i + 3, -1.0))
        if kf and kf[i] is not None:
            row((2 * i, 1.0))
            row((2 * i + 2, 1.0))
    for i, r in enumerate(R):
        if r != 0 or D[i] is not None:
            row((i, 1.0))
    s = np.linalg.svd(np.array(rows), compute_uv=False)
    s = np.concatenate([s, np.zeros(max(0, nd - len(s)))])
    if s[nd - 1] < 1e-9:
        return True
    if s[nd - 1] > 1e-6:
        return False
    raise SkipCase("borderline kinematics")


def supports():
    return st.sampled_from([(-1, 0), (-1, 0), (0, 0), (0, 0), (0, 0), (-1, -1), (0, -1), ("k", 0), (0, "k"), ("k", "k")])


@st.composite
def histories(draw):
    n = draw(st.integers(1, 5))
    many = draw(st.integers(0, 11)) == 11
    if many:
        n = draw(st.integers(6, 14))
    mm = draw(st.integers(0, 3)) == 3  # millimetres and newtons
    L = [draw(gen.lengths(2, 12)) * (1000.0 if mm else 1.0) for _ in range(n)]
    E = draw(st.sampled_from([1.0e3, 1.0e4, 1.0e5])) * (1e9 if mm else 1.0)
    stiff = st.sampled_from([1e-7, 1e-5, 1e-3, 1.0, 1.0, 1.0, 1.0, 1e4, 1e8, 1e10])
    et = [1 if many and draw(st.integers(0, 3)) else draw(st.sampled_from([1, 1, 1, 1, 2, 3, 1, 4])) for _ in range(n)]

    def R_():
        out = []
        held = draw(st.booleans())
        for _ in range(n + 1):
            a, b = draw(supports()) if not held or draw(st.integers(0, 3)) == 0 else (-1, 0)
            out += [E / L[0] ** 3 * 10 * draw(stiff) if a == "k" else a, E / L[0] * 3 * draw(stiff) if b == "k" else b]
        return out

    def D_():
        return [draw(st.sampled_from([None] * 6 + [0.0, 0.01])) for _ in range(2 * n + 2)]

    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["analyze", "analyze", "is_stable", "R", "R", "D", "loads", "noD"]))
        if k == "R":
            ops.append([k, R_()])
        elif k == "D":
            ops.append([k, D_()])
        elif k == "loads":
            ops.append([k, draw(st.lists(gen.load_row(L), max_size=2))])
        else:
            ops.append([k])
    return {"L": L, "EI": [E] * n, "et": et, "R": R_(), "ops": ops + [["is_stable"], ["analyze"]],
            "LM": draw(st.lists(gen.load_row(L), max_size=2)), "kf": None}


def check(case, rec):
    import pycba

    n = len(case["L"])
    # an end release at a node where the other member is released too leaves that
    # node's rotation to the supports: the library's model, also modelled here
    cur = {"R": list(case["R"]), "D": [None] * (2 * n + 2), "LM": case["LM"]}

    def expected():
        R, D = cur["R"], cur["D"]
        if any(r > 0 and d is not None for r, d in zip(R, D)):
            raise SkipCase("spring with a prescribed displacement")
        mech = mechanism(case["L"], case["et"], R, D)
        if not mech:
            c = dict(case, R=R, D=D, GA=None)
            try:
                rc = gen.reference(c, LM=[]).conditioning()
            except np.linalg.LinAlgError:
                raise SkipCase("singular")
            if rc < 3e-11:
                raise SkipCase("stable but badly conditioned")
            cur["rc"] = rc
        return mech

    ba = pycba.BeamAnalysis(list(case["L"]), list(case["EI"]), list(case["R"]), [list(r) for r in case["LM"]], list(case["et"]))
    seen = set()
    for op in case["ops"]:
        k = op[0]
        if k == "R":
            cur["R"] = list(op[1])
            ba.beam.restraints = list(op[1])
        elif k == "D":
            cur["D"] = list(op[1])
            ba.beam.prescribed_displacements = list(op[1])
        elif k == "noD":
            cur["D"] = [None] * (2 * n + 2)
            ba.beam.prescribed_displacements = [None] * (2 * n + 2)
        elif k == "loads":
            cur["LM"] = op[1]
            ba.set_loads([list(r) for r in op[1]])
        elif k == "is_stable":
            m = expected()
            got = ba.is_stable()
            require(bool(got) == (not m), f"is_stable() = {got} for a {'mechanism' if m else 'stable structure'}")
            seen.add(m)
        else:
            m = expected()
            seen.add(m)
            try:
                out = ba.analyze()
                raised = False
            except ValueError:
                raised = True
            require(raised == m, f"analyze() {'raised' if raised else 'accepted'} a {'mechanism' if m else 'stable structure'}")
            if not m:
                require(out == 0, f"analyze() returned {out!r}")
                br = ba.beam_results
                require(np.all(np.isfinite(br.D)) and np.all(np.isfinite(br.results.M)), "non-finite results")
                if cur["rc"] < 1e-8:
                    rec.cls("barely stable")
                    continue
                # the accepted analysis is of the *current* structure
                ref = gen.solved_reference(dict(case, R=cur["R"], D=cur["D"], LM=cur["LM"], GA=None))
                from harness import cmp

                cmp.reactions(ba, ref, rtol=1e-5)
    rec.cls("both" if len(seen) == 2 else "mechanism" if True in seen else "stable")
    rec.mark(True in seen or len(case["ops"]) > 3)


def soft(case, rec):
    check(case, rec)
    rec.mark()


@st.composite
def soft_cases(draw):
    """Structures held against one movement by soft springs only: barely stable."""
    n = draw(st.integers(1, 4))
    L = [draw(gen.lengths(2, 12)) for _ in range(n)]
    E = draw(st.sampled_from([1.0e3, 1.0e5]))
    f = 10.0 ** draw(st.floats(-10.5, -3.0))
    kv, kr = E / sum(L) ** 3 * f, E / sum(L) * f
    R = [0] * (2 * n + 2)
    kind = draw(st.sampled_from(["pin+spring", "rotation", "springs", "clamped guide"]))
    j = draw(st.integers(1, n))
    if kind == "pin+spring":
        R[0], R[2 * j] = -1, kv
    elif kind == "rotation":
        R[2 * j], R[2 * j + 1] = -1, kr
    elif kind == "springs":
        R[0], R[2 * j] = kv, kv * draw(st.sampled_from([1.0, 30.0]))
    else:
        R[2 * j + 1], R[0] = -1, kv
    return {"L": L, "EI": [E] * n, "et": [1] * n, "R": R, "ops": [["is_stable"], ["analyze"]] if draw(st.booleans()) else [["analyze"], ["is_stable"]],
            "LM": [], "kf": None}


CHECK = Check(
    "C07",
    "non-trivial = a mechanism occurred, the structure/loads were edited between analyses, or a structure was held by soft springs only",
    [Sub("history", histories, check, 3000, 60000), Sub("soft", soft_cases, soft, 300, 4000)],
    ["a structure is called stable only when its scaled stiffness is at least 3e-11 away from singular"],
)
