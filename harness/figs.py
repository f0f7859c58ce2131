"""Figures of the library: random scenes, every plotting call, and what a figure holds."""
from __future__ import annotations

import contextlib
import warnings

import numpy as np
from hypothesis import strategies as st

from . import gen, moving, plastic
from .core import SkipCase

BEAM = ["results", "bmd", "sfd", "dsd", "reactions", "schematic", "response", "patterns"]
BRIDGE = ["envelopes", "coincidents", "static", "bridge_envelopes", "ratios"]
OTHER = ["il", "modes", "modal_results", "tendon", "vehicle"]
NONLINEAR = ["nl_moments", "nl_history", "nl_state", "nl_collapse"]
PLOTLY = ["results", "bmd", "sfd", "dsd", "envelopes"]
UNITS = ["results", "bmd", "sfd", "dsd", "reactions", "schematic"] + BRIDGE + OTHER + NONLINEAR


@st.composite
def scenes(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    c = {"kind": kind}
    if kind in NONLINEAR:
        from checks import c24

        c["nl"] = draw(c24.models(2, springs=False))
        c["row"] = [draw(st.integers(1, len(c["nl"]["L"]))), draw(st.sampled_from([0.25, 0.5, 0.75]))]
        c["over"] = draw(st.sampled_from([0.5, 1.2, 2.0]))
        c["moving"] = draw(st.booleans())
        c["record"] = draw(st.sampled_from([0, 1, 4])) if c["moving"] else draw(st.sampled_from([0, 37, 400]))
        return c
    if kind == "vehicle":
        c["veh"] = draw(moving.vehicles(1, 6))
        return c
    bridge = kind in BRIDGE or kind == "il"
    simple = kind in ("modes", "modal_results", "tendon")
    variant = draw(st.integers(0, 5))
    c["beam"] = draw(
        gen.beams(
            max_spans=3,
            settlements=not bridge and not simple,
            springs=not simple and kind != "il",
            hinges=not simple,
            free_ends=not simple,
            nonprismatic=kind in ("results", "schematic") and variant == 0,
            found=kind == "schematic" and variant == 1,
            types=(1, 2, 3) if bridge else (1, 2, 3, 4, 5),
            overhang=False,
            llo=2.0,
            lhi=30.0,
        )
    )
    if c["beam"].get("kf") is not None:
        c["beam"]["LM"] = [r for r in c["beam"]["LM"] if r[1] in (1, 2, 3)] or [[1, 1, 4.0]]
    if bridge:
        c["veh"] = draw(moving.vehicles(1, 4))
        c["n"] = draw(st.integers(4, 14))
        c["pos"] = draw(st.sampled_from([0.0, 0.3, 0.77, 1.0]))
        c["statics"] = draw(st.booleans())
        c["trial"] = draw(st.sampled_from(["same", "other"]))
    if kind == "il":
        c["poi"], c["eff"] = draw(gen.frac()), draw(st.sampled_from(["M", "V", "R"]))
    if simple:
        c["modes"] = draw(st.sampled_from([0, 1, [0, 2], [1], None]))
        c["mass"] = draw(st.sampled_from([1.0, 2.4, 10.0]))
        c["F"] = draw(st.sampled_from([500.0, 1250.0]))
        c["e"] = [draw(st.sampled_from([-0.2, 0.0, 0.1, 0.35, 0.6])) for _ in range(3)]
    return c


def bridge(c):
    import pycba as cba

    case = c["beam"]
    ba = gen.beam_analysis(case, LM=[])
    v = moving.vehicle(c["veh"])
    b = cba.BridgeAnalysis(ba, v)
    if c["statics"]:
        b.static_LM = [list(r) for r in case["LM"]]
    return b


def run(b, c, v=None, k=None):
    """The traverse of a scene."""
    tot = float(sum(c["beam"]["L"]))
    return b.run_vehicle((tot + b.veh.L) / (k or c["n"]))


class Scene:
    """The analysed objects of a scene and the plotting call, still to be made."""

    def __init__(self, c):
        import pycba as cba

        self.c, k = c, c["kind"]
        self.kw = {}
        if k in NONLINEAR:
            from checks import c24

            nl = c["nl"]
            a = c24.nba(nl)
            i, f = c["row"]
            L, Mp = nl["L"][i - 1], np.min(nl["Mp"])
            P = 8.0 * Mp / L
            if c["moving"]:
                self.veh = cba.Vehicle([nl["mesh"] * 2], [0.3 * P * c["over"], 0.2 * P * c["over"]])
                self.obj = a.analyze_moving(vehicle=self.veh, step=nl["mesh"] * 2, record_every=c["record"] or 1)
            else:
                self.veh = None
                x = round(f * L / nl["mesh"]) * nl["mesh"]
                self.obj = a.analyze([[i, 2, 0.2 * P, x]], record_every=c["record"])
            self.call = {
                "nl_moments": lambda **kw: self.obj.plot_moments(Mp=float(Mp), **kw),
                "nl_history": lambda **kw: self.obj.plot_hinge_history(moving=c["moving"], **kw),
                "nl_state": lambda **kw: self.obj.plot_beam_state(vehicle=self.veh, **kw),
                "nl_collapse": lambda **kw: self.obj.plot_collapse(**kw),
            }[k]
            return
        if k == "vehicle":
            self.obj = moving.vehicle(c["veh"])
            self.call = lambda **kw: self.obj.plot(show=False, **kw)
            return
        case = c["beam"]
        if k in BRIDGE:
            self.ref = gen.solved_reference(case, rc_min=1e-6)
            self.obj = bridge(c)
            self.env = run(self.obj, c)
            self.pos = float(c["pos"]) * (sum(case["L"]) + self.obj.veh.L)
            if k == "ratios":
                w = [x * (1.3 if c["trial"] == "other" else 1.0) for x in c["veh"]["w"]]
                self.obj.add_vehicle(np.array(c["veh"]["s"], float), np.array(w))
                trial = run(self.obj, c)
                self.ratios = self.obj.envelopes_ratios(trial, self.env)
            self.call = {
                "envelopes": lambda **kw: self.env.plot(**kw),
                "coincidents": lambda **kw: self.env.plot_coincidents(show=False, **kw),
                "static": lambda **kw: self.obj.plot_static(self.pos, **kw),
                "bridge_envelopes": lambda **kw: self.obj.plot_envelopes(self.env, **kw),
                "ratios": lambda **kw: self.obj.plot_ratios(self.ratios, **kw),
            }[k]
            return
        if k == "il":
            gen.solved_reference(case, rc_min=1e-6)
            kw = gen.kwargs(case)
            self.obj = cba.InfluenceLines(kw["L"], kw["EI"], kw["R"], kw.get("eletype"))
            self.poi = c["poi"] * sum(case["L"])
            self.data = self.obj.get_il(self.poi, c["eff"])
            self.call = lambda **kw: self.obj.plot_il(self.poi, c["eff"], **kw)
            return
        if k in ("modes", "modal_results"):
            gen.solved_reference(case, rc_min=1e-6)
            self.obj = gen.beam_analysis(case, LM=[]).modal(mass=c["mass"], n_modes=4)
            m = c["modes"]
            if k == "modes":
                self.call = lambda **kw: self.obj.plot_modes(0 if m is None else m, **kw)
            else:
                self.call = lambda **kw: self.obj.plot_results(m, **kw)
            return
        if k == "tendon":
            gen.solved_reference(case, rc_min=1e-6)
            self.obj = gen.beam_analysis(case, LM=[])
            prof = [cba.prestress.Parabola(*c["e"]) for _ in case["L"]]
            self.call = lambda **kw: cba.prestress.plot_tendon(self.obj, c["F"], prof, **kw)
            return
        self.ref = gen.solved_reference(case, rc_min=1e-6)
        self.obj = gen.analysed(case)
        self.call = {
            "results": lambda **kw: self.obj.plot_results(**{"show": False, **kw}),
            "bmd": lambda **kw: self.obj.plot_bmd(**kw),
            "sfd": lambda **kw: self.obj.plot_sfd(**kw),
            "dsd": lambda **kw: self.obj.plot_dsd(**kw),
            "reactions": lambda **kw: self.obj.plot_reactions(show=False, **kw),
            "schematic": lambda **kw: self.obj.plot_beam(dimensions=True, **kw),
        }[k]


@contextlib.contextmanager
def clean():
    """No open figures, default units and backend, before and after."""
    import matplotlib.pyplot as plt
    import pycba as cba

    def reset():
        plt.close("all")
        cba.set_units("SI")
        cba.set_backend("matplotlib")

    reset()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        reset()


def axes(call, **kw):
    """(return value, all axes of the figures that the call opened)."""
    import matplotlib.pyplot as plt

    before = set(plt.get_fignums())
    out = call(**kw)
    new = [plt.figure(n) for n in plt.get_fignums() if n not in before]
    return out, [ax for f in new for ax in f.axes]


def lines(ax):
    """The curves of an axes, as (x, y) arrays."""
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.get_lines()]


def texts(ax):
    """[(x, y, text)] of every non-empty text placed in an axes."""
    return [(t.get_position()[0], t.get_position()[1], t.get_text()) for t in ax.texts if t.get_text()]


def arrows(ax):
    """[(tail, head)] of every arrow of an axes, in data coordinates."""
    return [(tuple(map(float, t.xyann)), tuple(map(float, t.xy))) for t in ax.texts if getattr(t, "arrowprops", None) is not None and getattr(t, "arrow_patch", None) is not None]


def snapshot(axs):
    """Everything visible, as plain data."""
    out = []
    for ax in axs:
        leg = ax.get_legend()
        out.append(
            {
                "x": ax.get_xlabel(),
                "y": ax.get_ylabel(),
                "title": ax.get_title(),
                "inv": ax.yaxis_inverted(),
                "lim": [float(v) for v in (*ax.get_xlim(), *ax.get_ylim())],
                "lines": lines(ax),
                "texts": texts(ax),
                "legend": [t.get_text() for t in leg.get_texts()] if leg else [],
                "arrows": arrows(ax),
                "patches": [np.asarray(p.get_path().vertices, float) for p in ax.patches],
                "coll": [np.concatenate([np.asarray(p.vertices, float) for p in q.get_paths()] + [np.asarray(q.get_offsets(), float).reshape(-1, 2)]) for q in ax.collections],
            }
        )
    return out


def has_curve(ax, x, y, tol=None):
    """Is the curve (x, y) drawn in the axes?"""
    x, y = np.asarray(x, float), np.asarray(y, float)
    t = 1e-9 * max(1e-300, float(np.max(np.abs(y), initial=0.0))) if tol is None else tol
    return any(len(u) == len(x) and np.allclose(u, x, rtol=1e-9, atol=1e-9 * max(1.0, np.max(np.abs(x)))) and np.all(np.abs(v - y) <= t) for u, v in lines(ax))
