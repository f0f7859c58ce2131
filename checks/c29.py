"""C29: display units and backends change labels and the deflection scale, nothing else."""
import re

import numpy as np
from hypothesis import strategies as st

from harness import figs, gen
from harness.core import Check, Sub, require

# The documented presets: (force, length, moment, distributed, deflection label, scale)
PRESETS = {
    "SI": ("kN", "m", "kNm", "kN/m", "mm", 1000.0),
    "SI_N_MM": ("N", "mm", "N·mm", "N/mm", "mm", 1.0),
    "US_KIP_FT": ("kip", "ft", "kip·ft", "kip/ft", "in", 12.0),
    "US_KIP_IN": ("kip", "in", "kip·in", "kip/in", "in", 1.0),
    "NONE": ("", "", "", "", "", 1.0),
}
ALIASES = {
    "si": "SI", "kn-m": "SI", "knm": "SI", "eu": "SI", "aus": "SI", "metric": "SI",
    "si-n-mm": "SI_N_MM", "n-mm": "SI_N_MM", "nmm": "SI_N_MM",
    "us": "US_KIP_FT", "us-ft": "US_KIP_FT", "kip-ft": "US_KIP_FT", "us-customary": "US_KIP_FT",
    "us-in": "US_KIP_IN", "kip-in": "US_KIP_IN",
    "none": "NONE", "dimensionless": "NONE", "": "NONE",
}  # fmt: skip
BAD = ["furlongs", "SI2", "kN", "metre", "us-yd", "--", "imperial"]
FIELDS = ("force", "length", "moment", "distributed", "disp_label", "disp_scale")


@st.composite
def written(draw):
    """An alias in some letter case, with blanks or underscores for its hyphens."""
    a = draw(st.sampled_from(sorted(ALIASES)))
    s = draw(st.sampled_from([a, a, a.upper(), a.title()]))
    if draw(st.integers(0, 2)) == 0:
        s = s.replace("-", draw(st.sampled_from([" ", "_"])))
    if draw(st.integers(0, 4)) == 0:
        s = " " + s + " "
    return ["preset", s, a]


@st.composite
def custom(draw):
    q = draw(st.sampled_from([["uF", "uL", "uM", "uW", "uD"], ["MN", "km", "MN·km", "MN/km", "cm"], ["tf", "m", "tf·m", "tf/m", "mm"], ["uF", "", "uM", "", "uD"], ["", "uL", "", "uW", ""]]))
    return ["custom", q, draw(st.sampled_from([1.0, 1000.0, 12.0, 100.0, 0.001, 25.4])), draw(st.sampled_from(["mine", "mine", "custom", "SI", "US", "none", "", "SI (kN, m)", "SI (N, mm)", "US (kip, ft)", "dimensionless"]))]


def unit_args():
    return st.one_of(written(), custom(), custom())


def make(u):
    """(argument to pass, the expected quantities)."""
    import pycba as cba
    from pycba import units as U

    if u is None:
        return None, None
    if u[0] == "preset":
        return u[1], PRESETS[ALIASES[u[2]]]
    f, l, m, w, d = u[1]
    return U.UnitSystem(u[3] if len(u) > 3 else "mine", f, l, m, w, d, u[2]), (f, l, m, w, d, u[2])


# ------------------------------------------------------------- the registry ----
@st.composite
def histories(draw):
    op = st.one_of(
        written().map(lambda u: ["set", u]),
        custom().map(lambda u: ["set", u]),
        st.sampled_from(BAD).map(lambda s: ["bad", s]),
        written().map(lambda u: ["resolve", u]),
        st.sampled_from(["matplotlib", "plotly", "Matplotlib", "PLOTLY"]).map(lambda s: ["backend", s]),
        st.sampled_from(["ggplot", "mpl", "none", " plotly", "bokeh"]).map(lambda s: ["badbackend", s]),
        st.sampled_from([["value", "F"], ["value", "M"], ["value", "W"]]),
        st.just(["axes"]),
    )
    ops = draw(st.lists(op, min_size=2, max_size=10))
    return {"ops": ops, "v": [draw(st.one_of(st.integers(-500, 500).map(float), st.floats(-1e6, 1e6).map(gen.r4), st.sampled_from([0.0, 1e-7, 123456.0, 1e9]))) for _ in range(2)]}


def suffix(unit):
    return f" ({unit})" if unit else ""


def is_system(us, q, what):
    for k, v in zip(FIELDS, q):
        require(getattr(us, k) == v, f"{what}: {k} is {getattr(us, k)!r}, not {v!r}")


def value(text, unit, v, what):
    m = re.fullmatch(r"(\S+)" + (re.escape(" " + unit) if unit else ""), text)
    require(m is not None, f"{what}: {text!r} is not a number followed by {unit!r}")
    got = [float(t) for t in m.group(1).split("→")]
    require(len(got) == len(v) and all(abs(a - b) <= 1e-5 * max(abs(b), 1e-300) for a, b in zip(got, v)), f"{what}: {text!r} for {v}")


def registry(c, rec):
    import pycba as cba
    from pycba import plotting, units as U

    with figs.clean():
        now, back = PRESETS["SI"], "matplotlib"
        require(U.get_units() is U.SI, "the default is not SI")
        for op in c["ops"]:
            rec.cls(op[0])
            rec.mark()
            if op[0] == "set":
                arg, q = make(op[1])
                out = cba.set_units(arg)
                now = q
                is_system(out, q, f"set_units({arg!r})")
                if op[1][0] == "custom":
                    require(cba.get_units() is arg, "a unit system is not kept as it is")
            elif op[0] == "resolve":
                arg, q = make(op[1])
                is_system(U.resolve(arg), q, f"resolve({arg!r})")
                is_system(U.resolve(None), now, "resolve(None)")
            elif op[0] == "bad":
                for f in (cba.set_units, U.resolve):
                    try:
                        f(op[1])
                    except KeyError as e:
                        require(op[1] in str(e), f"the refusal of {op[1]!r} does not name it")
                    else:
                        require(False, f"unknown unit system {op[1]!r} accepted")
            elif op[0] == "backend":
                cba.set_backend(op[1])
                back = op[1].lower()
                require(plotting.resolve_backend(op[1]) == back, "resolve_backend")
            elif op[0] == "badbackend":
                for f in (cba.set_backend, plotting.resolve_backend):
                    try:
                        f(op[1])
                    except ValueError:
                        pass
                    else:
                        require(False, f"unknown backend {op[1]!r} accepted")
            elif op[0] == "value":
                us = cba.get_units()
                a, b = c["v"]
                f, l, m, w, d, k = now
                value(us.fmt_force(a), f, [a], "fmt_force")
                value(us.fmt_moment(a), m, [a], "fmt_moment")
                value(us.fmt_distributed(a), w, [a], "fmt_distributed")
                value(us.fmt_distributed(a, a), w, [a], "fmt_distributed of equal ends")
                value(us.fmt_distributed(a, b), w, [a] if a == b else [a, b], "fmt_distributed")
            elif op[0] == "axes":
                us = cba.get_units()
                f, l, m, w, d, k = now
                for got, base, u in ((us.moment_axis, "Bending Moment", m), (us.shear_axis, "Shear Force", f), (us.deflection_axis, "Deflection", d), (us.distance_axis, "Distance along beam", l), (us.length_axis(), "Distance along beam", l), (us.length_axis("Position"), "Position", l)):
                    require(got == base + suffix(u), f"axis label {got!r}, expected {base + suffix(u)!r}")
            is_system(cba.get_units(), now, f"get_units after {op[0]}")
            require(cba.get_backend() == back and plotting.resolve_backend(None) == back, f"backend is {cba.get_backend()} after {op}")


# ---------------------------------------------------------------- the figures ----
@st.composite
def cases(draw):
    return {**draw(figs.scenes(figs.UNITS)), "units": draw(unit_args()), "global": draw(unit_args()), "other": draw(unit_args())}


# which quantity each axis label names
QUANTITY = [
    (r"(Coincident )?Bending Moment", "M"),
    (r"(Coincident )?Shear Force", "F"),
    (r"Deflection", "D"),
    (r"Distance along beam", "L"),
    (r"Position of Front Axle|Front axle position|Position along vehicle", "L"),
    (r"Reaction(s \[(max|min)\])?( \d+)?", "R"),
    (r"Tendon eccentricity", "L"),
]
PLAIN = r"|Bending Moment Ratio|Shear Force Ratio|Reaction Ratio \[(max|min)\]|Reaction ID|Influence Ordinate|Mode shape|Reactions|Load factor .*"
# axes that must be there, by kind: the quantities on the y axes
MUST = {
    "results": "MFD", "bmd": "M", "sfd": "F", "dsd": "D", "envelopes": "MF", "coincidents": "MFFM",
    "static": "MF", "bridge_envelopes": "MFR", "nl_moments": "M", "tendon": "L",
}  # fmt: skip
DISTANCE = ["results_", "bmd", "sfd", "dsd", "envelopes", "coincidents", "static", "bridge_envelopes", "ratios", "il", "modes", "modal_results", "schematic", "reactions", "nl_moments", "nl_history", "nl_state", "nl_collapse", "vehicle", "tendon"]


def label(text, q, what):
    """Check one axis label against the unit system; return its quantity."""
    f, l, m, w, d, k = q
    unit = {"M": m, "F": f, "D": d, "L": l, "R": f"{f}/{m}" if f and m else ""}
    head = text.split("\n")[0]
    for pat, kind in QUANTITY:
        if re.fullmatch(f"(?:{pat})" + re.escape(suffix(unit[kind])), head):
            # (a ratio or plain label has no unit)
            return kind
    require(re.fullmatch(PLAIN, head) is not None, f"{what}: axis label {text!r} names no known quantity in units {q[:5]}")
    return ""


def labels(axs, c, q):
    what = f"{c['kind']} in units {q[:5]}"
    ys = "".join(label(ax.get_ylabel(), q, what) for ax in axs)
    xs = "".join(label(ax.get_xlabel(), q, what) for ax in axs)
    if c["kind"] in MUST:
        need = MUST[c["kind"]]
        if c["kind"] == "bridge_envelopes":
            require(ys.startswith("MF") and set(ys[2:]) == {"R"}, f"{what}: y axes {ys}")
        else:
            require(sorted(ys) == sorted(need), f"{what}: y axes name {ys}, expected {need}")
    if c["kind"] in DISTANCE:
        require("L" in xs, f"{what}: no distance axis is labelled")
    # every value with a unit uses a unit of the system
    known = {u for u in q[:5] if u} | {""}
    for ax in axs:
        for _, _, t in figs.texts(ax):
            m = re.fullmatch(r"[-+0-9.e→]+( (\S.*))?", t)
            if m:
                require((m.group(2) or "") in known, f"{what}: value {t!r} has a foreign unit")


def same(a, b, scale, what):
    """Two snapshots show the same, deflection curves scaled."""
    require(len(a) == len(b), f"{what}: {len(a)} axes instead of {len(b)}")
    for p, q in zip(a, b):
        k = scale if q["y"].startswith("Deflection") else 1.0
        require(p["inv"] == q["inv"], f"{what}: axis direction")
        require(len(p["lines"]) == len(q["lines"]), f"{what}: {len(p['lines'])} curves instead of {len(q['lines'])}")
        for (x, y), (u, v) in zip(p["lines"], q["lines"]):
            require(len(x) == len(u) and np.allclose(x, u, rtol=1e-12, atol=0) and np.allclose(y, v * k, rtol=1e-9, atol=1e-300), f"{what}: a curve of the {q['y'] or 'unlabelled'} axes changed")
        for part in ("arrows", "patches", "coll"):
            require(len(p[part]) == len(q[part]), f"{what}: {part} of the {q['y']} axes")
            for u, v in zip(p[part], q[part]):
                u, v = np.asarray(u, float), np.asarray(v, float)
                require(u.shape == v.shape and np.allclose(u, v, rtol=1e-9, atol=1e-12), f"{what}: {part} of the {q['y']} axes moved")
        require(len(p["texts"]) == len(q["texts"]), f"{what}: {len(p['texts'])} texts instead of {len(q['texts'])}")


def numbers(t):
    return re.findall(r"[-+]?\d[\d.]*(?:e[-+]?\d+)?", t)


def figures(c, rec):
    import pycba as cba
    from pycba import units as U

    with figs.clean():
        s = figs.Scene(c)
        rec.cls(c["kind"])
        rec.mark()
        arg, q = make(c["units"])
        gl, gq = make(c["global"])
        # one figure with the units given, while others are the default
        cba.set_units(gl)
        keep = results(s)
        _, axs = figs.axes(s.call, units=arg)
        is_system(cba.get_units(), gq, "the default after a plot with units=")
        labels(axs, c, q)
        a = figs.snapshot(axs)
        # the same as the default
        cba.set_units(arg)
        _, axs = figs.axes(s.call)
        b = figs.snapshot(axs)
        same(a, b, 1.0, f"{c['kind']} by default instead of by argument")
        for p, r in zip(a, b):
            for key in ("x", "y", "title", "legend"):
                require(p[key] == r[key], f"{c['kind']}: {key} label {p[key]!r} by argument, {r[key]!r} by default")
            require([t[2] for t in p["texts"]] == [t[2] for t in r["texts"]], f"{c['kind']}: texts differ between argument and default")
        # other units: same figure, other names
        oarg, oq = make(c["other"])
        _, axs = figs.axes(s.call, units=oarg)
        labels(axs, c, oq)
        o = figs.snapshot(axs)
        same(o, a, oq[5] / q[5], f"{c['kind']} in other units")
        for p, r in zip(a, o):
            for t, u in zip(p["texts"], r["texts"]):
                require(numbers(t[2]) == numbers(u[2]), f"{c['kind']}: value {t[2]!r} became {u[2]!r} in other units")
        after = results(s)
        require(len(keep) == len(after) and all(np.array_equal(x, y) for x, y in zip(keep, after)), f"{c['kind']}: plotting changed the results")


def results(s):
    """The numbers behind a scene."""
    out = []

    def walk(o, depth=0):
        if isinstance(o, np.ndarray) and o.dtype.kind in "fi":
            out.append(o.copy())
        elif isinstance(o, (list, tuple)) and depth < 4:
            for v in o:
                walk(v, depth + 1)
        elif hasattr(o, "__dict__") and depth < 4 and type(o).__module__.startswith("pycba"):
            for k in sorted(vars(o)):
                if k != "_us":
                    walk(vars(o)[k], depth + 1)

    if s.c["kind"] != "static":  # (the static figure runs its own analysis)
        walk(s.obj)
    if hasattr(s, "env"):
        walk(s.env)
    return out


# ------------------------------------------------------------ interactive figures ----
@st.composite
def interactive_cases(draw):
    return {**draw(figs.scenes(figs.PLOTLY)), "units": draw(unit_args()), "global": draw(unit_args()), "how": draw(st.sampled_from(["call", "global", "both"]))}


def interactive(c, rec):
    import matplotlib.pyplot as plt
    import pycba as cba

    with figs.clean():
        s = figs.Scene(c)
        rec.cls(c["kind"], c["how"])
        rec.mark()
        arg, q = make(c["units"])
        gl, gq = make(c["global"])
        f, l, m, w, d, k = q
        kw = {}
        if c["how"] == "global":
            cba.set_backend("plotly")
            cba.set_units(arg)
        else:
            cba.set_units(gl)
            kw = {"units": arg, "backend": "plotly"}
            if c["how"] == "both":
                cba.set_backend("plotly")
        fig = s.call(**kw)
        require(not plt.get_fignums(), f"{c['kind']}: a matplotlib figure was opened as well")
        import plotly.graph_objects as go

        require(isinstance(fig, go.Figure), f"{c['kind']}: {type(fig).__name__} is not a plotly figure")
        is_system(cba.get_units(), q if c["how"] == "global" else gq, "the default units after a plot")
        require(cba.get_backend() == ("matplotlib" if c["how"] == "call" else "plotly"), "the default backend after a plot")
        lay = fig.to_plotly_json()["layout"]
        title = lambda ax: (ax.get("title") or {}).get("text") or ""
        ys = [title(lay[a]) for a in sorted(lay) if a.startswith("yaxis")]
        xs = [title(lay[a]) for a in sorted(lay) if a.startswith("xaxis")]
        name = {"M": "Bending Moment" + suffix(m), "V": "Shear Force" + suffix(f), "D": "Deflection" + suffix(d)}
        need = {"results": "MVD", "envelopes": "MV", "bmd": "M", "sfd": "V", "dsd": "D"}[c["kind"]]
        require(ys == [name[t] for t in need], f"{c['kind']}: y axes {ys}, expected {[name[t] for t in need]}")
        require([x for x in xs if x] == ["Distance along beam" + suffix(l)], f"{c['kind']}: x axes {xs}")
        unit = {"M": m, "V": f, "D": d}
        per = 2 if c["kind"] == "envelopes" else 1
        for i, tr in enumerate(fig.data):
            u = unit[need[i // per]]
            h = re.sub(r"<extra>.*", "", tr.hovertemplate)
            got = re.split(r"%\{y[^}]*\}", h)
            require(len(got) == 2 and got[1].strip() == u, f"{c['kind']}: hover text {h!r} does not give the value in {u!r}")


CHECK = Check(
    "C29",
    "a unit system, backend or plot in two unit systems was compared with the documented labels and scale",
    [
        Sub("registry", histories, registry, 1500, 20000),
        Sub("figures", cases, figures, 500, 6000),
        Sub("interactive", interactive_cases, interactive, 250, 3000),
    ],
    ["plot_response_envelope, plot_load_patterns and SectionEI.plot take no units and carry none"],
)
