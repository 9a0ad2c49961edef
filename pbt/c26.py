"""C26: plotting draws every requested element once, where it is."""

from collections import Counter

import jax
import matplotlib

matplotlib.use("Agg")

import numpy as np
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.collections import PathCollection
from matplotlib.colors import to_rgba
from matplotlib.figure import Figure
from matplotlib.lines import Line2D
from matplotlib.markers import MarkerStyle
from matplotlib.text import Annotation

from differt2d.geometry import FermatPath, ImagePath, MinPath, Path, Point, Ray, Vertex
from differt2d.scene import Scene

from . import gen, scenes
from .core import Res, Sub, ensure
from .lib import J, f32, obj

NAMES = ["tx", "rx", "a", "b", "tx_0", "Zürich", "node 1", "z", "0", "rx_3"]
COLORS = ["red", "black", "#12345678", "C3", "orange", "blue", "green"]
MARKERS = ["x", "s", "^", "o", "*"]


# --- what is on the axes ------------------------------------------------------------


def canvas():
    fig = Figure()
    FigureCanvasAgg(fig)
    return fig.add_subplot(1, 2, 1), fig.add_subplot(1, 2, 2)


def rgba(c, alpha=None):
    return tuple(np.round(to_rgba(c, alpha), 6))


def shape_of(marker):
    m = MarkerStyle(marker)
    return np.round(m.get_path().transformed(m.get_transform()).vertices, 6).tobytes()


def seen(a):
    """The identifying facts of an artist."""
    if isinstance(a, PathCollection):
        off = np.asarray(a.get_offsets(), dtype=np.float64)
        return {
            "kind": "marker",
            "at": off.tolist(),
            "face": [tuple(np.round(c, 6)) for c in a.get_facecolor()],
            "edge": [tuple(np.round(c, 6)) for c in a.get_edgecolor()],
            "shape": [np.round(p.vertices, 6).tobytes() for p in a.get_paths()],
            "size": a.get_sizes().tolist(),
        } | common(a)
    if isinstance(a, Annotation):
        return {
            "kind": "label",
            "text": a.get_text(),
            "at": [float(v) for v in a.xy],
            "textat": [float(v) for v in a.xyann],
            "coords": (a.xycoords, a.anncoords),
            "color": rgba(a.get_color()),
            "fontsize": float(a.get_fontsize()),
        } | common(a)
    if isinstance(a, Line2D):
        xy = np.column_stack([np.asarray(a.get_xdata(), dtype=np.float64), np.asarray(a.get_ydata(), dtype=np.float64)])
        return {"kind": "line", "at": xy.tolist(), "color": rgba(a.get_color()), "ls": a.get_linestyle(), "lw": float(a.get_linewidth()), "marker": str(a.get_marker())} | common(a)
    return {"kind": type(a).__name__} | common(a)


def common(a):
    return {"zorder": float(a.get_zorder()), "gid": a.get_gid(), "label": str(a.get_label()), "visible": a.get_visible()}


def matches(want, got):
    return all(k in got and got[k] == v for k, v in want.items())


def compare(want, got, what):
    """A one-to-one match; `want` lists only the facts that matter."""
    ensure(len(want) == len(got), "%s: %s artists instead of %s: %s", what, len(got), len(want), [g["kind"] for g in got])
    ensure(Counter(w["kind"] for w in want) == Counter(g["kind"] for g in got), "%s: kinds %s", what, Counter(g["kind"] for g in got))
    left = list(got)
    for w in want:
        hit = next((g for g in left if matches(w, g)), None)
        ensure(hit is not None, "%s: nothing drawn like %s among %s", what, w, [{k: g.get(k) for k in w} for g in left if g["kind"] == w["kind"]])
        left = [g for g in left if g is not hit]


def snapshot(tree):
    leaves, treedef = jax.tree_util.tree_flatten(tree)
    return [(np.asarray(v).tobytes(), np.asarray(v).dtype, np.shape(v)) for v in leaves], str(treedef)


# --- wanted artists -----------------------------------------------------------------


def options(kw, names):
    """The checked consequences of the plain options shared by all artists."""
    return {k: kw[k] for k in names if k in kw}


def marker(p, kw, args=(), color="red"):
    kw = dict(kw)
    w = {"kind": "marker", "at": [[float(v) for v in p]], "shape": [shape_of(kw.get("marker", "o"))]}
    c = kw.get("color", color)
    # matplotlib draws line markers such as x with the edge only
    if kw.get("marker", "o") != "x":
        w["face"] = [rgba(c, kw.get("alpha"))]
    else:
        w["edge"] = [rgba(c, kw.get("alpha"))]
    if args:
        w["size"] = [float(args[0])]
    elif "s" in kw:
        w["size"] = [float(kw["s"])]
    return w | options(kw, ("zorder", "gid", "label", "visible"))


def label(p, name, kw):
    off = np.float32(kw.get("annotate_offset", (0.0, 0.0)))
    a = kw.get("annotate_kwargs") or {}
    w = {"kind": "label", "text": name, "at": [float(v) for v in p], "coords": ("data", "data"), "textat": [float(v) for v in np.float32(p) + off]}
    if "color" in a:
        w["color"] = rgba(a["color"])
    if "fontsize" in a:
        w["fontsize"] = float(a["fontsize"])
    return w


def line(xys, kw, args=(), color="blue"):
    w = {"kind": "line", "at": np.asarray(xys, dtype=np.float64).tolist(), "color": rgba(kw.get("color", color))}
    if args:
        w["ls"] = args[0]
    elif "linestyle" in kw:
        w["ls"] = kw["linestyle"]
    if "linewidth" in kw:
        w["lw"] = float(kw["linewidth"])
    if "marker" in kw:
        w["marker"] = kw["marker"]
    return w | options(kw, ("zorder", "gid", "label", "visible"))


def vertex(p, kw):
    # the colour of a vertex is a set of options of its own
    w = {"kind": "marker", "at": [[float(v) for v in p]], "shape": [shape_of(kw.get("marker", "o"))]}
    for k in ("face", "edge"):
        if k + "colors" in kw:
            w[k] = [rgba(kw[k + "colors"])]
    return w | options(kw, ("zorder", "gid", "label", "visible"))


def drawn(o, xys, kw, args=()):
    if o[0] == "V":
        return vertex(xys, kw)
    return line(xys, kw, args, "blue" if o[0] == "W" else "green")


# --- scenes -------------------------------------------------------------------------

plain = {
    "zorder": st.integers(0, 9),
    "gid": st.sampled_from(["g1", "g2"]),
    "label": st.sampled_from(["L1", "L2"]),
    "visible": st.booleans(),
}


def chosen(strategies, most=2):
    @st.composite
    def build(draw):
        ks = draw(st.permutations(sorted(strategies)))[: draw(st.integers(0, most))]
        return {k: draw(strategies[k]) for k in ks}

    return build()


offsets = st.tuples(st.integers(-64, 64), st.integers(-64, 64)).map(lambda t: [t[0] / 32, t[1] / 32])
notes = chosen({"color": st.sampled_from(COLORS), "fontsize": st.integers(5, 20)})
node_options = {"color": st.sampled_from(COLORS), "marker": st.sampled_from(MARKERS), "s": st.sampled_from([4.0, 25.0, 90.0]), "annotate_offset": offsets, "annotate_kwargs": notes, "alpha": st.sampled_from([0.25, 0.5])}
vertex_options = {"edgecolors": st.sampled_from(COLORS), "facecolors": st.sampled_from(COLORS), "marker": st.sampled_from(["s", "^"])}
line_options = {"color": st.sampled_from(COLORS), "linewidth": st.sampled_from([0.5, 3.0]), "linestyle": st.sampled_from(["--", ":", "-."])}


@st.composite
def scene_case(draw):
    s = draw(gen.style("fine", "unit", "lattice8", "wide"))
    objs = []
    kinds = draw(st.sampled_from(["W", "W", "WR", "WV", "WRV", "V"]))
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.sampled_from(kinds))
        objs.append(["V", draw(gen.point(s))] if k == "V" else [k, draw(gen.segment(s))] + ([draw(st.integers(-3000, 3000))] if k == "R" else []))
    if objs and draw(st.integers(0, 3)) == 0:
        objs.append(objs[0])
    vertices = any(o[0] == "V" for o in objs)
    only = vertices and all(o[0] == "V" for o in objs)
    shared = draw(chosen(plain))
    c = {"e": gen.exp_of(s), "objs": objs, "tx": draw(scenes.nodes(s, 0, 4)), "rx": draw(scenes.nodes(s, 0, 4)), "shared": shared}
    for k, most in (("transmitters", node_options), ("receivers", node_options), ("objects", vertex_options if only else {} if vertices else line_options)):
        own = {n: v for n, v in {**most, **plain}.items() if n not in shared}
        c[k + "_kwargs"] = draw(st.one_of(st.none(), chosen(own, 3), chosen(own, 3)))
        c[k + "_args"] = []
        if draw(st.integers(0, 3)) == 0:
            if k != "objects" and "s" not in (c[k + "_kwargs"] or {}):
                c[k + "_args"] = [draw(st.sampled_from([4.0, 64.0]))]
            elif k == "objects" and not vertices and "linestyle" not in (c[k + "_kwargs"] or {}):
                c[k + "_args"] = [draw(st.sampled_from(["--", ":"]))]
    for k in ("transmitters", "receivers", "objects", "annotate"):
        c[k] = draw(st.sampled_from([None, True, True, False]))
    c["args"] = []
    # a positional option for all: the size of the markers, or the style of the lines
    if draw(st.integers(0, 2)) == 0:
        if draw(st.booleans()):
            c["objects"] = False
        else:
            c["transmitters"] = c["receivers"] = False
        if c["objects"] is False and not any(c[k + "_args"] or "s" in (c[k + "_kwargs"] or {}) for k in ("transmitters", "receivers")):
            c["args"] = [16.0]
        elif c["transmitters"] is c["receivers"] is False and not vertices and not c["objects_args"] and "linestyle" not in (c["objects_kwargs"] or {}):
            c["args"] = ["-."]
    c["before"] = draw(st.booleans())
    c["twice"] = draw(st.booleans())
    c["axes"] = draw(st.integers(0, 1))
    return c


def frozen(x):
    return repr(x)


def check_scene(c):
    scene, _, _, _ = scenes.build(c)
    e = c["e"]
    axes = canvas()
    ax, other = axes[c["axes"]], axes[1 - c["axes"]]
    plt.close("all")
    old = list(ax.plot([0, 1], [1, 0])) if c["before"] else []
    others = [list(map(id, other.get_children())), plt.get_fignums()]
    base = list(ax.get_children())
    kw = dict(c["shared"])
    for k in ("transmitters", "receivers", "objects"):
        if c[k + "_kwargs"] is not None:
            kw[k + "_kwargs"] = {n: tuple(v) if n == "annotate_offset" else v for n, v in c[k + "_kwargs"].items()}
        if c[k + "_args"]:
            kw[k + "_args"] = tuple(c[k + "_args"])
    for k in ("transmitters", "receivers", "objects", "annotate"):
        if c[k] is not None:
            kw[k] = c[k]
    before = (snapshot(scene), list(scene.transmitters), list(scene.receivers), frozen(kw))
    wanted = []
    for k, color in (("transmitters", "blue"), ("receivers", "green")):
        if c[k] is False:
            continue
        own = {**(c[k + "_kwargs"] or {}), **c["shared"]}
        for name, p in c["tx" if k == "transmitters" else "rx"]:
            p = f32(p, e)
            wanted.append(marker(p, own, c[k + "_args"] or c["args"], color))
            if c["annotate"] is not False:
                wanted.append(label(p, name, own))
    if c["objects"] is not False:
        own = {**(c["objects_kwargs"] or {}), **c["shared"]}
        for o in c["objs"]:
            wanted.append(drawn(o, f32(o[1], e), own, c["objects_args"] or c["args"]))
    for _ in range(2 if c["twice"] else 1):
        out = scene.plot(ax, *c["args"], **kw)
        new = [a for a in ax.get_children() if not any(a is b for b in base)]
        ensure(sorted(map(id, out)) == sorted(map(id, new)), "returned %s, added %s", out, new)
        compare(wanted, [seen(a) for a in out], "scene")
        base += new
    ensure(before == (snapshot(scene), list(scene.transmitters), list(scene.receivers), frozen(kw)), "plotting changed the scene or the options")
    ensure(others == [list(map(id, other.get_children())), plt.get_fignums()], "something was drawn elsewhere")
    ensure(all(any(a is b for b in ax.get_children()) for a in old), "plotting removed what was there")
    labels = [k for k in ("transmitters", "receivers", "objects", "annotate") if c[k] is False]
    return Res(len(wanted) > 1, (*("no " + k for k in labels), *(["styled"] if any(kw.get(k + "_kwargs") for k in ("transmitters", "receivers", "objects")) else []), *(["positional"] if c["args"] else [])), len(wanted))


# --- single elements ----------------------------------------------------------------

PATHS = {"Path": Path, "ImagePath": ImagePath, "FermatPath": FermatPath, "MinPath": MinPath}


@st.composite
def single_case(draw):
    s = draw(gen.style("fine", "unit", "lattice8", "wide"))
    kind = draw(st.sampled_from(["Point", "Point", "Vertex", "Ray", "W", "R", "Path", "ImagePath", "FermatPath", "MinPath"]))
    c = {"e": gen.exp_of(s), "kind": kind, "args": []}
    if kind in ("Point", "Vertex"):
        c["xys"] = draw(gen.point(s))
        most = {**plain, "annotate_offset": offsets, "annotate_kwargs": notes}
        if kind == "Point":
            most |= {k: node_options[k] for k in ("color", "marker", "s", "alpha")}
        else:
            most |= vertex_options
        c["annotate"] = draw(st.sampled_from([None, None, "A", "née № 5", "$x$", "longer text"]))
    else:
        n = draw(st.integers(2, 6)) if "Path" in kind else 2
        c["xys"] = [draw(gen.point(s)) for _ in range(n)]
        most = {**plain, **line_options, "marker": st.sampled_from(MARKERS)}
        c["annotate"] = None
    c["kwargs"] = draw(chosen(most, 4))
    if draw(st.integers(0, 3)) == 0:
        if kind == "Point" and "s" not in c["kwargs"]:
            c["args"] = [36.0]
        elif kind not in ("Point", "Vertex") and "linestyle" not in c["kwargs"]:
            c["args"] = ["--"]
    c["phi"] = draw(st.integers(-3000, 3000)) if kind == "R" else 0
    return c


def check_single(c):
    e, kind = c["e"], c["kind"]
    xys = f32(c["xys"], e)
    if kind == "Point":
        o = Point(xy=J(xys))
    elif kind == "Vertex":
        o = Vertex(xy=J(xys))
    elif kind == "Ray":
        o = Ray(xys=J(xys))
    elif kind in "WR":
        o = obj([kind, c["xys"]] + ([c["phi"]] if kind == "R" else []), e)
    else:
        o = PATHS[kind](xys=J(xys))
    kw = {n: tuple(v) if n == "annotate_offset" else v for n, v in c["kwargs"].items()}
    if c["annotate"] is not None:
        kw["annotate"] = c["annotate"]
    ax, other = canvas()
    base = list(ax.get_children())
    others = list(map(id, other.get_children()))
    before = (snapshot(o), frozen(kw))
    out = o.plot(ax, *c["args"], **kw)
    new = [a for a in ax.get_children() if not any(a is b for b in base)]
    ensure(sorted(map(id, out)) == sorted(map(id, new)), "returned %s, added %s", out, new)
    if kind == "Point":
        want = [marker(xys, c["kwargs"], c["args"])]
    elif kind == "Vertex":
        want = [vertex(xys, c["kwargs"])]
    else:
        want = [line(xys, c["kwargs"], c["args"], {"Ray": "blue", "W": "blue", "R": "green"}.get(kind, "orange"))]
    if c["annotate"] is not None:
        want.append(label(xys, c["annotate"], c["kwargs"]))
    compare(want, [seen(a) for a in out], kind)
    ensure(before == (snapshot(o), frozen(kw)), "plotting changed the object or the options")
    ensure(others == list(map(id, other.get_children())), "something was drawn elsewhere")
    return Res(True, (kind, *(["annotated"] if c["annotate"] else []), "options" if kw else "plain"), len(want) + 2)


SUBS = [
    Sub("scene", scene_case(), check_scene, 800, 12000, "at least two artists", weight=40),
    Sub("single", single_case(), check_single, 1200, 16000, "every case", weight=20),
]
