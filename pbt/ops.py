"""Calls of the library as plain data, with their results as plain data (C29).

Imported by workers and by fresh interpreters; needs nothing but the library.
"""

import json
import math

import jax
import jax.numpy as jnp
import numpy as np

from differt2d import geometry, logic, optimize, scene, utils
from differt2d.geometry import RIS, FermatPath, ImagePath, MinPath, Path, Point, Ray, Vertex, Wall
from differt2d.scene import Scene

CLS = {"path": Path, "image": ImagePath, "fermat": FermatPath, "min": MinPath}


def plain(x):
    """Nested lists and numbers."""
    if isinstance(x, dict) or hasattr(x, "keys"):
        return [[str(k), plain(x[k])] for k in x]
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, (Point, Ray, Path)):
        return [type(x).__name__, *(plain(y) for y in jax.tree_util.tree_leaves(x))]
    if isinstance(x, Scene):
        return ["scene", plain(x.transmitters), plain(x.receivers), plain(list(x.objects))]
    a = np.asarray(x)
    return [str(a.dtype), list(a.shape), a.ravel().tolist()]


def coords(p):
    return jnp.asarray(np.asarray(p, dtype=np.float64) / 64, dtype=jnp.float32)


def thing(o):
    if o[0] == "V":
        return Vertex(xy=coords(o[1]))
    return {"W": Wall, "R": RIS}[o[0]](xys=coords(o[1]))


def scene_of(s):
    txs = {n: Point(xy=coords(p)) for n, p in s["tx"]}
    rxs = {n: Point(xy=coords(p)) for n, p in s["rx"]}
    return Scene(transmitters=txs, receivers=rxs, objects=[thing(o) for o in s["objs"]])


def options(o):
    kw = {"approx": o["approx"], "min_order": o["lo"], "max_order": o["hi"]}
    if o["cls"]:
        kw["path_cls"] = CLS[o["cls"]]
        if o["cls"] in ("fermat", "min"):
            kw["path_cls_kwargs"] = {"steps": o["steps"]}
            kw["key"] = jax.random.PRNGKey(o["key"])
    if o["only"] is not None:
        keep = o["only"]
        kw["filter_objects"] = lambda x: type(x).__name__[0] in keep
    if o["tol"]:
        kw["tol"] = jnp.float32(o["tol"] / 64)
    if o["patch"]:
        kw["patch"] = jnp.float32(o["patch"] / 64)
    if o["approx"] and o["alpha"]:
        kw["alpha"] = jnp.float32(o["alpha"])
    return kw


def gives(k, c):
    """A new function each time, with the same name and other constants."""
    c = c / 16

    if k == 0:

        def fun(tx, rx, path, objects, *args, **kwargs):
            return c * path.length() + tx.xy[0] - rx.xy[1] + sum(args) + kwargs.get("off", 0.0)

    else:

        def fun(tx, rx, path, objects, *args, **kwargs):
            return c + len(objects) * kwargs.get("off", 1.0) + sum(args)

    return fun


def op_candidates(a, keep):
    return [np.asarray(k) for k in scene_of(a["scene"]).all_path_candidates(a["opt"]["lo"], a["opt"]["hi"], **{k: v for k, v in options(a["opt"]).items() if k == "filter_objects"})]


def op_raw_candidates(a, keep):
    return [np.asarray(k) for k in scene.all_path_candidates(a["n"], a["opt"]["lo"], a["opt"]["hi"], filter_nodes=keep("filter", list(a["skip"])) if a["skip"] is not None else None)]


def op_paths(a, keep):
    return [list(x) for x in scene_of(a["scene"]).all_paths(**keep("options", options(a["opt"])))]


def op_some_paths(a, keep):
    """Leaves the iteration in the middle."""
    it = iter(scene_of(a["scene"]).all_paths(**keep("options", options(a["opt"]))))
    return [list(x) for x, _ in zip(it, range(a["n"] % 3 + 1))]


def op_valid_paths(a, keep):
    return [list(x) for x in scene_of(a["scene"]).all_valid_paths(**keep("options", options(a["opt"])))]


def op_accumulate(a, keep):
    return list(scene_of(a["scene"]).accumulate_over_paths(gives(a["f"], a["c"]), keep("args", (float(a["n"]),)), keep("fun_kwargs", {"off": 0.5 * a["f"]}), **keep("options", options(a["opt"]))))


def op_total(a, keep):
    return scene_of(a["scene"]).accumulate_over_paths(gives(a["f"], a["c"]), reduce_all=True, **keep("options", options(a["opt"])))


def op_grid(a, keep):
    s = scene_of(a["scene"])
    X = keep("X", coords([[p[0] for p in a["pts"]]]))
    Y = keep("Y", coords([[p[1] for p in a["pts"]]]))
    f = s.accumulate_on_receivers_grid_over_paths if a["side"] else s.accumulate_on_transmitters_grid_over_paths
    kw = options(a["opt"])
    if a["f"]:
        kw["grad"] = True
    return list(f(X, Y, gives(0, a["c"]), fun_kwargs=keep("fun_kwargs", {"off": 1.0}), **keep("options", kw)))


def op_path(a, keep):
    s = scene_of(a["scene"])
    os = [o for o in s.objects if not isinstance(o, Vertex)][: a["n"] % 3]
    cls = CLS[a["opt"]["cls"] or "image"]
    if cls is ImagePath:
        os = [o for o in os if type(o) is Wall]
    kw = {"key": jax.random.PRNGKey(a["opt"]["key"]), "steps": a["opt"]["steps"]} if cls in (FermatPath, MinPath) else {}
    p = cls.from_tx_objects_rx(coords(a["pts"][0]), keep("objects", os), coords(a["pts"][1]), **keep("options", kw))
    return [p, p.length(), p.on_objects(os, approx=a["opt"]["approx"]), p.bounding_box()]


def op_valid(a, keep):
    s = scene_of(a["scene"])
    j = [i % len(s.objects) for i in range(a["n"] % 3)] if s.objects else []
    p = Path(xys=coords([a["pts"][i % len(a["pts"])] for i in range(len(j) + 2)]), loss=jnp.float32(a["c"] / 64))
    kw = {k: v for k, v in options(a["opt"]).items() if k in ("approx", "alpha", "tol", "patch")}
    return p.is_valid(keep("objects", list(s.objects)), jnp.asarray(j, dtype=jnp.int32), [s.objects[i] for i in j], **keep("options", kw))


def op_minimise(a, keep):
    c, d = a["c"] / 16, a["n"]

    def obj(x, *args):
        return jnp.sum((x - c) ** 2) + d * jnp.sum(jnp.cos(x)) + sum(args)

    x0 = keep("x0", coords([p[0] for p in a["pts"]]))
    key = jax.random.PRNGKey(a["opt"]["key"])
    return [
        optimize.minimize(obj, x0, keep("args", (0.25 * d,)), steps=a["opt"]["steps"]),
        optimize.minimize_random_uniform(obj, key, 2, steps=a["opt"]["steps"]),
        optimize.minimize_many_random_uniform(obj, key, 2, many=3, steps=a["opt"]["steps"]),
    ]


def op_geojson(a, keep):
    ring = [[x / 64 for x in p] for p in a["pts"]]
    doc = {"type": "FeatureCollection", "features": [{"type": "Feature", "properties": {"n": a["n"]}, "geometry": {"type": "Polygon", "coordinates": [ring]}}]}
    text = json.dumps(doc)
    return Scene.from_geojson(keep("text", bytearray(text.encode())) if a["f"] else text, tx_loc=a["loc"], rx_loc="C")


def op_named(a, keep):
    name = a["name"]
    kw = {"tx_coords": keep("tx", coords(a["pts"][0]))} if a["f"] else {}
    if name.endswith(("wall", "obstacle")) and a["side"]:
        kw["ratio"] = a["c"] / 64
    return Scene.from_scene_name(name, **keep("options", kw))


def op_random(a, keep):
    return Scene.random_uniform_scene(1 + a["n"] % 2, a["n"], 2, key=jax.random.PRNGKey(a["opt"]["key"]))


def op_objects(a, keep):
    out = []
    for o in scene_of(a["scene"]).objects:
        p = coords(a["pts"][0])
        out += [o.cartesian_to_parametric(p), o.bounding_box(), o.center(), o.get_location(a["loc"]), o.sample(jax.random.PRNGKey(a["opt"]["key"])), o.evaluate_cartesian(coords([p2 for p2 in a["pts"][:3]])), o.intersects_cartesian(coords(a["pts"][:2]), approx=a["opt"]["approx"])]
        if isinstance(o, Wall):
            out += [o.normal(), o.image_of(p), list(o.get_vertices()), o.rotate(math.pi * a["n"])]
    return out


def op_extent(a, keep):
    s = scene_of(a["scene"])
    return [s.bounding_box(), s.center(), s.get_location(a["loc"]), list(s.grid(1 + a["n"], 2 + a["f"])), s.get_closest_transmitter(coords(a["pts"][0])), s.get_closest_receiver(coords(a["pts"][1]))]


def op_edit(a, keep):
    s = scene_of(a["scene"])
    before = plain(s)
    out = [s.with_transmitters(**keep("nodes", {"new": Point(xy=coords(a["pts"][0]))})), s.update_receivers(z=Point(xy=coords(a["pts"][1]))), s.add_objects(Wall(xys=coords(a["pts"][:2]))), s.filter_objects(lambda o: isinstance(o, Wall)), s.rename_transmitters(**{s.transmitters and next(iter(s.transmitters)): "other"})]
    if plain(s) != before:
        raise RuntimeError("the scene changed")
    return out


def op_logic(a, keep):
    x, y = keep("x", coords([p[0] for p in a["pts"]])), keep("y", coords([p[1] for p in a["pts"]]))
    kw = {"approx": a["opt"]["approx"]}
    if a["opt"]["approx"]:
        kw.update(alpha=float(a["n"] + 1), function=[logic.hard_sigmoid, logic.sigmoid][a["f"]])
    r = [getattr(logic, n)(x, y, **kw) for n in ("greater", "greater_equal", "less", "less_equal")]
    b = {"approx": a["opt"]["approx"]}
    return [r, logic.logical_and(r[0], r[1], **b), logic.logical_or(r[2], r[1], **b), logic.logical_not(r[0], **b), logic.logical_all(r[0][0], r[1][0], **b), logic.logical_any(r[0][0], r[1][0], **b), logic.is_true(r[0], **b)]


def op_switch(a, keep):
    """Sets the mode for a while."""
    with logic.enable_approx(bool(a["f"])):
        return [str(logic.true_value().dtype), str(logic.greater(jnp.float32(1), jnp.float32(0)).dtype)]


def op_small(a, keep):
    pts = keep("points", coords(a["pts"]))
    p = Path(xys=pts)
    return [geometry.path_length(pts), geometry.normalize(pts[0]), geometry.closest_point(pts, pts[0] + 0.25), geometry.segments_intersect(pts[0], pts[1], pts[2], pts[0] + 1, approx=a["opt"]["approx"]), utils.received_power(Point(xy=pts[0]), Point(xy=pts[-1]), p, [], r_coef=a["c"] / 64), geometry.stack_leaves([Point(xy=pts[0]), Point(xy=pts[1])]), geometry.unstack_leaves(geometry.stack_leaves([Point(xy=pts[0]), Point(xy=pts[2])]))]


def op_plot(a, keep):
    import matplotlib.pyplot as plt

    s = scene_of(a["scene"])
    fig, ax = plt.subplots()
    try:
        s.plot(ax, annotate=bool(a["f"]), transmitters_kwargs=keep("style", {"color": "red"}) if a["side"] else None, objects=bool(a["n"] % 2))
        return [[t.get_text() for t in ax.texts], [np.asarray(line.get_xydata()) for line in ax.lines], [np.asarray(c.get_offsets()) for c in ax.collections], [[str(x) for x in c.get_facecolor().ravel()] for c in ax.collections]]
    finally:
        plt.close(fig)


def op_wrong(a, keep):
    """Calls that raise."""
    what = a["n"] % 5
    s = scene_of(a["scene"])
    if what == 0:
        Scene.from_scene_name("no such scene")
    elif what == 1:
        s.get_location("NNE")
    elif what == 2:
        Scene.from_geojson('{"features": [')
    elif what == 3:
        Wall(xys=jnp.zeros((3, 2)))
    else:

        def fun(tx, rx, path, objects):
            raise ZeroDivisionError("from the user's function")

        s.accumulate_over_paths(fun, reduce_all=True, **options(a["opt"]))
    return "no error"


OPS = {k[3:]: v for k, v in globals().items() if k.startswith("op_")}


def run(call):
    """(result, what was given and changed)."""
    given = {}

    def keep(name, x):
        given[name] = (x, plain(describe(x)))
        return x

    try:
        out = plain(OPS[call[0]](call[1], keep))
    except Exception as e:  # noqa: BLE001
        out = ["raised", type(e).__name__, str(e)[:200]]
    changed = [n for n, (x, before) in given.items() if plain(describe(x)) != before]
    return out, changed


def describe(x):
    if isinstance(x, dict):
        return [[k, describe(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, *[describe(v) for v in x]]
    if callable(x) and not isinstance(x, type) and not hasattr(x, "xys"):
        return f"function {id(x)}"
    if isinstance(x, type):
        return x.__name__
    if isinstance(x, (bytes, bytearray)):
        return x.hex()
    return x


if __name__ == "__main__":
    import sys

    calls = json.loads(sys.stdin.read())
    print("RESULTS " + json.dumps([run(c)[0] for c in calls]))
