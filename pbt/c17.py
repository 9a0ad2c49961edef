"""C17: ready-made scenes have the documented geometry."""

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import Point, Wall
from differt2d.scene import Scene

from . import gen
from .core import Res, Sub, ensure
from .lib import A, f32, key

# --- named scenes -------------------------------------------------------------------

ROOM = [[[0, 0], [1, 0]], [[1, 0], [1, 1]], [[1, 1], [0, 1]], [[0, 1], [0, 0]]]
INNER = [[[0.4, 0.0], [0.4, 0.4]], [[0.4, 0.4], [0.3, 0.4]], [[0.1, 0.4], [0.0, 0.4]]]
DEFAULT = {
    "basic_scene": ([0.1, 0.1], [0.302, 0.2147]),
    "square_scene": ([0.2, 0.2], [0.5, 0.6]),
    "square_scene_with_obstacle": ([0.2, 0.2], [0.5, 0.6]),
    "square_scene_with_wall": ([0.2, 0.5], [0.8, 0.5]),
}
RATIO = {"square_scene_with_obstacle": 0.1, "square_scene_with_wall": 0.6}


def named():
    xy = st.one_of(
        st.none(),
        st.tuples(gen.spread(-65536, 65536), gen.spread(-65536, 65536)).map(list),
        st.tuples(st.integers(0, 4), st.integers(0, 4)).map(lambda t: [16384 * v for v in t]),
    )
    return st.fixed_dictionaries(
        {
            "name": st.sampled_from(sorted(DEFAULT)),
            "by_name": st.booleans(),
            "how": st.sampled_from(["kwargs", "positional"]),
            "as": st.sampled_from(["jax", "numpy", "list", "ints"]),
            "tx": xy,
            "rx": xy,
            "ratio": st.one_of(st.none(), st.integers(1, 1024), st.sampled_from([1, 256, 512, 1024])),
            "array_ratio": st.booleans(),
        }
    )


def expected(name, ratio):
    walls = [np.array(w, float) for w in ROOM]
    if name == "basic_scene":
        walls += [np.array(w, float) for w in INNER]
    elif name == "square_scene_with_wall":
        walls.append(np.array([[0.5, 0.5 - ratio / 2], [0.5, 0.5 + ratio / 2]]))
    elif name == "square_scene_with_obstacle":
        walls += [0.5 + ratio * (np.array(w, float) - 0.5) for w in ROOM]
    return walls


def same_walls(got, want, what):
    """The same segments, each once, whatever their order and direction."""
    left = list(range(len(want)))
    for g in got:
        k = next(
            (k for k in left if min(np.abs(g - want[k]).max(), np.abs(g[::-1] - want[k]).max()) <= 1e-6),
            None,
        )
        ensure(k is not None, "%s: the wall %s is not expected (or is there twice)", what, g.tolist())
        left.remove(k)
    ensure(not left, "%s: no wall %s", what, [want[k].tolist() for k in left])


def check_named(c):
    name = c["name"]
    kw, pos = {}, []
    ratio = RATIO.get(name)
    if name in RATIO and c["ratio"] is not None:
        ratio = c["ratio"] / 1024
        kw["ratio"] = jnp.asarray(ratio) if c["array_ratio"] else ratio
    xy = {}
    for k, d in zip(("tx", "rx"), DEFAULT[name]):
        if c[k] is None:
            xy[k] = np.array(d)
            continue
        v = [round(u / 65536) for u in c[k]] if c["as"] == "ints" else f32(c[k], 16)
        xy[k] = np.asarray(v, float)
        kw[f"{k}_coords"] = {"jax": jnp.asarray, "numpy": np.asarray, "list": lambda u: [float(x) for x in u], "ints": list}[c["as"]](v)
    if c["how"] == "positional":
        order = ["ratio"] if name in RATIO else []
        if name != "square_scene_with_obstacle":
            order += ["tx_coords", "rx_coords"]
        for p in order:
            if p not in kw:
                break
            pos.append(kw.pop(p))
    scene = Scene.from_scene_name(name, *pos, **kw) if c["by_name"] else getattr(Scene, name)(*pos, **kw)
    what = f"{name} with ratio {ratio}"
    for kind, k in (("transmitters", "tx"), ("receivers", "rx")):
        nodes = dict(getattr(scene, kind))
        ensure(list(nodes) == [k], "%s: the %s are named %s", what, kind, list(nodes))
        p = nodes[k]
        ensure(type(p) is Point, "%s: %s is a %s", what, k, type(p))
        ensure(np.abs(A(p.xy) - xy[k]).max() <= 1e-7 * max(1, np.abs(xy[k]).max()), "%s: %s is at %s, not at %s", what, k, p.xy, xy[k])
    for w in scene.objects:
        ensure(type(w) is Wall, "%s: one object is a %s", what, type(w))
    got = [A(w.xys) for w in scene.objects]
    same_walls(got, expected(name, ratio), what)
    # The room comes first, the addition last (as in the documentation's examples)
    same_walls(got[:4], expected("square_scene", None), what + ", first four walls")
    box = A(Scene(objects=scene.objects).bounding_box())
    ensure(np.abs(box - [[0, 0], [1, 1]]).max() <= 1e-6, "%s: the bounding box of the walls is %s", what, box)
    return Res(bool(kw or pos), (name, c["as"], "by name" if c["by_name"] else "direct"), len(got) + 4)


# --- random scenes ------------------------------------------------------------------


def randoms():
    n = st.one_of(st.integers(0, 5), st.integers(0, 40))
    return st.fixed_dictionaries(
        {"tx": n, "rx": n, "walls": n, "key": gen.keys(), "other": gen.keys(), "via": st.sampled_from(["direct", "name", "defaults"])}
    )


def points_of(scene):
    out = [(f"transmitter {k}", A(p.xy)) for k, p in scene.transmitters.items()]
    out += [(f"receiver {k}", A(p.xy)) for k, p in scene.receivers.items()]
    for i, w in enumerate(scene.objects):
        out += [(f"wall {i} origin", A(w.xys)[0]), (f"wall {i} destination", A(w.xys)[1])]
    return out


def random_scene(c, k):
    if c["via"] == "defaults":
        return Scene.random_uniform_scene(key=key(k)), 1, 1, 1
    kw = dict(n_transmitters=c["tx"], n_walls=c["walls"], n_receivers=c["rx"])
    if c["via"] == "name":
        return Scene.from_scene_name("random_uniform_scene", key=key(k), **kw), c["tx"], c["walls"], c["rx"]
    return Scene.random_uniform_scene(key=key(k), **kw), c["tx"], c["walls"], c["rx"]


def check_random(c):
    scene, n, w, m = random_scene(c, c["key"])
    ensure(list(scene.transmitters) == [f"tx_{i}" for i in range(n)], "the %s transmitters are named %s", n, list(scene.transmitters))
    ensure(list(scene.receivers) == [f"rx_{i}" for i in range(m)], "the %s receivers are named %s", m, list(scene.receivers))
    ensure(len(scene.objects) == w, "%s walls instead of %s", len(scene.objects), w)
    for o in scene.objects:
        ensure(type(o) is Wall, "an object is a %s", type(o))
    ps = points_of(scene)
    seen = {}
    for what, p in ps:
        ensure(p.shape == (2,) and np.all((p >= 0) & (p < 1)), "%s is at %s, outside [0, 1)", what, p)
        t = tuple(p)
        ensure(t not in seen, "%s and %s are both at %s", what, seen.get(t), t)
        seen[t] = what
        # 2**-23 * 2**-23 apart from the diagonal
    if len(ps) >= 3:
        ensure(any(p[0] != p[1] for _, p in ps), "all the points are on the diagonal")
    again = points_of(random_scene(c, c["key"])[0])
    ensure(all(np.array_equal(p, q) for (_, p), (_, q) in zip(ps, again)), "two scenes made with the same key differ")
    if c["other"] != c["key"] and ps:
        others = {tuple(p) for _, p in points_of(random_scene(c, c["other"])[0])}
        ensure(not others & set(seen), "two different keys gave the same point(s) %s", others & set(seen))
    return Res(len(ps) > 3, (f"via={c['via']}",), 3 * len(ps) + 3)


def check_spread(c):
    """A hundred points or more fill the unit square (bounds missed with probability below 1e-8)."""
    scene = Scene.random_uniform_scene(n_transmitters=c["n"], n_walls=c["n"], n_receivers=c["n"], key=key(c["key"]))
    groups = {
        "transmitters": np.array([A(p.xy) for p in scene.transmitters.values()]),
        "receivers": np.array([A(p.xy) for p in scene.receivers.values()]),
        "origins": np.array([A(w.xys)[0] for w in scene.objects]),
        "destinations": np.array([A(w.xys)[1] for w in scene.objects]),
    }
    for what, p in groups.items():
        n = len(p)
        for ax in range(2):
            v = p[:, ax]
            ensure(v.min() < 0.2 and v.max() > 0.8, "the %s of %s go from %s to %s", what, "xy"[ax], v.min(), v.max())
            ensure(abs(v.mean() - 0.5) < 6 * 0.2887 / np.sqrt(n), "the mean %s of the %s is %s", "xy"[ax], what, v.mean())
        r = np.corrcoef(p.T)[0, 1]
        ensure(abs(r) < 7 / np.sqrt(n), "x and y of the %s are correlated: %s", what, r)
    for a, b in (("origins", "destinations"), ("transmitters", "receivers"), ("transmitters", "origins")):
        for ax in range(2):
            r = np.corrcoef(groups[a][:, ax], groups[b][:, ax])[0, 1]
            ensure(abs(r) < 7 / np.sqrt(c["n"]), "%s and %s are correlated: %s", a, b, r)
    return Res(True, (), 30)


# --- from an array ------------------------------------------------------------------


def arrays():
    return gen.style("fine", "lattice", "wide").flatmap(
        lambda s: st.fixed_dictionaries(
            {
                "e": st.just(gen.exp_of(s)),
                "walls": st.lists(st.tuples(gen.point(s), gen.point(s)).map(list), max_size=8),
            }
        )
    )


def check_array(c):
    ws = f32(np.array(c["walls"]).reshape(-1, 2, 2), c["e"])
    scene = Scene.from_walls_array(jnp.asarray(ws))
    ensure(len(scene.objects) == len(ws), "%s walls instead of %s", len(scene.objects), len(ws))
    for i, (o, w) in enumerate(zip(scene.objects, ws)):
        ensure(type(o) is Wall and np.array_equal(np.asarray(o.xys), w), "wall %s is %s instead of %s", i, o, w)
    ensure(len(scene.transmitters) == len(scene.receivers) == 0, "the scene has nodes")
    return Res(len(ws) > 1, (f"walls={min(4, len(ws))}",), len(ws) + 2)


SUBS = [
    Sub("named", named(), check_named, 500, 10000, "some argument is given", weight=30),
    Sub("random", randoms(), check_random, 240, 3000, "more than three points", weight=60),
    Sub("spread", st.fixed_dictionaries({"n": st.integers(120, 160), "key": gen.keys()}), check_spread, 16, 200, "every case", weight=400),
    Sub("array", arrays(), check_array, 300, 4000, "at least two walls"),
]
