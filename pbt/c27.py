"""C27: malformed geometry is rejected, valid geometry is kept unchanged."""

import typing
import warnings

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import (
    RIS,
    FermatPath,
    ImagePath,
    MinPath,
    Path,
    Point,
    Ray,
    Vertex,
    Wall,
    closest_point,
    normalize,
    path_length,
    segments_intersect,
    stack_leaves,
)
from differt2d.scene import PyTreeDict, Scene, SceneName

from . import gen
from .core import Res, Sub, ensure
from .lib import J, f32

warnings.filterwarnings("ignore", message="Explicitly requested dtype")

N = "n"  # any number of rows

W = lambda: Wall(xys=J([[0.0, 0.0], [1.0, 0.25]]))
R = lambda: RIS(xys=J([[0.0, 0.0], [1.0, 0.25]]))
V = lambda: Vertex(xy=J([0.5, 0.75]))
P = lambda: Path(xys=J([[0.0, 1.0], [0.5, 0.125], [1.0, 1.0]]))
S = lambda: Scene(transmitters={"t": Point(xy=J([0.0, 1.0]))}, receivers={"r": Point(xy=J([1.0, 1.0]))}, objects=[W()])

# name -> shapes of the arguments, call
MAKE = {
    "Point": ([(2,)], lambda a: Point(xy=a), "xy"),
    "Vertex": ([(2,)], lambda a: Vertex(xy=a), "xy"),
    "Ray": ([(2, 2)], lambda a: Ray(xys=a), "xys"),
    "Wall": ([(2, 2)], lambda a: Wall(xys=a), "xys"),
    "RIS": ([(2, 2)], lambda a: RIS(xys=a), "xys"),
    "RIS angle": ([()], lambda a: RIS(phi=a), "phi"),
    "Path": ([(N, 2)], lambda a: Path(xys=a), "xys"),
    "Path loss": ([()], lambda a: Path(xys=J([[0.0, 0.0], [1.0, 1.0]]), loss=a), "loss"),
    "ImagePath": ([(N, 2)], lambda a: ImagePath(xys=a), "xys"),
    "FermatPath": ([(N, 2)], lambda a: FermatPath(xys=a), "xys"),
    "MinPath": ([(N, 2)], lambda a: MinPath(xys=a), "xys"),
}
QUERY = {
    "segments_intersect": ([(2,)] * 4, segments_intersect),
    "path_length": ([(N, 2)], path_length),
    "normalize": ([(2,)], normalize),
    "closest_point": ([(N, 2), (2,)], closest_point),
    "Wall.cartesian_to_parametric": ([(2,)], lambda a: W().cartesian_to_parametric(a)),
    "Wall.intersects_cartesian": ([(2, 2)], lambda a: W().intersects_cartesian(a)),
    "Wall.evaluate_cartesian": ([(3, 2)], lambda a: W().evaluate_cartesian(a)),
    "Wall.image_of": ([(2,)], lambda a: W().image_of(a)),
    "RIS.cartesian_to_parametric": ([(2,)], lambda a: R().cartesian_to_parametric(a)),
    "RIS.intersects_cartesian": ([(2, 2)], lambda a: R().intersects_cartesian(a)),
    "RIS.evaluate_cartesian": ([(3, 2)], lambda a: R().evaluate_cartesian(a)),
    "Vertex.cartesian_to_parametric": ([(2,)], lambda a: V().cartesian_to_parametric(a)),
    "Vertex.intersects_cartesian": ([(2, 2)], lambda a: V().intersects_cartesian(a)),
    "Vertex.evaluate_cartesian": ([(3, 2)], lambda a: V().evaluate_cartesian(a)),
    "Scene.get_closest_transmitter": ([(2,)], lambda a: S().get_closest_transmitter(a)),
    "Scene.get_closest_receiver": ([(2,)], lambda a: S().get_closest_receiver(a)),
}


def fits(shape, spec):
    return len(shape) == len(spec) and all(a == b or b == N for a, b in zip(shape, spec))


FLOATS = {"float32": np.float32, "float16": np.float16, "bfloat16": jnp.bfloat16, "float64": np.float64}
OTHERS = {"int32": np.int32, "int8": np.int8, "int16": np.int16, "uint8": np.uint8, "uint32": np.uint32, "int64": np.int64, "bool": np.bool_, "complex64": np.complex64, "complex128": np.complex128}

shapes = st.one_of(
    st.lists(st.integers(0, 4), max_size=4),
    st.sampled_from([[2], [2, 2], [3, 2], [2, 3], [3], [1, 2], [2, 1], [1], [], [2, 2, 2], [1, 2, 2], [0, 2], [4], [3, 3], [1, 3, 2], [2, 0]]),
)


def fill(shape, k, dtype):
    n = int(np.prod(shape, dtype=int))
    v = ((np.arange(n) * 37 + k * 13) % 64 - 20) / 8
    if np.issubdtype(np.dtype(dtype), np.bool_):
        v = v > 0
    elif np.issubdtype(np.dtype(dtype), np.integer):
        v = np.abs(np.round(v))
    return v.reshape(shape).astype(dtype)


def wrap(a, how):
    if how == "list":
        return a.tolist()
    return jnp.asarray(a) if how == "jax" else a


@st.composite
def malformed(draw, table):
    name = draw(st.sampled_from(sorted(table)))
    spec = table[name][0]
    k = draw(st.integers(0, len(spec) - 1))
    what = draw(st.sampled_from(["shape", "shape", "type", "thing"]))
    c = {"name": name, "arg": k, "what": what, "salt": draw(st.integers(0, 99)), "rows": draw(st.integers(2, 5))}
    c["before"] = draw(st.booleans())
    constructor = table is MAKE
    if what == "shape":
        c["shape"] = draw(shapes.filter(lambda s: not fits(s, spec[k])))
        c["dtype"] = draw(st.sampled_from(["float32", "float32", "float16", *OTHERS]))
        c["how"] = draw(st.sampled_from(["jax", "numpy", "list"] if constructor and c["dtype"] == "float32" and 0 not in c["shape"] else ["jax", "numpy"]))
    elif what == "type":
        c["dtype"] = draw(st.sampled_from(sorted(OTHERS)))
        c["how"] = draw(st.sampled_from(["jax", "numpy", "list"] if constructor else ["jax", "numpy"]))
    else:
        # jax reads None as the number NaN
        c["thing"] = draw(st.sampled_from(["text", "mapping", "object", "ragged"] + (["None"] if spec[k] else [])))
    return c


def sized(spec, rows):
    return tuple(rows if d == N else d for d in spec)


THINGS = {"None": None, "text": "1.0", "mapping": {"xy": [0.0, 1.0]}, "object": object(), "ragged": [[0.0, 1.0], [2.0]]}


def check_malformed(table):
    def check(c):
        specs, call = table[c["name"]][:2]
        good = [J(fill(sized(s, c["rows"]), c["salt"] + i, np.float32)) for i, s in enumerate(specs)]
        bad = list(good)
        if c["what"] == "thing":
            v = THINGS[c["thing"]]
        else:
            shape = c["shape"] if c["what"] == "shape" else sized(specs[c["arg"]], c["rows"])
            v = wrap(fill(tuple(shape), c["salt"], {**FLOATS, **OTHERS}[c["dtype"]]), c["how"])
        bad[c["arg"]] = v
        if c["before"]:  # a compiled version already exists
            call(*good)
        try:
            out = call(*bad)
        except Exception:
            out = None
        else:
            ensure(False, "%s accepted %s as argument %s and returned %s", c["name"], v if c["what"] == "thing" else f"{c['dtype']}{list(shape)} ({c['how']})", c["arg"], out)
        # and the well-formed call still works afterwards
        call(*good)
        return Res(True, (c["name"], c["what"]), 2)

    return check


@st.composite
def valid(draw):
    name = draw(st.sampled_from(sorted(MAKE)))
    spec = MAKE[name][0][0]
    shape = sized(spec, draw(st.one_of(st.integers(2, 6), st.integers(2, 60))))
    dtype = draw(st.sampled_from(["float32", "float32", "float16", "bfloat16", "float64"]))
    how = draw(st.sampled_from(["jax", "numpy", "list"]))
    n = int(np.prod(shape, dtype=int))
    number = st.one_of(st.floats(width=32), st.floats(width=16), st.sampled_from([0.0, -0.0, 1e-45, 3.4e38, float("inf"), float("nan")]))
    some = draw(st.lists(number, min_size=1, max_size=12))
    vals = [some[i % len(some)] for i in range(n)]
    return {"name": name, "shape": list(shape), "dtype": dtype, "how": how, "vals": [repr(v) for v in vals]}


def check_valid(c):
    _, call, field = MAKE[c["name"]]
    with np.errstate(over="ignore"):
        a = np.asarray([float(v) for v in c["vals"]], dtype=np.float64).reshape(c["shape"]).astype(FLOATS[c["dtype"]])
    o = call(wrap(a, c["how"]))
    got = np.asarray(getattr(o, field))
    # 64-bit numbers and plain lists become the default 32-bit ones
    want = a if c["dtype"] != "float64" and c["how"] != "list" else a.astype(np.float32)
    ensure(got.dtype == want.dtype and got.shape == want.shape, "%s of %s%s has %s%s", c["name"], a.dtype, a.shape, got.dtype, got.shape)
    same = (got == want) & (np.signbit(got.astype(np.float64)) == np.signbit(want.astype(np.float64))) | (np.isnan(got) & np.isnan(want))
    ensure(same.all(), "%s kept %s instead of %s", c["name"], got.tolist(), want.tolist())
    return Res(a.size > 0, (c["name"], c["dtype"], c["how"]), a.size)


# --- names --------------------------------------------------------------------------

LOCS = ["N", "E", "S", "W", "C", "NE", "NW", "SE", "SW"]
SCENES = list(typing.get_args(SceneName))
letters = st.text("NESWCnesw ", max_size=3)
noise = st.text("abcnsew_ é0", min_size=1, max_size=8)


def near(names):
    """Not one of the names, though close."""

    @st.composite
    def build(draw):
        n = draw(st.sampled_from(names))
        k = draw(st.integers(0, 5))
        if k == 0:
            n = n.lower() if n != n.lower() else n.upper()
        elif k == 1:
            n = n + draw(st.sampled_from([" ", "x", "_", n[-1]]))
        elif k == 2:
            n = " " + n
        elif k == 3:
            n = n[:-1]
        elif k == 4:
            n = n[::-1]
        else:
            n = draw(noise)
        return n

    return build().filter(lambda n: n not in names and not hasattr(Scene, n or "?"))


@st.composite
def names_case(draw):
    what = draw(st.sampled_from(["location", "location", "scene", "keys", "node", "geojson", "geojson", "kinds"]))
    c = {"what": what}
    if what == "location":
        c["name"] = draw(near(LOCS))
        c["on"] = draw(st.sampled_from(["Wall", "Point", "Path", "Scene", "RIS", "Vertex"]))
    elif what == "scene":
        c["name"] = draw(near(SCENES))
    elif what == "keys":
        c["keys"] = draw(st.lists(st.sampled_from(["a", "b", "c", "d"]), max_size=4, unique=True))
        c["values"] = draw(st.integers(0, 6).filter(lambda n: n != len(c["keys"])))
    elif what == "node":
        c["names"] = draw(st.lists(st.sampled_from(["tx", "a", "tx_1", "z"]), max_size=4, unique=True))
        c["name"] = draw(st.one_of(st.sampled_from(["tx", "a", "tx_1", "z", "tx_", "TX", "", " tx", "tx_0"]), noise).filter(lambda n: n not in c["names"]))
        c["side"] = draw(st.sampled_from(["transmitters", "receivers"]))
    elif what == "geojson":
        c["cut"] = draw(st.integers(0, 300))
        c["edit"] = draw(st.sampled_from(["cut", "drop", "junk", "tail"]))
        c["bytes"] = draw(st.booleans())
    else:
        c["kinds"] = draw(st.permutations(["Wall", "RIS", "Point", "Vertex", "Path", "Ray"]))[: draw(st.integers(2, 4))]
    return c


DOC = '{"type": "FeatureCollection", "features": [{"type": "Feature", "properties": {}, "geometry": {"type": "Polygon", "coordinates": [[[0.5, 1.25], [2.0, 1.0], [1.5, 3.0], [0.5, 1.25]]]}}]}'
KINDS = {"Wall": W, "RIS": R, "Point": lambda: Point(xy=J([0.0, 1.0])), "Vertex": V, "Path": P, "Ray": lambda: Ray(xys=J([[0.0, 0.0], [1.0, 1.0]])), "Scene": S}


def refused(what, f):
    try:
        out = f()
    except Exception as e:
        return e
    ensure(False, "%s was accepted: %s", what, repr(out)[:300])


def check_names(c):
    what = c["what"]
    if what == "location":
        o = KINDS[c["on"]]()
        refused(f"location {c['name']!r} of {c['on']}", lambda: o.get_location(c["name"]))
        for k in LOCS:
            o.get_location(k)
        refused("location of an imported scene", lambda: Scene.from_geojson(DOC, tx_loc=c["name"]))
        refused("location of an imported scene", lambda: Scene.from_geojson(DOC, rx_loc=c["name"]))
    elif what == "scene":
        refused(f"scene {c['name']!r}", lambda: Scene.from_scene_name(c["name"]))
    elif what == "keys":
        e = refused("mismatched keys and values", lambda: PyTreeDict(tuple(c["keys"]), tuple(J(float(i)) for i in range(c["values"]))))
        ensure(isinstance(e, ValueError), "mismatched keys raised %s", type(e))
        refused("mismatched keys and values", lambda: PyTreeDict(c["keys"], [J(float(i)) for i in range(c["values"])]))
    elif what == "node":
        s = Scene(**{c["side"]: {n: Point(xy=J([float(i), 1.0])) for i, n in enumerate(c["names"])}})
        m = getattr(s, c["side"])
        e = refused(f"node {c['name']!r} of {c['names']}", lambda: m[c["name"]])
        ensure(isinstance(e, KeyError), "a missing node raised %s", type(e))
        ensure(c["name"] not in m and m.get(c["name"]) is None, "missing node %r found", c["name"])
        ensure(list(m) == c["names"] and len(m) == len(c["names"]), "nodes %s instead of %s", list(m), c["names"])
        for i, n in enumerate(c["names"]):
            ensure(np.asarray(m[n].xy).tolist() == [float(i), 1.0], "node %r is %s", n, m[n])
    elif what == "geojson":
        k = c["cut"] % len(DOC)
        brackets = [i for i, ch in enumerate(DOC) if ch in "[]{}:\""]
        b = brackets[c["cut"] % len(brackets)]
        text = {"cut": DOC[:k], "drop": DOC[:b] + DOC[b + 1 :], "junk": DOC[:b] + "<" + DOC[b:], "tail": DOC + "]}x"[k % 3]}[c["edit"]]
        try:
            import json

            json.loads(text)
            return Res(False, ("geojson", "still valid"), 0)
        except ValueError:
            pass
        src = text.encode() if c["bytes"] else text
        refused(f"undecodable text {text!r}", lambda: Scene.from_geojson(src))
        ensure(len(Scene.from_geojson(DOC).objects) >= 3, "valid text refused")
    else:
        refused(f"stacking {c['kinds']}", lambda: stack_leaves([KINDS[k]() for k in c["kinds"]]))
        same = stack_leaves([KINDS[c["kinds"][0]]() for _ in c["kinds"]])
        ensure(type(same) is type(KINDS[c["kinds"][0]]()), "stacked %s", type(same))
    return Res(True, (what,), 2)


SUBS = [
    Sub("construct", malformed(MAKE), check_malformed(MAKE), 2400, 60000, "every case", weight=5),
    Sub("query", malformed(QUERY), check_malformed(QUERY), 1600, 30000, "every case", weight=30),
    Sub("valid", valid(), check_valid, 2000, 60000, "at least one number", weight=5),
    Sub("names", names_case(), check_names, 1600, 40000, "the text cannot be decoded, or any other kind", weight=10),
]
