"""C18: GeoJSON import turns each polygon edge into a wall."""

import io
import json
import os
import pathlib
import tempfile

import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import Point, Wall
from differt2d.scene import Scene

from . import gen
from .core import Res, Sub, ensure
from .lib import A

LOCS = ["N", "E", "S", "W", "C", "NE", "NW", "SE", "SW"]

# --- documents ----------------------------------------------------------------------


def number(kind):
    if kind == "degrees":
        return st.tuples(st.integers(-90, 90), st.integers(0, 10**7 - 1)).map(lambda t: t[0] + t[1] / 10**7)
    if kind == "local":
        return st.integers(0, 99999).map(lambda k: 4.6 + k * 1e-6)
    if kind == "lattice":
        return st.integers(-3, 3)
    return st.one_of(st.integers(-1000, 1000), st.integers(-8000, 8000).map(lambda k: k / 8))


def position(kind):
    return st.tuples(number(kind), number(kind)).map(list)


@st.composite
def ring(draw, kind):
    ps = draw(st.lists(position(kind), min_size=2, max_size=7))
    if draw(st.integers(0, 5)) == 0:
        k = draw(st.integers(0, len(ps) - 1))
        ps.insert(k, ps[k])
    if len({tuple(np.float32(p)) for p in ps}) < 2:
        ps.append([ps[0][0] + 1, ps[0][1] + 2])
    if draw(st.booleans()):
        ps.append(ps[0])
    return ps


@st.composite
def geometry(draw, kind):
    t = draw(
        st.sampled_from(
            ["Polygon"] * 8
            + ["holes", "holes", "empty", "empty ring", "Point", "MultiPoint", "LineString", "MultiLineString", "MultiPolygon", "GeometryCollection", "null", "absent"]
        )
    )
    if t == "Polygon":
        return {"type": "Polygon", "coordinates": [draw(ring(kind))]}
    if t == "holes":
        return {"type": "Polygon", "coordinates": [draw(ring(kind)) for _ in range(draw(st.integers(2, 3)))]}
    if t == "empty":
        return {"type": "Polygon", "coordinates": []}
    if t == "empty ring":
        return {"type": "Polygon", "coordinates": [[]]}
    if t == "Point":
        return {"type": t, "coordinates": draw(position(kind))}
    if t in ("MultiPoint", "LineString"):
        return {"type": t, "coordinates": draw(ring(kind))}
    if t == "MultiLineString":
        return {"type": t, "coordinates": [draw(ring(kind))]}
    if t == "MultiPolygon":
        return {"type": t, "coordinates": [[draw(ring(kind))]]}
    if t == "GeometryCollection":
        return {"type": t, "geometries": [{"type": "Polygon", "coordinates": [draw(ring(kind))]}]}
    return None if t == "null" else "absent"


@st.composite
def documents(draw):
    kind = draw(st.sampled_from(["degrees", "local", "lattice", "plain"]))
    feats = []
    for _ in range(draw(st.integers(0, 5))):
        g = draw(geometry(kind))
        f = {"type": "Feature", "properties": draw(st.sampled_from([{}, None, {"building": "yes", "name": "Église №1"}, {"geometry": {"type": "Polygon", "coordinates": [[[0, 0], [9, 9], [9, 0]]]}}]))}
        if g != "absent":
            f["geometry"] = g
        if draw(st.booleans()):
            f["id"] = "way/492286203"
            f = dict(reversed(list(f.items())))
        if draw(st.integers(0, 4)) == 0:
            f["bbox"] = [0, 0, 1, 1]
        feats.append(f)
    doc = {"type": "FeatureCollection", "features": feats}
    extra = draw(st.sampled_from([0, 0, 1, 2]))
    if extra:
        doc = {"generator": "overpass-ide", "copyright": "© №", **doc, "timestamp": "2023-07-27T15:01:41Z"}
    if not feats and draw(st.booleans()):
        del doc["features"]
    return {
        "doc": doc,
        "tx_loc": draw(st.sampled_from([None, *LOCS])),
        "rx_loc": draw(st.sampled_from([None, *LOCS])),
        "how": draw(st.sampled_from(["kwargs", "positional"])),
        "source": draw(st.sampled_from(["str", "bytes", "bytearray", "StringIO", "BytesIO", "text file", "binary file", "reader", "bytes reader"])),
        "indent": draw(st.sampled_from([None, 1])),
        "ascii": draw(st.booleans()),
    }


class Reader:
    def __init__(self, data):
        self.data = data

    def read(self):
        return self.data


def load(text, source, args, kwargs):
    data = text.encode()
    if source == "str":
        return Scene.from_geojson(text, *args, **kwargs)
    if source == "bytes":
        return Scene.from_geojson(data, *args, **kwargs)
    if source == "bytearray":
        return Scene.from_geojson(bytearray(data), *args, **kwargs)
    if source == "StringIO":
        return Scene.from_geojson(io.StringIO(text), *args, **kwargs)
    if source == "BytesIO":
        return Scene.from_geojson(io.BytesIO(data), *args, **kwargs)
    if source == "reader":
        return Scene.from_geojson(Reader(text), *args, **kwargs)
    if source == "bytes reader":
        return Scene.from_geojson(Reader(data), *args, **kwargs)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "x.geojson")
        pathlib.Path(p).write_bytes(data)
        with open(p, "rb") if source == "binary file" else open(p, encoding="utf-8") as f:
            return Scene.from_geojson(f, *args, **kwargs)


def edges(doc):
    """The edges of positive length, ring by ring."""
    out = []
    for f in doc.get("features", []):
        g = f.get("geometry")
        if g and g["type"] == "Polygon" and g["coordinates"]:
            ps = [tuple(np.float32(p)) for p in g["coordinates"][0]]
            es = [(p, q) for p, q in zip(ps, ps[1:] + ps[:1]) if p != q]
            if es:
                out.append(es)
    return out


def place(box, loc):
    (x0, y0), (x1, y1) = box
    x = x0 if "W" in loc else x1 if "E" in loc else (x0 + x1) / 2
    y = y0 if "S" in loc else y1 if "N" in loc else (y0 + y1) / 2
    return np.array([x, y])


def check_document(c):
    text = json.dumps(c["doc"], indent=c["indent"], ensure_ascii=c["ascii"])
    kw = {k: c[k] for k in ("tx_loc", "rx_loc") if c[k]}
    args = []
    if c["how"] == "positional" and "tx_loc" in kw:
        args = [kw.pop("tx_loc")]
        if "rx_loc" in kw:
            args.append(kw.pop("rx_loc"))
    scene = load(text, c["source"], args, kw)
    walls = []
    for o in scene.objects:
        ensure(type(o) is Wall, "an object is a %s", type(o))
        a = np.asarray(o.xys)
        if not np.array_equal(a[0], a[1]):
            walls.append((tuple(a[0]), tuple(a[1])))
    rings = edges(c["doc"])
    total = sum(map(len, rings))
    ensure(len(walls) == total, "%s walls of positive length for %s edges", len(walls), total)
    k = 0
    for i, es in enumerate(rings):
        got = walls[k : k + len(es)]
        k += len(es)
        ensure(any(got == es[j:] + es[:j] for j in range(len(es))), "the walls of ring %s are %s instead of %s (cyclically)", i, got, es)
    if total:
        ps = np.array([p for es in rings for e in es for p in e], dtype=float)
        box = (ps.min(axis=0), ps.max(axis=0))
        want = place(box, c["tx_loc"] or "NW"), place(box, c["rx_loc"] or "SE")
        tol = 4e-7 * np.abs(ps).max()
    else:
        want, tol = (np.zeros(2), np.ones(2)), 0.0
    for kind, name, w in (("transmitters", "tx", want[0]), ("receivers", "rx", want[1])):
        nodes = dict(getattr(scene, kind))
        ensure(list(nodes) == [name] and type(nodes[name]) is Point, "the %s are %s", kind, nodes)
        ensure(np.abs(A(nodes[name].xy) - w).max() <= tol, "%s (at %s) is at %s instead of %s", name, c[f"{name}_loc"], nodes[name].xy, w)
    return Res(
        total > 0,
        (c["source"], f"rings={min(3, len(rings))}", *{str((f.get("geometry") or {}).get("type")) for f in c["doc"].get("features", [])}),
        len(walls) + 3,
    )


# --- other sources ------------------------------------------------------------------

BAD = {
    "dict": lambda: {"type": "FeatureCollection", "features": []},
    "list": lambda: [],
    "int": lambda: 3,
    "float": lambda: 1.5,
    "none": lambda: None,
    "path": lambda: pathlib.Path("/nonexistent/x.geojson"),
    "object": object,
    "tuple": lambda: ("a",),
    "writer": lambda: type("W", (), {"write": lambda self, x: None})(),
    "iterator": lambda: iter(['{"features": []}']),
    "memoryview": lambda: memoryview(b'{"features": []}'),
}


def check_bad(c):
    try:
        r = Scene.from_geojson(BAD[c["source"]](), **c["kw"])
    except Exception as e:
        ensure(not isinstance(e, (MemoryError,)), "%s", e)
        return Res(True, (c["source"], type(e).__name__), 1)
    ensure(False, "a source of type %s gives %s", c["source"], r)


SUBS = [
    Sub("documents", documents(), check_document, 400, 12000, "at least one wall", weight=20),
    Sub("sources", st.fixed_dictionaries({"source": st.sampled_from(sorted(BAD)), "kw": st.sampled_from([{}, {"tx_loc": "N"}])}), check_bad, 40, 100, "every case", shards=1),
]
