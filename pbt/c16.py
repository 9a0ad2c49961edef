"""C16: scene edits return new scenes and change only what they say.

A random history of edits, on any scene of the history so far, is applied to the
library's scenes and to plain ordered dictionaries and lists.
"""

from collections.abc import Mapping

import jax
import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import RIS, Point, Vertex, Wall
from differt2d.scene import PyTreeDict, Scene

from . import gen
from .core import Res, Sub, ensure
from .lib import f32, obj, pt

E = 4
NAMES = ["tx", "rx", "a", "b", "tx_0", "A", "Zürich", "node 1", "0", "transmitters", "é", "", "key", "cls"]
KINDS = ("transmitters", "receivers")


def pos():
    return st.tuples(st.integers(-64, 64), st.integers(-64, 64)).map(list)


def node_list(hi=4):
    return st.lists(st.tuples(st.sampled_from(NAMES), pos()).map(list), max_size=hi, unique_by=lambda t: t[0])


def objects(hi=3):
    seg = st.tuples(pos(), pos()).map(list)
    one = st.one_of(
        seg.map(lambda s: ["W", s]),
        st.tuples(seg, st.integers(-1024, 1024)).map(lambda t: ["R", t[0], t[1]]),
        pos().map(lambda p: ["V", p]),
    )
    return st.lists(one, max_size=hi)


FILTERS = {
    "walls": lambda o: isinstance(o, Wall),
    "strict walls": lambda o: type(o) is Wall,
    "vertices": lambda o: isinstance(o, Vertex),
    "not surfaces": lambda o: not isinstance(o, RIS),
    "none": lambda o: False,
    "all": lambda o: True,
    "right": lambda o: bool(np.asarray(o.xy if isinstance(o, Vertex) else o.xys[0])[0] > 0),
}
MODEL_FILTERS = {
    "walls": lambda o: o[0] in "WR",
    "strict walls": lambda o: o[0] == "W",
    "vertices": lambda o: o[0] == "V",
    "not surfaces": lambda o: o[0] != "R",
    "none": lambda o: False,
    "all": lambda o: True,
    "right": lambda o: (o[1] if o[0] == "V" else o[1][0])[0] > 0,
}


def steps():
    on = st.integers(0, 3)  # 0: the last scene; k: k scenes before
    kind = st.sampled_from(KINDS)
    rename = st.lists(st.tuples(st.sampled_from(NAMES), st.sampled_from(NAMES)).map(list), max_size=3, unique_by=lambda t: t[0])
    return st.one_of(
        st.tuples(st.just("with"), on, kind, node_list()).map(list),
        st.tuples(st.just("update"), on, kind, node_list(3)).map(list),
        st.tuples(st.just("update"), on, kind, node_list(3)).map(list),
        st.tuples(st.just("rename"), on, kind, rename).map(list),
        st.tuples(st.just("rename"), on, kind, rename).map(list),
        st.tuples(st.just("with_objects"), on, objects()).map(list),
        st.tuples(st.just("add_objects"), on, objects()).map(list),
        st.tuples(st.just("filter_objects"), on, st.sampled_from(sorted(FILTERS))).map(list),
        st.tuples(st.just("copy"), on, kind).map(list),
    )


def histories():
    return st.fixed_dictionaries(
        {
            "transmitters": node_list(),
            "receivers": node_list(),
            "objects": objects(4),
            "shared": st.booleans(),
            "steps": st.lists(steps(), min_size=1, max_size=8),
        }
    )


def same_node(got, want, what):
    ensure(type(got) is Point, "%s is a %s", what, type(got).__name__)
    ensure(np.array_equal(np.asarray(got.xy), f32(want, E)), "%s is at %s instead of %s", what, got.xy, f32(want, E))


def same_object(got, o, what):
    cls = {"W": Wall, "R": RIS, "V": Vertex}[o[0]]
    ensure(type(got) is cls, "%s is a %s instead of a %s", what, type(got).__name__, cls.__name__)
    xys = np.asarray(got.xy if o[0] == "V" else got.xys)
    ensure(np.array_equal(xys, f32(o[1], E)), "%s is at %s instead of %s", what, xys, f32(o[1], E))
    if o[0] == "R":
        ensure(float(got.phi) == o[2] / 1024, "%s has angle %s", what, got.phi)


def compare(scene, model, what):
    n = 0
    ensure(type(scene) is Scene, "%s is not a scene", what)
    for kind in KINDS:
        got, want = getattr(scene, kind), model[kind]
        ensure(list(got) == list(want), "%s: the %s are named %s instead of %s", what, kind, list(got), list(want))
        for name, p in want.items():
            same_node(got[name], p, f"{what}: {kind}[{name!r}]")
            n += 1
    os = list(scene.objects)
    ensure(len(os) == len(model["objects"]), "%s has %s objects instead of %s", what, len(os), len(model["objects"]))
    for i, (g, o) in enumerate(zip(os, model["objects"])):
        same_object(g, o, f"{what}: object {i}")
        n += 1
    return n + 3


def mapping_laws(m, want, what):
    """The node collections are read-only ordered mappings."""
    ensure(isinstance(m, Mapping), "%s is not a mapping", what)
    ensure(len(m) == len(want), "%s has length %s instead of %s", what, len(m), len(want))
    ensure(list(m.keys()) == list(want) and [k for k, _ in m.items()] == list(want), "%s: keys() or items() differ from %s", what, list(want))
    for v, p in zip(m.values(), want.values()):
        same_node(v, p, what)
    for (_, v), p in zip(m.items(), want.values()):
        same_node(v, p, what)
    ensure(len(list(m.values())) == len(want), "%s: values() has another length", what)
    for name in [*NAMES, "nobody", 0, None, ("tx",)]:
        if name in want:
            ensure(name in m, "%s: %r is not in it", what, name)
            same_node(m.get(name), want[name], what)
        else:
            ensure(name not in m, "%s: %r is in it", what, name)
            ensure(m.get(name, "other") == "other", "%s.get(%r) ignores the default", what, name)
            try:
                r = m[name]
            except KeyError:
                pass
            else:
                ensure(False, "%s[%r] gives %s instead of raising KeyError", what, name, r)
    for act in ("set", "del", "pop", "attr"):
        try:
            if act == "set":
                m["new"] = pt([0, 0], E)
            elif act == "del":
                del m[next(iter(want), "x")]
            elif act == "pop":
                m.pop(next(iter(want), "x"))
            else:
                m._values = ()
        except (TypeError, AttributeError):
            pass
        else:
            ensure(False, "%s accepts to be modified (%s)", what, act)
    return 2 * len(NAMES)


def check_history(c):
    share = {}

    def point(p):
        return share.setdefault(tuple(p), pt(p, E)) if c["shared"] else pt(p, E)

    def node_dict(ns):
        return {n: point(p) for n, p in ns}

    def obs(os):
        return [obj(o, E) for o in os]

    source = {k: node_dict(c[k]) for k in KINDS}
    scene = Scene(**source, objects=obs(c["objects"]))
    model = {k: {n: p for n, p in c[k]} for k in KINDS}
    model["objects"] = list(c["objects"])
    hist = [(scene, model)]
    # The scene does not follow later changes of the mapping it was made from
    for k in KINDS:
        source[k]["later"] = pt([1, 1], E)
    n = compare(scene, model, "the initial scene")
    changed = 0
    for i, s in enumerate(c["steps"]):
        base, m = hist[max(0, len(hist) - 1 - s[1])]
        new = {**m}
        op = s[0]
        if op in ("with", "update", "rename"):
            kind = s[2]
            f = getattr(base, f"{op}_{kind}")
            if op == "rename":
                names = dict(s[3])
                out = f(**names)
                new[kind] = {names.get(k, k): p for k, p in m[kind].items()}
            else:
                out = f(**node_dict(s[3]))
                new[kind] = {**(m[kind] if op == "update" else {}), **{k: p for k, p in s[3]}}
        elif op == "with_objects":
            out = base.with_objects(*obs(s[2]))
            new["objects"] = list(s[2])
        elif op == "add_objects":
            out = base.add_objects(*obs(s[2]))
            new["objects"] = m["objects"] + list(s[2])
        elif op == "filter_objects":
            out = base.filter_objects(FILTERS[s[2]])
            new["objects"] = [o for o in m["objects"] if MODEL_FILTERS[s[2]](o)]
        else:  # a collection given back
            kind = s[2]
            out = getattr(base, f"with_{kind}")(**getattr(base, kind))
        what = f"step {i} {s[:3]}"
        n += compare(out, new, what)
        changed += new != m
        hist.append((out, new))
        for k, (old, om) in enumerate(hist[:-1]):
            n += compare(old, om, f"scene {k} after {what}")
    out, new = hist[-1]
    for kind in KINDS:
        n += mapping_laws(getattr(out, kind), new[kind], kind)
    for f in ("transmitters", "receivers", "objects"):
        try:
            setattr(out, f, {})
        except AttributeError:
            pass
        else:
            ensure(False, "the scene's %s can be replaced in place", f)
    compare(out, new, "the last scene after attempts to modify it")
    return Res(changed >= 2, tuple(sorted({s[0] for s in c["steps"]})), n)


# --- the mapping itself ------------------------------------------------------------


def maps():
    keys = st.one_of(st.sampled_from(NAMES), st.integers(-2, 3), st.tuples(st.integers(0, 2)))
    return st.fixed_dictionaries(
        {
            "keys": st.lists(st.one_of(st.sampled_from(NAMES), st.integers(-2, 3)), max_size=6, unique=True),
            "values": st.lists(st.integers(-8, 8), min_size=6, max_size=6),
        }
    )


def check_map(c):
    d = dict(zip(c["keys"], c["values"]))
    m = PyTreeDict.from_mapping(d)
    ensure(dict(m) == d and list(m) == list(d) and len(m) == len(d), "the mapping made from %s is %s", d, dict(m))
    for k in d:
        ensure(m[k] == d[k] and k in m, "%s[%r] is %s", d, k, m[k])
    for k in [7, "nobody", None]:
        try:
            m[k]
        except KeyError:
            continue
        ensure(False, "%s: unknown key %r accepted", d, k)
    again = PyTreeDict.from_mapping(m)
    ensure(list(again.items()) == list(d.items()), "copied mapping differs")
    m2 = jax.tree_util.tree_map(lambda v: v + 1, m)
    ensure(dict(m2) == {k: v + 1 for k, v in d.items()} and list(m2) == list(d), "mapped over values: %s", dict(m2))
    ensure(dict(m) == d, "mapping over the values changed the original")
    return Res(len(d) > 1, (f"keys={len(d)}",), 5 + len(d))


SUBS = [
    Sub("histories", histories(), check_history, 600, 12000, "at least two steps that change something", weight=30),
    Sub("mapping", maps(), check_map, 400, 4000, "at least two keys"),
]
