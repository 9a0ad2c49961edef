"""C03: scene tracing enumerates every pair and candidate, keeping the physical ones."""

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import RIS, FermatPath, ImagePath, MinPath, Path, Vertex, Wall
from differt2d.logic import is_true

from . import gen, ref, scenes
from .core import Res, Sub, ensure
from .lib import A, PHI, f32, key

SIZES = [[4, 0], [5], [6], [7], [1, 3], [8, 12], [2, 4], [5, 3]]


# --- against an independent tracer ----------------------------------------------


def tracer_cases(shard):
    @st.composite
    def case(draw):
        n = draw(st.sampled_from(SIZES[shard % 8]))
        many = shard % 8 == 4  # more nodes, for fewer candidates
        c = draw(scenes.wall_scene(n, *([(1, 5), (1, 4)] if many else [])))
        orders = [(0, 1), (0, 2), (1, 2), (0, 2), (2, 2), (0, 0)] + ([(0, 3), (3, 3)] if n <= 4 else [])
        if n > 8:
            orders = [(0, 1), (1, 1)]
        elif n == 2:
            orders.append((0, 5))
        lo, hi = draw(st.sampled_from(orders))
        c["orders"] = [lo, hi]
        c["exact_order"] = draw(st.booleans()) and lo == hi
        c["default"] = draw(st.booleans()) and [lo, hi] == [0, 1]
        c["tol"] = draw(st.sampled_from([None, None, None, 0.25, 2.0]))
        c["patch"] = draw(st.sampled_from([None, None, None, 0.25, -0.25]))
        c["key"] = draw(st.sampled_from([None, 7]))
        return c

    return case()


def kwargs_of(c):
    lo, hi = c["orders"]
    if c.get("exact_order"):
        kw = {"order": lo, "min_order": 1, "max_order": 0}
    elif c.get("default"):
        kw = {}
    else:
        kw = {"min_order": lo, "max_order": hi}
    if c.get("tol") is not None:
        kw["tol"] = jnp.asarray(c["tol"])
    if c.get("patch") is not None:
        kw["patch"] = jnp.asarray(c["patch"])
    if c.get("key") is not None:
        kw["key"] = key(c["key"])
    return kw


def check_tracer(c):
    scene, txs, rxs, ro = scenes.build(c)
    lo, hi = c["orders"]
    kw = kwargs_of(c)
    tol = 1e-2 if c["tol"] is None else c["tol"]
    patch = c["patch"] or 0.0
    cands = [cd for k, v in sorted(ref.candidates(len(ro), lo, hi).items()) for cd in v]
    want, n, und = {}, 0, 0
    for tn, tp in txs:
        for rn, rp in rxs:
            for cd in cands:
                inter = [ro[j] for j in cd]
                t = ref.Traced(tp, inter, rp)
                want[tn, rn, cd] = (t.valid(ro, inter, cd, tol, patch), t)
    seen = {}
    for tn, rn, path, cd in scene.all_valid_paths(approx=False, **kw):
        k = (tn, rn, tuple(int(i) for i in cd))
        ensure(k in want, "unexpected path %s", k)
        ensure(k not in seen, "path %s twice", k)
        seen[k] = path
    valid = 0
    refl = 0
    for k, (v, t) in want.items():
        if v is None:
            und += 1
            continue
        n += 1
        ensure((k in seen) == v, "%s: path %s is %s, the independent tracer says %s: points %s loss %s", c, k, "kept" if k in seen else "missing", v, None if t.pts is None else t.pts.tolist(), getattr(t, "loss", 0))
        if v:
            valid += 1
            refl += len(k[2]) > 0
            g = A(seen[k].xys)
            ensure(g.shape == t.pts.shape and np.all(np.abs(g - t.pts) <= max(t.err, 1e-12)), "path %s has points %s, the independent tracer finds %s", k, g.tolist(), t.pts.tolist())
    return Res(refl > 0, (f"walls={len(ro)}", f"orders={lo}-{hi}", f"valid={min(valid, 5)}", "undecided" if und else "all decided"), n)


# --- enumeration, names, pairing, any path class --------------------------------

PATTERNS = [["WW", "W"], ["WWW"], ["WV", ""], ["WRV"], ["RR"], ["VV", "V"], ["WWWW"], ["RWW"]]


def enum_cases(shard):
    @st.composite
    def case(draw):
        pat = draw(st.sampled_from(PATTERNS[shard % 8]))
        s = draw(gen.style("unit", "fine", "lattice8"))
        os = []
        for k in pat:
            os.append(["V", draw(gen.point(s))] if k == "V" else [k, draw(gen.segment(s))] + ([draw(gen.spread(-3000, 3000))] if k == "R" else []))
        homog = len(set(pat)) <= 1
        cls = draw(st.sampled_from(["image"] * 3 + ["fermat", "min", "path"]) if homog and "V" not in pat else st.sampled_from(["fermat", "min"] if "V" in pat else ["fermat", "min", "path"]))
        lo, hi = draw(st.sampled_from([(0, 1), (0, 2), (1, 2), (0, 0), (2, 2)]))
        return {
            "e": gen.exp_of(s),
            "objs": os,
            "tx": draw(scenes.nodes(s, 0, 5 if shard % 8 == 1 else 3)),
            "rx": draw(scenes.nodes(s, 0, 3)),
            "cls": cls,
            "orders": [lo, hi],
            "approx": draw(st.booleans()),
            "filter": draw(st.sampled_from([None, None, "W", "R", "V", "notV"])),
            "key": draw(gen.keys()),
            "alpha": draw(st.sampled_from([None, 10.0])),
        }

    return case()


FILTERS = {
    "W": lambda o: type(o) is Wall,
    "R": lambda o: isinstance(o, RIS),
    "V": lambda o: isinstance(o, Vertex),
    "notV": lambda o: not isinstance(o, Vertex),
}


def check_enum(c):
    scene, txs, rxs, ro = scenes.build(c)
    lo, hi = c["orders"]
    cls = {"image": ImagePath, "fermat": FermatPath, "min": MinPath, "path": Path}[c["cls"]]
    kw = {"min_order": lo, "max_order": hi, "path_cls": cls, "approx": c["approx"]}
    if cls in (FermatPath, MinPath):
        kw["path_cls_kwargs"] = {"steps": 3}
        kw["key"] = key(c["key"])
    elif c["key"] % 2:
        kw["key"] = key(c["key"])
    keep = None
    if c["filter"]:
        kw["filter_objects"] = FILTERS[c["filter"]]
        kinds = {"W": "W", "R": "R", "V": "V", "notV": "WR"}[c["filter"]]
        keep = [i for i, o in enumerate(ro) if o[0] in kinds]
    vkw = {"approx": c["approx"]}
    if c["approx"] and c["alpha"]:
        vkw["alpha"] = kw["alpha"] = jnp.asarray(c["alpha"])
    want = ref.candidates(len(ro), lo, hi, keep)
    got = list(scene.all_paths(**kw))
    total = sum(len(v) for v in want.values())
    ensure(len(got) == total * len(txs) * len(rxs), "%s entries, expected %s candidates x %s x %s", len(got), total, len(txs), len(rxs))
    jobs = list(scene.objects)
    n, i = 1, 0
    valid_keys = []
    first = None
    for tn, tp in txs:
        for rn, rp in rxs:
            block = got[i : i + total]
            i += total
            cds = []
            for gt, gr, valid, path, cd in block:
                ensure((gt, gr) == (tn, rn), "entry named %s, expected %s", (gt, gr), (tn, rn))
                cd = tuple(int(x) for x in cd)
                cds.append(cd)
                ensure(type(path) is cls, "path of type %s", type(path))
                x = np.asarray(path.xys)
                ensure(x.shape == (len(cd) + 2, 2), "points of shape %s for candidate %s", x.shape, cd)
                ensure(np.array_equal(x[0], tp.astype(np.float32)) and np.array_equal(x[-1], rp.astype(np.float32)), "path %s from %s to %s, expected %s to %s", cd, x[0], x[-1], tp, rp)
                inter = [jobs[j] for j in cd]
                if cls in (ImagePath, Path):
                    p = cls.from_tx_objects_rx(scene.transmitters[tn], inter, scene.receivers[rn])
                    ensure(np.allclose(np.asarray(p.xys), x, rtol=1e-5, atol=1e-6, equal_nan=True), "path for %s is %s, built directly %s", cd, x.tolist(), np.asarray(p.xys).tolist())
                else:
                    for q, j in zip(x[1:-1].astype(np.float64), cd):
                        o = ro[j]
                        if o[0] == "V":
                            ensure(np.array_equal(q, o[1]), "path for %s does not pass at vertex %s: %s", cd, o[1], q)
                        else:
                            d = o[1][1] - o[1][0]
                            off = abs(ref.cross(d, q - o[1][0])) / np.hypot(*d)
                            ensure(off <= 64 * ref.EPS * (1 + np.abs(q).max() + np.abs(o[1]).max()), "path for %s has %s, %s off wall %s", cd, q, off, j)
                v = np.asarray(valid)
                v2 = np.asarray(path.is_valid(jobs, jnp.asarray(cd, dtype=jnp.int32), inter, **vkw))
                ensure(v.shape == () and v.dtype == v2.dtype and (v.dtype == bool) == (not c["approx"]), "validity %s %s", v.dtype, v.shape)
                ensure(abs(float(v) - float(v2)) <= 1e-6, "validity of %s is %s, asked directly %s", cd, v, v2)
                if bool(is_true(valid, approx=c["approx"])):
                    valid_keys.append((tn, rn, cd))
                n += 5
            ensure(set(cds) == set().union(*want.values()) and len(set(cds)) == len(cds), "candidates %s, expected %s", cds, want)
            ensure([len(x) for x in cds] == sorted(len(x) for x in cds), "candidates not by increasing order: %s", cds)
            ensure(first is None or first == cds, "pairs see different candidates")
            first = cds
    got2 = [(a, b, tuple(int(x) for x in cd)) for a, b, _, cd in scene.all_valid_paths(**kw)]
    ensure(got2 == valid_keys, "all_valid_paths gives %s, the valid entries of all_paths are %s", got2, valid_keys)
    return Res(len(got) > 1, (c["cls"], "approx" if c["approx"] else "exact", f"filter={c['filter']}", f"pairs={len(txs) * len(rxs)}"), n + 1)


SUBS = [
    Sub("tracer", tracer_cases, check_tracer, 560, 8000, "at least one valid reflected path", weight=40),
    Sub("enumerate", enum_cases, check_enum, 240, 3000, "at least two entries", weight=60),
]
