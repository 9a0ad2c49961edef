"""C09: accumulating over paths sums the function over the valid paths."""

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import FermatPath, ImagePath, MinPath, Path
from differt2d.logic import hard_sigmoid, sigmoid

from . import funs, gen, ref, scenes
from .c03 import FILTERS
from .core import Res, Sub, ensure
from .lib import A, key

PATTERNS = [["WWWW", ""], ["WW", "W"], ["WWW"], ["WWWWW", "WWWWWWWW"], ["WV", "VV"], ["WRV", "W"], ["RR", "WWW"], ["WWWW"]]
KINDS = {"W": "W", "R": "R", "V": "V", "notV": "WR"}
CLS = {"image": ImagePath, "fermat": FermatPath, "min": MinPath, "path": Path}


@st.composite
def options(draw, pat, orders=((0, 1), (0, 2), (1, 2), (0, 0), (2, 2), (2, 1), (1, 1))):
    homog = len(set(pat)) <= 1 and "V" not in pat
    cls = draw(st.sampled_from(["image"] * 4 + ["path", "fermat", "min"] if homog else ["fermat", "min"] if "V" in pat else ["fermat", "min", "path"]))
    o = {"cls": cls, "orders": list(draw(st.sampled_from(orders)))}
    o["exact_order"] = draw(st.sampled_from([False, False, True]))
    o["approx"] = draw(st.booleans())
    o["alpha"] = draw(st.sampled_from([None, None, 5.0, 20.0]))
    o["sigmoid"] = draw(st.sampled_from([None, "sigmoid", "hard"]))
    o["tol"] = draw(st.sampled_from([None, None, 0.25, 4.5]))
    o["patch"] = draw(st.sampled_from([None, None, 0.1, -0.25]))
    o["filter"] = draw(st.sampled_from([None, None, None, "W", "R", "V", "notV"]))
    o["key"] = draw(gen.keys()) if cls in ("fermat", "min") else draw(st.sampled_from([None, 3]))
    o["steps"] = draw(st.sampled_from([2, 4]))
    return o


def kwargs_of(o):
    """(keyword arguments of the tracing call, lowest and highest order, kept kinds)."""
    lo, hi = o["orders"]
    kw = {"path_cls": CLS[o["cls"]], "approx": o["approx"]}
    if o["exact_order"]:
        kw.update(order=hi, min_order=lo, max_order=hi)
        lo = hi
    else:
        kw.update(min_order=lo, max_order=hi)
    if o["approx"]:
        if o["alpha"]:
            kw["alpha"] = jnp.asarray(o["alpha"])
        if o["sigmoid"]:
            kw["function"] = {"sigmoid": sigmoid, "hard": hard_sigmoid}[o["sigmoid"]]
    if o["tol"]:
        kw["tol"] = jnp.asarray(o["tol"])
    if o["patch"]:
        kw["patch"] = jnp.asarray(o["patch"])
    if o["filter"]:
        kw["filter_objects"] = FILTERS[o["filter"]]
    if o["key"] is not None:
        kw["key"] = key(o["key"])
    if o["cls"] in ("fermat", "min"):
        kw["path_cls_kwargs"] = {"steps": o["steps"]}
    return kw, lo, hi, KINDS.get(o["filter"], "WRV")


@st.composite
def fun_spec(draw, lo_len=1):
    co = [draw(st.sampled_from([0.0, 0.0, 1.0, -0.5, 2.0])) for _ in range(7)]
    if not any(co):
        co[1] = 1.0
    return {
        "co": co,
        "args": draw(st.lists(st.sampled_from([0.5, -1.0, 3.0]), max_size=2)),
        "kwargs": draw(st.sampled_from([None, {}, {"off": 0.5}, {"mul": 3.0}, {"mul": -0.5, "off": 2.0}])),
    }


def objects(draw, pat, s):
    os = []
    for k in pat:
        os.append(["V", draw(gen.point(s))] if k == "V" else [k, draw(gen.segment(s))] + ([draw(gen.spread(-3000, 3000))] if k == "R" else []))
    if pat and set(pat) == {"W"}:
        os = [["W", w] for w in draw(gen.walls(s, len(pat), len(pat)))]
    return os


def cases(shard):
    @st.composite
    def case(draw):
        pat = draw(st.sampled_from(PATTERNS[shard % 8]))
        s = draw(gen.style("unit", "unit", "fine"))
        o = draw(options(pat))
        c = {"e": gen.exp_of(s), "objs": objects(draw, pat, s), "opts": o, "fun": draw(fun_spec())}
        few = len(pat) > 5
        c["tx"] = draw(scenes.nodes(s, 0, 1 if few else 4 if shard % 8 == 1 else 2))
        c["rx"] = draw(scenes.nodes(s, 0, 1 if few else 3 if shard % 8 == 6 else 2))
        return c

    return case()


def accumulate_kwargs(f):
    kw = {}
    if f["args"]:
        kw["fun_args"] = tuple(f["args"])
    if f["kwargs"] is not None:
        kw["fun_kwargs"] = f["kwargs"]
    return kw


def check(c):
    scene, txs, rxs, ro = scenes.build(c)
    kw, lo, hi, kept = kwargs_of(c["opts"])
    f = c["fun"]
    keep = [i for i, o in enumerate(ro) if o[0] in kept]
    cands = ref.candidates(len(ro), lo, hi, keep)
    n_c = sum(map(len, cands.values()))
    fun = funs.make(f["co"])
    fk = accumulate_kwargs(f)
    got = list(scene.accumulate_over_paths(fun, **fk, **kw))
    pairs = [(a, b) for a, _ in txs for b, _ in rxs]
    ensure([g[:2] for g in got] == pairs, "results for %s, expected the pairs %s", [g[:2] for g in got], pairs)
    pos_t, pos_r = dict(txs), dict(rxs)
    want = {p: 0.0 for p in pairs}
    size = {p: 0.0 for p in pairs}
    n_seen = {p: 0 for p in pairs}
    nz = 0
    for t, r, valid, path, cd in scene.all_paths(**kw):
        v = float(np.asarray(valid))
        x = funs.expected(f["co"], pos_t[t], pos_r[r], path.xys, [ro[int(i)] for i in cd], f["args"], f["kwargs"])
        if v != 0.0:
            want[t, r] += v * x
            nz += 1
        size[t, r] += v * (abs(x) + sum(map(abs, f["co"])) * (1 + np.abs(A(path.xys)).max()) + 10)
        n_seen[t, r] += 1
    ensure(all(v == n_c for v in n_seen.values()), "%s path entries, %s candidates", n_seen, n_c)
    total, tsize = 0.0, 0.0
    for t, r, z in got:
        z = np.asarray(z)
        ensure(z.shape == () and np.issubdtype(z.dtype, np.floating), "result of shape %s and type %s", z.shape, z.dtype)
        ensure(abs(float(z) - want[t, r]) <= 2e-5 * size[t, r] + 1e-12, "%s: accumulated %s, the sum over the %s paths is %s", (t, r), float(z), n_c, want[t, r])
        total += want[t, r]
        tsize += size[t, r]
    red = np.asarray(scene.accumulate_over_paths(fun, reduce_all=True, **fk, **kw))
    ensure(red.shape == () and abs(float(red) - total) <= 2e-5 * tsize + 1e-12, "reduced result %s, expected %s", red, total)
    return Res(nz > 0, (c["opts"]["cls"], "approx" if c["opts"]["approx"] else "exact", f"pairs={len(pairs)}", "no candidate" if not n_c else f"paths={'1' if nz <= 1 else '2+'}" if nz else "none valid"), len(got) + 2)


SUBS = [Sub("sum", cases, check, 400, 6000, "some path has a non-zero validity", weight=50)]
