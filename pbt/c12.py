"""C12: tracing is defined and differentiable everywhere (no NaN, no infinity)."""

import functools

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import FermatPath, ImagePath, MinPath, Path, Point, Wall
from differt2d.logic import hard_sigmoid, sigmoid
from differt2d.scene import Scene
from differt2d.utils import received_power

from . import gen, scenes
from .core import Res, Sub, ensure
from .lib import J, f32

# (number of walls, candidate, approximate?, activation, path class)
SHAPES = [
    [(1, (0,), True, "hard", "image"), (2, (), True, "sigmoid", "image"), (3, (0, 1), False, "hard", "image")],
    [(2, (0, 1), True, "sigmoid", "image"), (1, (0,), False, "hard", "image")],
    [(3, (0, 1, 0), True, "hard", "image"), (2, (1,), True, "sigmoid", "image")],
    [(4, (2,), True, "hard", "image"), (2, (0, 1), False, "hard", "image"), (2, (0,), True, "hard", "path")],
    [(2, (1,), False, "hard", "image"), (4, (), False, "hard", "image"), (3, (2, 0), True, "hard", "image")],
    [(2, (0, 1, 0), False, "hard", "image"), (2, (0,), True, "hard", "image")],
    [(1, (0,), True, "sigmoid", "image"), (3, (1,), True, "hard", "image"), (2, (0, 1), True, "hard", "path")],
    [(2, (0, 1), True, "hard", "image"), (5, (3,), True, "sigmoid", "image")],
]
OUT = ("length", "loss", "power", "validity", "validity * power")


@functools.lru_cache(None)
def traced(n, cand, approx, fname, cls, jit):
    fun = {"hard": hard_sigmoid, "sigmoid": sigmoid}[fname]
    C = {"image": ImagePath, "path": Path}[cls]

    def outputs(tx, rx, walls, alpha):
        objs = [Wall(xys=walls[i]) for i in range(n)]
        inter = [objs[j] for j in cand]
        p = C.from_tx_objects_rx(tx, inter, rx)
        kw = {"alpha": alpha, "function": fun} if approx else {}
        v = p.is_valid(objs, jnp.asarray(cand, dtype=jnp.int32), inter, approx=approx, **kw)
        v = v * jnp.array(1.0)
        w = received_power(Point(xy=tx), Point(xy=rx), p, inter)
        return jnp.stack([p.length(), p.loss, w, v, v * w]), p.xys

    def both(tx, rx, walls, alpha):
        f = lambda *a: outputs(*a, alpha)[0]  # noqa: E731
        return outputs(tx, rx, walls, alpha), jax.jacrev(f, argnums=(0, 1, 2))(tx, rx, walls)

    return jax.jit(both) if jit else both


@st.composite
def micro(draw):
    return [draw(st.integers(0, 3)) * (1 << 16) + draw(st.sampled_from([0, 0, 1, -1, 2])) for _ in (0, 1)]


@st.composite
def placements(draw, n):
    """Walls and nodes with coincidences and alignments."""
    s = draw(st.sampled_from(["lattice", "lattice", "lattice8", "fine", "unit", "wide", "micro"]))
    if s == "micro":
        e, m = 18, 1 << 18
        point = micro()
    else:
        e, m = gen.STYLES[s]
        point = gen.point(s)
    e += 2
    ws = []
    for _ in range(n):
        p = [4 * v for v in draw(point)]
        if ws and draw(st.integers(0, 2)) == 0:
            p = list(draw(st.sampled_from([q for w in ws for q in w])))
        q = [4 * v for v in draw(point)]
        k = draw(st.integers(0, 5))
        if k == 0:
            q[0] = p[0]
        elif k == 1:
            q[1] = p[1]
        elif k == 2 and ws:  # parallel to another one
            w = draw(st.sampled_from(ws))
            q = [p[i] + w[1][i] - w[0][i] for i in (0, 1)]
        if q == p:
            q = [p[0] + 4 * max(1, m // 4), p[1]]
        ws.append([p, q])
    nodes = []
    for _ in range(2):
        k = draw(st.sampled_from(["free", "free", "end", "on", "line", "same", "mirror", "align"]))
        p = [4 * v for v in draw(point)]
        w = draw(st.sampled_from(ws)) if ws else None
        if w and k == "end":
            p = list(w[draw(st.integers(0, 1))])
        elif w and k in ("on", "line"):
            t = draw(st.sampled_from([1, 2, 3] if k == "on" else [-4, -1, 5, 8]))
            d = [w[1][i] - w[0][i] for i in (0, 1)]
            p = [w[0][i] + t * (d[i] // 4) for i in (0, 1)]
        elif nodes and k == "same":
            p = list(nodes[0])
        elif nodes and w and k == "mirror":
            # the other node's image in the wall, if that is a lattice point
            a, d = nodes[0], [w[1][i] - w[0][i] for i in (0, 1)]
            dd = d[0] ** 2 + d[1] ** 2
            num = (a[0] - w[0][0]) * d[1] - (a[1] - w[0][1]) * d[0]
            p = [a[0] - 2 * num * d[1] // dd, a[1] + 2 * num * d[0] // dd]
        elif nodes and w and k == "align":
            d = [w[1][i] - w[0][i] for i in (0, 1)]
            if draw(st.booleans()):
                d = [d[1], -d[0]]
            p = [nodes[0][i] + d[i] for i in (0, 1)]
        nodes.append(p)
    lim = 1 << 24
    fix = lambda p: [max(-lim, min(lim, v)) & ~3 if abs(v) >= lim else v for v in p]  # noqa: E731
    return {"e": e, "walls": [[fix(p) for p in w] for w in ws], "tx": fix(nodes[0]), "rx": fix(nodes[1])}


def round32(v, e):
    return (np.asarray(v, dtype=np.float64) / 2.0**e).astype(np.float32)


def point_cases(shard):
    shapes = SHAPES[shard % 8]

    @st.composite
    def case(draw):
        k = draw(st.integers(0, len(shapes) - 1))
        c = draw(placements(shapes[k][0]))
        c["shape"] = list(shapes[k])
        c["alpha"] = draw(st.sampled_from([1.0, 10.0, 100.0, 1000.0]))
        return c

    return case()


def degenerate(c):
    """Why the placement is special."""
    out = []
    ws = round32(c["walls"], c["e"]).astype(np.float64)
    tx, rx = round32(c["tx"], c["e"]), round32(c["rx"], c["e"])
    if np.array_equal(tx, rx):
        out.append("same point")
    for w in ws:
        t = w[1] - w[0]
        for p in (tx, rx):
            d = p - w[0]
            if t[0] * d[1] - t[1] * d[0] == 0:
                out.append("on a wall's line")
            if any(np.array_equal(p, q) for q in w):
                out.append("on a corner")
        d = rx - tx
        if t[0] * d[1] - t[1] * d[0] == 0:
            out.append("parallel")
        if t @ d == 0:
            out.append("perpendicular")
    return sorted(set(out))


def tight(tx, rx, ws):
    """Whether there is a gap below a millionth of the scene's size, between two
    points or a point and a wall's line: 32-bit derivatives overflow there."""
    ws = np.asarray(ws, dtype=np.float64)
    ps = np.array([tx, rx, *ws.reshape(-1, 2)], dtype=np.float64)
    size = max(np.ptp(ps[:, 0]), np.ptp(ps[:, 1]))
    d = [np.hypot(*(p - q)) for p in ps for q in ps]
    for w in ws:
        t = w[1] - w[0]
        r = ps - w[0]
        d += list(np.abs(t[0] * r[:, 1] - t[1] * r[:, 0]) / np.hypot(*t))
    return any(0 < v < 1e-6 * size for v in d)


def check_points(c):
    n, cand, approx, fname, cls = c["shape"]
    ws = round32(c["walls"], c["e"])
    if any(np.array_equal(w[0], w[1]) for w in ws):
        return Res(False, ("zero-length wall",))
    f = traced(n, tuple(cand), approx, fname, cls, True)
    tx, rx = round32(c["tx"], c["e"]), round32(c["rx"], c["e"])
    (vals, xys), jac = f(J(tx), J(rx), J(ws), jnp.asarray(c["alpha"]))
    what = f"tx={tx.tolist()} rx={rx.tolist()} walls={ws.tolist()} {c['shape']} alpha={c['alpha']}"
    vals = np.asarray(vals)
    if not (np.isfinite(vals).all() and all(np.isfinite(np.asarray(g)).all() for g in jac)) and tight(tx, rx, ws):
        return Res(False, ("overflow",))
    ensure(np.all(np.isfinite(np.asarray(xys))), "%s: points %s", what, xys)
    for k, name in enumerate(OUT):
        ensure(np.isfinite(vals[k]), "%s: %s is %s", what, name, vals[k])
    for wrt, g in zip(("the transmitter", "the receiver", "the walls"), jac):
        g = np.asarray(g)
        for k, name in enumerate(OUT):
            ensure(np.all(np.isfinite(g[k])), "%s: derivative of the %s with respect to %s is %s", what, name, wrt, g[k].tolist())
    d = degenerate(c)
    return Res(bool(d), (*d, "approx" if approx else "exact", f"order={len(cand)}", cls), 20)


# --- maps -----------------------------------------------------------------------

MAPS = [(["W"], (2, 3)), (["WW"], (3, 3)), (["WWW"], (2, 2)), (["WWWW"], (3, 2)), (["WW"], (2, 4)), (["WWWW"], (2, 2)), (["WWW"], (3, 3)), (["W"], (4, 4))]


def map_cases(shard):
    pats, shape = MAPS[shard % 8]

    @st.composite
    def case(draw):
        s = draw(gen.style("lattice", "lattice8", "unit"))
        ws = draw(gen.walls(s, len(pats[0]), len(pats[0])))
        c = {"e": gen.exp_of(s), "walls": ws, "shape": list(shape)}
        for k in ("tx", "rx"):
            c[k] = draw(scenes.nodes(s, 1, 1))
            if draw(st.booleans()):
                c[k] = [[c[k][0][0], list(draw(st.sampled_from([p for w in ws for p in w])))]]
        c["side"] = draw(st.sampled_from(["tx", "rx"]))
        c["orders"] = draw(st.sampled_from([[0, 1], [0, 1], [0, 2], [1, 2]] if len(ws) < 4 else [[0, 1], [1, 1]]))
        c["approx"] = draw(st.booleans())
        c["what"] = draw(st.sampled_from(["grad", "value_and_grad", "value_and_grad", "value"]))
        c["corners"] = draw(st.booleans())
        return c

    return case()


def check_maps(c):
    scene, txs, rxs, ro = scenes.build(c)
    m, n = c["shape"]
    X, Y = scene.grid(m=n, n=m)
    if c["corners"]:
        # the walls' ends, repeated, instead of a regular grid
        ps = np.concatenate([np.asarray(w) for _, w in ro])
        ps = ps[np.arange(m * n) % len(ps)].astype(np.float32)
        X, Y = J(ps[:, 0].reshape(m, n)), J(ps[:, 1].reshape(m, n))
    method = scene.accumulate_on_transmitters_grid_over_paths if c["side"] == "tx" else scene.accumulate_on_receivers_grid_over_paths
    kw = {"approx": c["approx"], "min_order": c["orders"][0], "max_order": c["orders"][1]}
    if c["what"] != "value":
        kw[c["what"]] = True
    k = 0
    for name, z in method(X, Y, received_power, **kw):
        for a in z if isinstance(z, tuple) else (z,):
            a = np.asarray(a)
            k += a.size
            ensure(np.all(np.isfinite(a)), "%s of the power map over x=%s y=%s: %s", c["what"], X.tolist(), Y.tolist(), a.tolist())
    return Res(k > 0, (c["what"], "approx" if c["approx"] else "exact", "corners" if c["corners"] else "overlay"), k)


# --- other path methods ---------------------------------------------------------


@functools.lru_cache(None)
def minimised(cls, n):
    C = {"fermat": FermatPath, "min": MinPath}[cls]

    def f(tx, rx, walls, k):
        objs = [Wall(xys=walls[i]) for i in range(n)]
        p = C.from_tx_objects_rx(tx, objs, rx, key=jax.random.PRNGKey(k), steps=12)
        v = p.is_valid(objs, jnp.arange(n, dtype=jnp.int32), objs, approx=True)
        return jnp.concatenate([p.xys.reshape(-1), jnp.stack([p.length(), p.loss, v])])

    return jax.jit(f)


def min_cases(shard):
    @st.composite
    def case(draw):
        n = 1 + shard % 2
        c = draw(placements(n))
        c["cls"] = ["fermat", "min"][shard // 2 % 2]
        c["key"] = draw(gen.keys())
        return c

    return case()


def check_min(c):
    ws = round32(c["walls"], c["e"])
    if any(np.array_equal(w[0], w[1]) for w in ws):
        return Res(False)
    tx, rx = round32(c["tx"], c["e"]), round32(c["rx"], c["e"])
    v = np.asarray(minimised(c["cls"], len(ws))(J(tx), J(rx), J(ws), c["key"]))
    ensure(np.all(np.isfinite(v)), "tx=%s rx=%s walls=%s %s: %s", tx.tolist(), rx.tolist(), ws.tolist(), c["cls"], v.tolist())
    d = degenerate(c)
    return Res(bool(d), (*d, c["cls"]), v.size)


SUBS = [
    Sub("points", point_cases, check_points, 8000, 400000, "a node on a wall's line or corner, coinciding nodes, or nodes aligned with or across a wall", weight=1),
    Sub("maps", map_cases, check_maps, 48, 800, "at least one map entry", weight=300),
    Sub("minimised", min_cases, check_min, 1600, 40000, "as for points", weight=1),
]
