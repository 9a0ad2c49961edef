"""C22: minimisation-based paths touch their objects and report their loss."""

import random
from functools import partial

import jax
import jax.numpy as jnp
import numpy as np
import optax
from hypothesis import strategies as st
from scipy.optimize import minimize as scipy_minimize

from differt2d.geometry import RIS, FermatPath, MinPath, Path, Point, Vertex, Wall

from . import gen, ref
from .core import Res, Sub, ensure
from .lib import A, J, PHI, f32, key, obj

EPS = ref.EPS
CLS = {"fermat": FermatPath, "min": MinPath, "path": Path}
KINDS = {"fermat": FermatPath, "min": MinPath}

# --- touching and loss --------------------------------------------------------------


def structures(shard):
    r = random.Random(77 + shard)
    out = [["path", "WRVW"[: r.randint(0, 4)], {}]]
    for m in ("fermat", "min"):
        for _ in range(2):
            n = r.choice([0, 1, 1, 2, 2, 3, 4])
            kw = {}
            if r.random() < 0.8:
                kw["steps"] = r.choice([0, 1, 10, 40])
            if r.random() < 0.5:
                kw["many"] = r.choice([1, 2, 5])
            if r.random() < 0.3:
                kw["optimizer"] = "still"
            out.append([m, "".join(r.choice("WWRV") for _ in range(n)), kw])
    return out


STILL = optax.sgd(0.0)


def kwargs_of(kw):
    return {k: STILL if k == "optimizer" else v for k, v in kw.items()}


@st.composite
def touch_case(draw, shard):
    m, kinds, kw = draw(st.sampled_from(structures(shard)))
    s = draw(gen.style("fine", "lattice8", "unit", "wide", "tiny"))
    os = []
    for k in kinds:
        if k == "V":
            os.append(["V", draw(gen.point(s))])
        else:
            os.append([k, draw(gen.segment(s))] + ([draw(gen.spread(-7000, 7000))] if k == "R" else []))
    return {
        "e": gen.exp_of(s),
        "method": m,
        "kw": kw,
        "objs": os,
        "tx": draw(gen.point(s)),
        "rx": draw(gen.point(s)),
        "key": draw(gen.keys()),
        "raw": draw(st.booleans()),
    }


def check_touch(c):
    e = c["e"]
    cls = CLS[c["method"]]
    os = [obj(o, e) for o in c["objs"]]
    ro = [(o[0], f32(o[1], e).astype(float), *[v / PHI for v in o[2:]]) for o in c["objs"]]
    tx, rx = f32(c["tx"], e), f32(c["rx"], e)
    kw = kwargs_of(c["kw"])
    if c["method"] != "path":
        kw["key"] = key(c["key"])
    ends = (J(tx), J(rx)) if c["raw"] else (Point(xy=J(tx)), Vertex(xy=J(rx)))
    p = cls.from_tx_objects_rx(ends[0], os, ends[1], **kw)
    what = f"{cls.__name__} {c['kw']} through {[(o[0], np.asarray(o[1]).tolist()) for o in ro]}"
    ensure(type(p) is cls, "%s: the result is a %s", what, type(p))
    n = len(os)
    got, loss = np.asarray(p.xys), np.asarray(p.loss)
    ensure(got.shape == (n + 2, 2) and loss.shape == (), "%s: shapes %s and %s", what, got.shape, loss.shape)
    ensure(np.array_equal(got[0], tx) and np.array_equal(got[-1], rx), "%s: ends at %s and %s instead of %s and %s", what, got[0], got[-1], tx, rx)
    if not np.all(np.isfinite(got)):
        ensure(False, "%s: points %s", what, got.tolist())
    g = got.astype(float)
    scale = max(np.abs(g).max(), *(np.abs(o[1]).max() for o in ro), 1e-30) if ro else 1.0
    comps = 5
    params = []
    for i, o in enumerate(ro):
        q = g[i + 1]
        if o[0] == "V":
            ensure(np.array_equal(q, o[1]), "%s: point %s is %s, not the vertex %s", what, i, q, o[1])
            continue
        t = o[1][1] - o[1][0]
        off = abs(ref.cross(t, q - o[1][0])) / np.hypot(*t)
        ensure(off <= 8 * EPS * scale, "%s: point %s at %s is %s away from the line of object %s", what, i, q, off, o[1].tolist())
        s = ref.param(o[1], q)
        params.append(s)
        if c["method"] == "path":
            ensure(np.abs(q - o[1].mean(axis=0)).max() <= 4 * EPS * scale, "%s: point %s is %s, not the middle of %s", what, i, q, o[1].tolist())
        elif c["kw"].get("steps") == 0 or c["kw"].get("optimizer"):
            tol = ref.param_err(o[1], q)
            ensure(-tol <= s < 1 + tol, "%s: without any move, parameter %s is %s, outside [0, 1)", what, i, s)
        comps += 1
    if c["method"] == "path":
        ensure(loss == 0, "%s: loss %s", what, loss)
        return Res(n > 0, (c["method"], f"n={n}"), comps)
    ensure(np.isfinite(loss) and loss >= 0, "%s: loss %s", what, loss)
    legs = np.hypot(*np.diff(g, axis=0).T)
    judged = n == 0 or legs.min() > 1e-3 * scale
    if judged:
        d = sum(24 * EPS * (1 + scale / legs[i] + scale / legs[i + 1]) for i in range(n))
        want = ref.path_loss(ro, g)
        ensure(abs(float(loss) - want) <= 2 * np.sqrt(want * max(n, 1)) * d + d * d + 1e-9, "%s: loss %s, the interaction errors add up to %s along %s", what, loss, want, g.tolist())
    # the same key again, the end points given the other way
    ends = (Point(xy=J(tx)), J(rx))
    q = cls.from_tx_objects_rx(ends[0], tuple(os), ends[1], **kw)
    moves = 0 if c["kw"].get("optimizer") else c["kw"].get("steps", 100)
    if moves <= 1:
        ensure(np.allclose(A(q.xys), g, rtol=1e-5, atol=1e-5 * scale), "%s: the same key gives %s then %s", what, g.tolist(), A(q.xys).tolist())
    q = cls.from_tx_objects_rx(ends[0], tuple(os), ends[1], **kw)
    q2 = cls.from_tx_objects_rx(ends[0], tuple(os), ends[1], **kw)
    ensure(np.array_equal(np.asarray(q.xys), np.asarray(q2.xys)) and q.loss == q2.loss, "%s: the same key gives %s then %s", what, A(q.xys).tolist(), A(q2.xys).tolist())
    if params and moves == 0:
        r = cls.from_tx_objects_rx(*ends, tuple(os), **kw) if False else cls.from_tx_objects_rx(ends[0], tuple(os), ends[1], **{**kw, "key": key(c["key"] ^ 1)})
        ensure(not np.array_equal(A(r.xys), A(q.xys)), "%s: two keys give the same start %s", what, A(q.xys).tolist())
    return Res(n > 0 and judged, (c["method"], f"n={n}", "judged" if judged else "short leg"), comps + 3)


# --- convergence --------------------------------------------------------------------

B = 16  # placements traced at once


@partial(jax.jit, static_argnames=("method", "kinds", "steps", "many"))
def batch(tx, xys, phi, rx, keys, *, method, kinds, steps, many):
    """Many placements of objects of the given kinds, compiled once."""
    kw = {} if steps is None else {"steps": steps}
    if many:
        kw["many"] = many

    def one(tx, xys, phi, rx, k):
        os = [
            Wall(xys=xys[i]) if o == "W" else RIS(xys=xys[i], phi=phi[i]) if o == "R" else Vertex(xy=xys[i, 0])
            for i, o in enumerate(kinds)
        ]
        p = KINDS[method].from_tx_objects_rx(tx, os, rx, key=k, **kw)
        return p.xys, p.loss

    return jax.vmap(one)(tx, xys, phi, rx, keys)


def run(cs, method, kinds, k, steps, many):
    n = len(kinds)
    ks = jax.random.split(key(k), len(cs))
    xys, loss = batch(
        J(np.array([c["tx"] for c in cs])),
        J(np.array([c["xys"] for c in cs]).reshape(len(cs), n, 2, 2)),
        J(np.array([c["phi"] for c in cs]).reshape(len(cs), n)),
        J(np.array([c["rx"] for c in cs])),
        ks,
        method=method,
        kinds=kinds,
        steps=steps,
        many=many,
    )
    return A(xys), A(loss)


def grid(v):
    """Rounded to a multiple of 2**-12, exact in 32 bits."""
    return np.round(np.asarray(v, float) * 4096) / 4096


def fold(draw_int, n):
    """A specular path through n walls, built by following a ray (moderate geometry)."""
    x = np.array([draw_int(-4096, 4096), draw_int(-4096, 4096)]) / 4096
    tx = grid(x)
    a = draw_int(0, 6283) / 1000
    u = np.array([np.cos(a), np.sin(a)])
    ws = []
    x = tx
    for _ in range(n):
        x = x + draw_int(1200, 4096) / 4096 * u
        th = draw_int(500, 2600) / 1000
        ct, sn = np.cos(th), np.sin(th)
        t = np.array([ct * u[0] - sn * u[1], sn * u[0] + ct * u[1]])
        w = np.array([x - draw_int(800, 4000) / 4096 * t, x + draw_int(800, 4000) / 4096 * t])
        ws.append(grid(w[::-1] if draw_int(0, 1) else w))
        u = 2 * np.dot(u, t) * t - u
    rx = grid(x + draw_int(1200, 4096) / 4096 * u)
    return tx, ws, rx


@st.composite
def specular_case(draw, shard):
    """A seed stands for the batch: shrinking it would mean nothing."""
    return {"n": [1, 1, 2, 2, 3, 3, 1, 2][shard % 8], "method": ["fermat", "min"][shard % 2], "seed": draw(gen.keys()), "key": draw(gen.keys())}


def check_specular(c):
    rnd = random.Random(c["seed"])
    n, cs, want = c["n"], [], []
    tries = 0
    while len(cs) < B:
        tries += 1
        tx, ws, rx = fold(rnd.randint, n)
        pts, _ = ref.image_path(tx, ws, rx)
        if tries < 400 and (pts is None or np.abs(pts).max() > 6 or ref.path_loss([("W", w) for w in ws], pts) > 1e-9 or np.hypot(*np.diff(pts, axis=0).T).min() < 0.2):
            continue
        cs.append({"tx": tx, "xys": ws, "phi": [0.0] * n, "rx": rx})
        want.append(pts)
    want = np.array(want)
    many = 1 if c["method"] == "fermat" or n == 1 else 10
    xys, loss = run(cs, c["method"], "W" * n, c["key"], 1000, many)
    err = np.abs(xys - want).max(axis=(1, 2))
    bad = err > 0.02
    # Convergence is slow in some folded placements, and the min-path objective has
    # local minima, as soon as there are several walls
    allowed = 0 if n == 1 else B // 4
    i = int(err.argmax())
    ensure(bad.sum() <= allowed, "%s with %s wall(s), 1000 steps: %s of %s placements end off the specular path, e.g. %s instead of %s for walls %s", c["method"], n, int(bad.sum()), B, xys[i].tolist(), want[i].tolist(), [w.tolist() for w in cs[i]["xys"]])
    ensure(np.median(loss) < 1e-4 and np.all(loss[~bad] < (0.02 if n == 1 else 0.2)), "%s with %s wall(s): losses %s on specular paths", c["method"], n, loss.tolist())
    # With the default settings most of them are already valid
    xys, loss = run(cs, c["method"], "W" * n, c["key"], None, None)
    err = np.abs(xys - want).max(axis=(1, 2))
    ensure(np.median(err) < 0.08, "%s with %s wall(s), default settings: distances to the specular path %s", c["method"], n, err.tolist())
    ensure((loss > 1e-2).sum() <= allowed, "%s with %s wall(s), default settings: losses %s on specular paths", c["method"], n, loss.tolist())
    return Res(True, (f"{c['method']} n={n}",), 2 * B)


SHORT = ["W", "WW", "WV", "VW", "WVW", "WWW", "V", "VV"]


@st.composite
def shortest_case(draw, shard):
    return {"kinds": SHORT[shard % 8], "seed": draw(gen.keys()), "key": draw(gen.keys())}


def shortest(kinds, c):
    """Length of the shortest path touching the lines and vertices, in order (convex)."""
    walls = [i for i, k in enumerate(kinds) if k != "V"]

    def points(t):
        it = iter(t)
        out = [c["tx"]]
        for i, k in enumerate(kinds):
            w = c["xys"][i]
            out.append(w[0] if k == "V" else w[0] + next(it) * (w[1] - w[0]))
        return np.array([*out, c["rx"]])

    def f(t):
        return ref.length(points(t))

    if not walls:
        return f([]), points([])
    best = None
    for x0 in (np.full(len(walls), 0.5), np.zeros(len(walls))):
        r = scipy_minimize(f, x0, method="Nelder-Mead", options={"xatol": 1e-7, "fatol": 1e-10, "maxiter": 4000, "maxfev": 4000})
        if best is None or r.fun < best.fun:
            best = r
    return best.fun, points(best.x)


def check_shortest(c):
    rnd = random.Random(c["seed"])
    kinds, cs = c["kinds"], []
    while len(cs) < B:
        p = lambda: grid([rnd.uniform(-1, 1), rnd.uniform(-1, 1)])  # noqa: E731
        xys = []
        for _ in kinds:
            a = p()
            while True:
                d = p()
                if np.hypot(*d) > 0.3:
                    break
            xys.append(np.array([a, a + d]))
        cs.append({"tx": p(), "xys": xys, "phi": [0.0] * len(kinds), "rx": p()})
    xys, _ = run(cs, "fermat", kinds, c["key"], 1000, None)
    judged = 0
    for i, q in enumerate(cs):
        got = ref.length(xys[i])
        want, pts = shortest(kinds, q)
        legs = np.hypot(*np.diff(pts, axis=0).T)
        far = max(abs(ref.param(w, p)) for w, p in zip(q["xys"], pts[1:-1]))
        if legs.min() < 0.1 or far > 4:
            # the optimum is at a kink, or far from the walls
            continue
        judged += 1
        ensure(got <= want * 1.003 + 1e-3, "the Fermat path through %s from %s to %s is %s long after 1000 steps (%s); %s long is possible (%s)", [w.tolist() for w in q["xys"]], q["tx"], q["rx"], got, xys[i].tolist(), want, pts.tolist())
    return Res(judged > 0, (kinds,), judged)


@st.composite
def surface_case(draw, shard):
    return {"kinds": ["R", "RV"][shard % 2], "seed": draw(gen.keys()), "key": draw(gen.keys())}


def check_surface(c):
    """The ray that leaves a surface does so at its constant angle."""
    rnd = random.Random(c["seed"])
    cs, want = [], []
    while len(cs) < B:
        a = grid([rnd.uniform(-1, 1), rnd.uniform(-1, 1)])
        d = grid([rnd.uniform(-1, 1), rnd.uniform(-1, 1)])
        if np.hypot(*d) < 0.4:
            continue
        w = np.array([a, a + d])
        phi = round(rnd.uniform(-1.1, 1.1) * 1024) / 1024
        hit = a + rnd.uniform(-0.5, 1.5) * d
        n = ref.normal(w)
        m = np.array([n[1], -n[0]])
        r = -(np.cos(phi) * n + np.sin(phi) * m)
        out = grid(hit + rnd.uniform(0.3, 1.2) * r)
        end = out if c["kinds"] == "R" else grid([rnd.uniform(-1, 1), rnd.uniform(-1, 1)])
        xys = [w] if c["kinds"] == "R" else [w, np.array([out, out])]
        cs.append({"tx": grid([rnd.uniform(-1, 1), rnd.uniform(-1, 1)]), "xys": xys, "phi": [phi] * len(xys), "rx": end})
        want.append(hit)
    xys, loss = run(cs, "min", c["kinds"], c["key"], 1000, None)
    for i, q in enumerate(cs):
        err = ref.ris_error(q["xys"][0], q["phi"][0], xys[i][:3])
        ensure(err < 1e-3 and loss[i] < 1e-3, "the min path through the surface %s with angle %s leaves it with error %s (loss %s): %s, expected to hit it at %s", q["xys"][0].tolist(), q["phi"][0], err, loss[i], xys[i].tolist(), want[i].tolist())
        ensure(np.abs(xys[i][1] - want[i]).max() < 0.03, "the min path hits the surface %s with angle %s at %s instead of %s", q["xys"][0].tolist(), q["phi"][0], xys[i][1], want[i])
    return Res(True, (c["kinds"],), 3 * B)


SUBS = [
    Sub("touch", lambda k: touch_case(k), check_touch, 400, 16000, "at least one object, no very short leg", weight=40, more=8),
    Sub("specular", lambda k: specular_case(k), check_specular, 64, 2400, "every case (16 placements each)", weight=300),
    Sub("shortest", lambda k: shortest_case(k), check_shortest, 32, 1200, "a placement with a smooth optimum (16 placements each)", weight=500),
    Sub("surface", lambda k: surface_case(k), check_surface, 32, 1200, "every case (16 placements each)", weight=200),
]
