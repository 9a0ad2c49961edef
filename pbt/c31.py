"""C31: automatic derivatives of everything traced are the true derivatives.

Runs with 64-bit numbers enabled, so that differences of the library's own values
tell its derivatives to nine digits or so.
"""

import functools

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from differt2d import logic
from differt2d.geometry import RIS, FermatPath, ImagePath, MinPath, Path, Point, Ray, Vertex, Wall, closest_point, normalize, path_length, segments_intersect
from differt2d.optimize import minimize, minimize_many_random_uniform
from differt2d.scene import Scene
from differt2d.utils import received_power

from . import gen
from .core import HarnessError, Res, Sub, ensure

ACT = {"hard": logic.hard_sigmoid, "sigmoid": logic.sigmoid}
COUNT = {"W": 4, "R": 5, "V": 2}
CLS = {"path": Path, "image": ImagePath, "fermat": FermatPath, "min": MinPath}


def take(th, *shapes):
    """Cuts a vector into arrays of the given shapes; the rest comes last."""
    out, k = [], 0
    for s in shapes:
        n = int(np.prod(s, dtype=int))
        out.append(th[k : k + n].reshape(s))
        k += n
    return (*out, th[k:])


def objects(kinds, th):
    out = []
    for k in kinds:
        if k == "V":
            xy, th = take(th, (2,))
            out.append(Vertex(xy=xy))
        elif k == "W":
            xys, th = take(th, (2, 2))
            out.append(Wall(xys=xys))
        else:
            xys, phi, th = take(th, (2, 2), ())
            out.append(RIS(xys=xys, phi=phi))
    return out, th


def dot(w, x):
    return jnp.sum(w[: x.size] * x.ravel())


# --- the functions to differentiate: (numbers needed, function of them and of weights)


def f_segments(act):
    def f(th, w):
        p1, p2, p3, p4, tol, alpha, _ = take(th, (2,), (2,), (2,), (2,), (), ())
        return segments_intersect(p1, p2, p3, p4, tol=0.01 * tol, approx=True, alpha=2 + alpha**2, function=ACT[act])

    return 10, f


def f_wall(what, kind):
    n = {"W": 4, "R": 5, "V": 2}[kind]

    def f(th, w):
        (o,), th = objects(kind, th)
        if what == "normal":
            return dot(w, o.normal())
        if what == "image_of":
            return dot(w, o.image_of(th[:2]))
        if what == "to":
            return dot(w, o.parametric_to_cartesian(th[:1]))
        if what == "from":
            return dot(w, o.cartesian_to_parametric(th[:2]))
        if what == "evaluate":
            return o.evaluate_cartesian(th[:6].reshape(3, 2))
        if what == "contains":
            return o.contains_parametric(o.cartesian_to_parametric(th[:2]), approx=True, alpha=1 + th[2] ** 2)
        if what == "crosses":
            return o.intersects_cartesian(th[:4].reshape(2, 2), patch=0.2 * th[4], approx=True, alpha=1 + th[5] ** 2)
        if what == "vertices":
            a, b = o.get_vertices()
            return dot(w, jnp.stack([a.xy, b.xy, o.origin(), o.dest(), o.t()]))
        if what == "box":
            return dot(w, jnp.concatenate([o.bounding_box().ravel(), o.center(), o.get_location("NE")]))
        raise AssertionError(what)

    return n + 8, f


def f_length(k):
    def f(th, w):
        xys = th[: 2 * k].reshape(k, 2)
        return path_length(xys) + 0.3 * Path(xys=xys).length()

    return 2 * k, f


def f_normalize():
    def f(th, w):
        u, n = normalize(th[:2])
        return dot(w, jnp.append(u, n))

    return 2, f


def f_closest(k):
    def f(th, w):
        _, d = closest_point(th[2 : 2 + 2 * k].reshape(k, 2), th[:2])
        return d

    return 2 * k + 2, f


def f_logic(op, act):
    def f(th, w):
        kw = dict(approx=True, alpha=1 + th[2] ** 2, function=ACT[act])
        a = getattr(logic, op)(th[0], 0.5 * th[1], **kw)
        b = logic.greater(th[3], th[4], **kw)
        z = logic.logical_or(logic.logical_and(a, logic.logical_not(b, approx=True), approx=True), 0.5 * b, approx=True)
        t = (a, b, 0.7 * z)  # no two of them equal
        return z + 0.3 * a + 0.1 * logic.logical_any(*t, approx=True) - 0.2 * logic.logical_all(*t, approx=True) + logic.activation(th[0] * th[3], 1 + th[2] ** 2, function=ACT[act])

    return 5, f


def f_power(k):
    def f(th, w):
        tx, rx, r, h, xys, _ = take(th, (2,), (2,), (), (), (k, 2))
        p = Path(xys=jnp.vstack([tx, xys, rx]))
        return received_power(Point(xy=tx), Point(xy=rx), p, [None] * k, r_coef=0.5 + 0.3 * jnp.sin(r), height=0.1 + h**2)

    return 2 * k + 6, f


def f_path(cls, kinds, what, act="hard", extra=""):
    """A path through all the objects, judged against them and some more."""
    n = 4 + sum(COUNT[k] for k in kinds + extra) + 6

    def f(th, w):
        tx, rx, th = take(th, (2,), (2,))
        os, th = objects(kinds, th)
        more, th = objects(extra, th)
        kw = {} if cls in ("path", "image") else {"key": jax.random.PRNGKey(7), "steps": 12}
        p = CLS[cls].from_tx_objects_rx(tx, os, rx, **kw)
        if what == "points":
            return dot(w, p.xys)
        if what == "loss":
            return p.loss + jnp.log1p(p.length())
        k = len(os)
        logic_kw = dict(approx=True, alpha=1 + th[0] ** 2, function=ACT[act])
        if what == "on":
            return p.on_objects(os, **logic_kw)
        cand = jnp.arange(k)
        if what == "crosses":
            return p.intersects_with_objects([*os, *more], cand, patch=0.2 * th[1], **logic_kw)
        return p.is_valid([*os, *more], cand, os, tol=0.5 + th[2] ** 2, patch=0.2 * th[1], **logic_kw)

    return n, f


def total(tx, rx, path, os, a=1.0):
    return received_power(tx, rx, path, os) + a * jnp.sin(path.length())


def f_scene(kinds, how, orders, act):
    n = 8 + sum(COUNT[k] for k in kinds) + 4

    def f(th, w):
        t, r, th = take(th, (2, 2), (2, 2))
        one = how == "over" and len(kinds) > 1
        os, th = objects(kinds, th)
        s = Scene(transmitters={"a": Point(xy=t[0])} if one or how == "tx" else {"a": Point(xy=t[0]), "b": Point(xy=t[1])}, receivers={"c": Point(xy=r[0])} if one or how == "rx" else {"c": Point(xy=r[0]), "d": Point(xy=r[1])}, objects=os)
        kw = dict(min_order=orders[0], max_order=orders[1], approx=True, alpha=1 + th[0] ** 2, function=ACT[act], tol=0.2 + th[1] ** 2, patch=0.1 * th[2])
        if "V" in kinds or "R" in kinds:
            kw.update(path_cls=MinPath, path_cls_kwargs={"steps": 5}, key=jax.random.PRNGKey(3))
        if how == "over":
            return s.accumulate_over_paths(total, fun_args=(th[3],), reduce_all=True, **kw)
        X, Y = w[:2].reshape(1, 2), w[2:4].reshape(1, 2)
        g = s.accumulate_on_receivers_grid_over_paths if how == "rx" else s.accumulate_on_transmitters_grid_over_paths
        return jnp.sum(g(X, Y, total, fun_args=(th[3],), reduce_all=True, **kw) * w[4:6])

    return n, f


def f_minimise(many):
    def f(th, w):
        def obj(x, a, b):
            return jnp.sum((x - a) ** 2) + 0.1 * jnp.sin(b * x[0]) + 0.05 * x[0] * x[1]

        if many:
            x, y = minimize_many_random_uniform(lambda x: obj(x, th[:2], th[2]), jax.random.PRNGKey(5), 2, many=many, steps=8)
        else:
            x, y = minimize(obj, th[3:5], args=(th[:2], th[2]), steps=8)
        return dot(w, x) + 0.7 * y

    return 5, f


PARTS = [
    *[("segments", a) for a in ACT],
    *[("wall", what, k) for what in ("normal", "image_of", "to", "from", "evaluate", "contains", "crosses", "vertices", "box") for k in "WR"],
    ("wall", "to", "V"),
    ("wall", "box", "V"),
    ("length", 2),
    ("length", 5),
    ("normalize",),
    ("closest", 1),
    ("closest", 3),
    *[("logic", op, a) for op in ("greater", "greater_equal", "less", "less_equal") for a in ACT],
    ("power", 0),
    ("power", 2),
    ("minimise", 0),
    ("minimise", 3),
]
PATHS = [
    *[("path", "image", "W" * k, what) for k in (1, 2, 3) for what in ("points", "loss")],
    *[("path", "image", k, what, act, x) for k, x in (("W", "WW"), ("WW", "W"), ("", "W")) for what in ("crosses", "valid") for act in ACT],
    ("path", "image", "W", "on"),
    ("path", "image", "WW", "on", "sigmoid"),
    ("path", "path", "WR", "points"),
    ("path", "path", "W", "valid", "sigmoid", "R"),
    *[("path", c, k, what) for c in ("fermat", "min") for k in ("W", "WW", "RV", "VW", "R") for what in ("points", "loss")],
    ("path", "min", "R", "valid", "sigmoid", "W"),
    ("path", "fermat", "VW", "crosses", "hard", "W"),
]
SCENES = [
    ("scene", "WW", "over", (0, 1), "hard"),
    ("scene", "WW", "over", (2, 2), "sigmoid"),
    ("scene", "WW", "rx", (0, 1), "hard"),
    ("scene", "WW", "tx", (1, 1), "sigmoid"),
    ("scene", "W", "over", (1, 1), "sigmoid"),
    ("scene", "R", "rx", (1, 1), "sigmoid"),
    ("scene", "V", "tx", (1, 1), "sigmoid"),
    ("scene", "W", "rx", (1, 1), "hard"),
    ("scene", "W", "tx", (0, 1), "hard"),
    ("scene", "WWW", "over", (0, 0), "sigmoid"),
    ("scene", "W", "over", (0, 1), "hard"),
    ("scene", "R", "tx", (0, 1), "hard"),
    ("scene", "WW", "rx", (0, 0), "sigmoid"),
    ("scene", "WW", "tx", (2, 2), "hard"),
    ("scene", "W", "rx", (0, 0), "hard"),
    ("scene", "W", "tx", (0, 0), "sigmoid"),
]
MAKERS = {"segments": f_segments, "wall": f_wall, "length": f_length, "normalize": f_normalize, "closest": f_closest, "logic": f_logic, "power": f_power, "path": f_path, "scene": f_scene, "minimise": f_minimise}


@functools.lru_cache(None)
def compiled(cfg):
    n, f = MAKERS[cfg[0]](*cfg[1:])
    fwd = None  # in scenes, compiling it takes too long
    if cfg[0] != "scene":
        fwd = jax.jit(lambda th, v, w: jax.jvp(lambda t: f(t, w), (th,), (v,)))
    return n, jax.jit(jax.vmap(f, in_axes=(0, None))), jax.jit(jax.value_and_grad(f)), fwd


def freeze(x):
    return tuple(freeze(y) for y in x) if isinstance(x, list) else x


number = gen.spread(-(1 << 20), 1 << 20)


def cases(table, per):
    @st.composite
    def build(draw, shard):
        mine = table[shard % 8 :: 8]
        if per is not None:  # few of them, since they take long to compile
            mine = mine[:per]
        cfg = draw(st.sampled_from(mine))
        n = MAKERS[cfg[0]](*cfg[1:])[0]
        return {
            "cfg": list(cfg),
            "th": [draw(number) for _ in range(n)],
            "dir": draw(st.integers(0, 10**6)),
            "w": draw(st.integers(0, 10**6)),
        }

    return lambda shard: build(shard)


N_W = 24
BASE = 0.5 * np.sin(np.arange(1, 65) ** 2 * 0.7391)


def check(c):
    cfg = freeze(c["cfg"])
    n, values, grad, fwd = compiled(cfg)
    # Integers over 2**19, moved a little so that nothing is aligned by accident
    th = np.array(c["th"], dtype=np.float64) / (1 << 19) + BASE[:n]
    rng = np.random.default_rng(c["dir"])
    w = np.random.default_rng(c["w"]).normal(size=N_W)
    v0, g = grad(th, w)
    v0, g = np.asarray(v0), np.asarray(g)
    if v0.dtype != np.float64 or g.dtype != np.float64:
        raise HarnessError(f"{cfg}: 64-bit numbers are not enabled or not kept ({v0.dtype}, {g.dtype})")
    ensure(np.all(np.isfinite(g)) and np.isfinite(v0), "%s at %s: value %s, derivatives %s", cfg, th.tolist(), v0, g.tolist())
    dirs = [rng.normal(size=n)]
    for i in rng.permutation(n)[:3]:
        dirs.append(np.eye(n)[i])
    # How much rounding alone changes the values
    again = np.asarray(values(th * (1 + np.finfo(float).eps * rng.integers(-2, 3, size=(6, n))), w), dtype=np.float64)
    noise = float(max(np.ptp(again), np.abs(again - v0).max()))
    judged, big = 0, 0
    for v in dirs:
        v = v / np.linalg.norm(v)
        gv = float(g @ v)
        h = 2e-5
        steps = np.array([-h, h, -h / 2, h / 2, -h / 4, h / 4])
        y = np.asarray(values(th + steps[:, None] * v, w), dtype=np.float64)
        d1, d2, d3 = (y[1] - y[0]) / (2 * h), (y[3] - y[2]) / h, (y[5] - y[4]) / (h / 2)
        s3 = (y[5] + y[4] - 2 * float(v0)) / (h / 4)  # difference of the one-sided derivatives
        best = (16 * (4 * d3 - d2) / 3 - (4 * d2 - d1) / 3) / 15
        tol = 1e-6 * (abs(best) + 1e-2) + 50 * np.finfo(float).eps * (abs(float(v0)) + 1) / h + 12 * noise / h
        # Smooth there: the estimates agree and the one-sided derivatives too
        if tol > 1e-3 * (abs(best) + 1e-2) or abs(d2 - d3) > 10 * tol or abs(d1 - d2) > 40 * tol or abs(s3) > 1e-3 * (abs(best) + 1e-2):
            continue
        judged += 1
        big += abs(best) > 1e-6
        if fwd is not None:
            size = float(np.abs(g) @ np.abs(v))
            jv = float(fwd(th, v, w)[1])
            ensure(abs(jv - gv) <= 1e-7 * (size + 1e-3), "%s at %s: forward derivative %s, reverse %s, along %s", cfg, th.tolist(), jv, gv, v.tolist())
        ensure(abs(gv - best) <= tol + abs(d2 - d3), "%s at %s: derivative %s along %s, differences give %s", cfg, th.tolist(), gv, v.tolist(), best)
    return Res(big > 0, (":".join(str(x) for x in cfg[:2]), "smooth" if judged == len(dirs) else "kinks", "null" if judged and not big else "varies"), judged + len(dirs))


RULE = "a derivative above 1e-6 was compared"
SUBS = [
    Sub("parts", cases(PARTS, None), check, 2400, 40000, RULE, weight=1),
    Sub("paths", cases(PATHS, None), check, 1200, 16000, RULE, weight=3),
    Sub("scenes", cases(SCENES, 2), check, 320, 4000, RULE, weight=8),
]
