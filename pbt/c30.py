"""C30: objects, paths and nodes defined by the user are used through their interface."""

import copy
import inspect
import itertools

import equinox as eqx
import jax
import jax.numpy as jnp
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from jaxtyping import Array

from differt2d import logic
from differt2d.abc import Interactable, Object, Plottable
from differt2d.geometry import FermatPath, ImagePath, MinPath, Path, Point, Vertex, Wall
from differt2d.scene import Scene

from . import gen, ref
from .core import Res, Sub, ensure
from .lib import A, J, f32, key

EPS = ref.EPS

# --- what a user may define -------------------------------------------------------------


class Blob(eqx.Module, Object):
    """Points c + theta @ m; every answer is an affine function of the question."""

    c: Array
    m: Array
    q: Array
    a: Array
    b: Array
    g: Array
    h: Array
    e: Array
    e0: Array

    def parametric_to_cartesian(self, param_coords):
        return self.c + param_coords @ self.m

    def cartesian_to_parametric(self, carte_coords):
        return (carte_coords - self.c) @ self.q

    def contains_parametric(self, param_coords, approx=None, **kwargs):
        return logic.greater_equal(param_coords @ self.a, self.b, approx=approx, **kwargs)

    def intersects_cartesian(self, ray, patch=0.0, approx=None, **kwargs):
        return logic.greater(self.g @ ray.ravel() + patch * self.h, jnp.array(0.25), approx=approx, **kwargs)

    def evaluate_cartesian(self, ray_path):
        return (self.e @ ray_path.ravel() - self.e0) ** 2

    def bounding_box(self):
        return jnp.stack([self.c - jnp.abs(self.a[:1]).sum() - 0.5, self.c + jnp.array([0.25, 1.0])])

    def plot(self, ax, *args, **kwargs):
        return [ax.text(*np.asarray(self.c), f"blob {args} {sorted(kwargs)}")]


class Blob0(Blob):
    @staticmethod
    def parameters_count():
        return 0


class Blob1(Blob):
    @staticmethod
    def parameters_count():
        return 1


class Blob2(Blob):
    @staticmethod
    def parameters_count():
        return 2


class Blob3(Blob):
    @staticmethod
    def parameters_count():
        return 3


BLOBS = (Blob0, Blob1, Blob2, Blob3)


class Gate(Wall):
    """A wall with an opening in the middle, where nothing is reflected."""

    def contains_parametric(self, param_coords, approx=None, **kwargs):
        out = super().contains_parametric(param_coords, approx=approx, **kwargs)
        far = logic.greater(jnp.abs(param_coords[0] - 0.5), jnp.array(0.125), approx=approx, **kwargs)
        return logic.logical_and(out, far, approx=approx)


class Glass(Wall):
    """A wall that does not obstruct."""

    def intersects_cartesian(self, ray, patch=0.0, approx=None, **kwargs):
        return logic.false_value(approx=approx)


class Rough(Wall):
    """A wall with an interaction error of its own."""

    def evaluate_cartesian(self, ray_path):
        return 3.0 * super().evaluate_cartesian(ray_path) + 0.125


class Tilted(Wall):
    """A wall that reflects as if it were turned about its origin."""

    u: Array = eqx.field(default_factory=lambda: jnp.array([1.0, 0.0]))

    def normal(self):
        return jnp.array([self.u[1], -self.u[0]])


class Bent(Path):
    """Goes through the middles of boxes, moved a little."""

    @classmethod
    def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, bend=0.0, extra=0.0):
        tx = tx.xy if isinstance(tx, Point) else tx
        rx = rx.xy if isinstance(rx, Point) else rx
        mids = [o.center() + bend for o in objects]
        if key is not None:
            extra = jax.random.uniform(key)
        return cls(xys=jnp.stack([tx, *mids, rx]), loss=jnp.asarray(extra + 0.001 * len(objects)))

    def length(self):
        return 10.0 + super().length()


class Antenna(Point):
    gain: Array = eqx.field(default_factory=lambda: jnp.array(7.0))


WALLS = {"W": Wall, "G": Gate, "L": Glass, "O": Rough}

# --- cases and their reference ------------------------------------------------------------

E = 6  # coordinates are multiples of 1/64
small = st.integers(-96, 96)
point = st.tuples(small, small).map(list)


@st.composite
def thing(draw, kind):
    if kind == "V":
        return ["V", draw(point)]
    if kind in WALLS or kind == "T":
        a, b = draw(point), draw(point)
        return [kind, [a, b if a != b else [a[0] + 32, a[1] - 7]]]
    k = int(kind)
    few = st.integers(-64, 64)
    return [kind, {"c": draw(point), "m": [[draw(few), draw(few)] for _ in range(k)], "q": [[draw(few) for _ in range(k)] for _ in range(2)], "a": [draw(few) for _ in range(k)], "b": draw(few) if k else draw(st.sampled_from([-64, 64, 0])), "g": [draw(few) for _ in range(4)], "h": draw(few), "e": [draw(few) for _ in range(6)], "e0": draw(few)}]


def shape_of(v, name, k):
    return {"m": (k, 2), "q": (2, k), "a": (k,)}.get(name, np.shape(v))


def build(o):
    kind, v = o
    if kind == "V":
        return Vertex(xy=J(f32(v, E)))
    if kind in WALLS:
        return WALLS[kind](xys=J(f32(v, E)))
    k = int(kind)
    return BLOBS[k](**{n: J(f32(np.asarray(x).reshape(shape_of(x, n, k)), E)) for n, x in v.items()})


class Ref:
    """The object's answers in 64 bits, with what 32 bits may be off by."""

    def __init__(self, o):
        self.kind, v = o
        if isinstance(v, dict):
            self.k = int(self.kind)
            for n, x in v.items():
                setattr(self, n, np.asarray(f32(np.asarray(x).reshape(shape_of(x, n, self.k)), E), dtype=np.float64))
        else:
            self.k = 0 if self.kind == "V" else 1
            self.xys = np.asarray(f32(v, E), dtype=np.float64)

    def at(self, theta):
        if self.kind == "V":
            return self.xys
        if self.kind in WALLS:
            return self.xys[0] + theta[0] * (self.xys[1] - self.xys[0])
        return self.c + np.asarray(theta) @ self.m if self.k else self.c

    def middle(self):
        if self.kind == "V":
            return self.xys
        if self.kind in WALLS:
            return 0.5 * (self.xys[0] + self.xys[1])
        lo, hi = self.c - np.abs(self.a[:1]).sum() - 0.5, self.c + [0.25, 1.0]
        return 0.5 * (lo + hi)

    def contains(self, p, L, extra):
        """Truth, in the logic L, of the point p (known up to `extra`) being on it."""
        if self.kind == "V":
            return L.sure(True)
        if self.kind in WALLS:
            s, m = ref.param(self.xys, p), ref.param_err(self.xys, p) + 2 * extra / np.hypot(*(self.xys[1] - self.xys[0]))
            out = [L.above(s, m), L.above(1.0 - s, m)]
            if self.kind == "G":
                out.append(L.above(abs(s - 0.5) - 0.125, m))
            return L.both(*out)
        d = p - self.c
        th = d @ self.q
        m = 16 * EPS * (np.abs(p).max() + np.abs(self.c).max() + 1) * 4 + 4 * extra
        return L.above(float(th @ self.a) - float(self.b), (1 + np.abs(self.a).sum()) * (m + 4 * EPS * np.abs(th).sum()))

    def crossed(self, p, q, patch, L, extra):
        if self.kind in ("V", "L"):
            return L.sure(False)
        if self.kind in WALLS:
            return L.wall(self.xys, p, q, patch, extra)
        v = np.concatenate([p, q])
        m = 16 * EPS * (np.abs(self.g) @ np.abs(v) + abs(patch * self.h) + 1) + extra * np.abs(self.g).sum()
        return L.above(float(self.g @ v + patch * self.h) - 0.25, m)

    def error(self, pts):
        if self.kind == "V":
            return 0.0
        if self.kind in WALLS:
            x = ref.wall_error(self.xys, pts)
            return 3 * x + 0.125 if self.kind == "O" else x
        return float(self.e @ np.ravel(pts) - self.e0) ** 2


class Exact:
    """Three-valued."""

    @staticmethod
    def sure(v):
        return v

    @staticmethod
    def above(x, m):
        return ref.ge(x, 0.0, m)

    both, either, no = staticmethod(ref.t_and), staticmethod(ref.t_or), staticmethod(ref.t_not)

    @staticmethod
    def wall(w, p, q, patch, extra):
        return ref.wall_crossed(w, p, q, patch, extra=extra)

    @staticmethod
    def bounds(v):
        return {True: (1.0, 1.0), False: (0.0, 0.0), None: (0.0, 1.0)}[v]


class Fuzzy:
    def __init__(self, fname, alpha):
        self.s = ref.Soft(fname, alpha)
        self.above, self.both, self.either, self.no = self.s.pos, self.s.land, self.s.lor, self.s.lnot

    @staticmethod
    def sure(v):
        return (1.0, 1.0) if v else (0.0, 0.0)

    def wall(self, w, p, q, patch, extra):
        return self.s.crossed(w, p, q, patch, extra)

    @staticmethod
    def bounds(v):
        return v


def verdicts(L, ros, cand, pts, lo, hi, tol, patch, extra=0.0):
    """On its objects; obstructed; valid, the loss being within [lo, hi]."""
    on, cross = L.sure(True), L.sure(False)
    for i, j in enumerate(cand):
        on = L.both(on, ros[j].contains(pts[i + 1], L, extra))
    own = [None, *cand, None]
    for i in range(len(pts) - 1):
        for j, o in enumerate(ros):
            if j not in (own[i], own[i + 1]):
                cross = L.either(cross, o.crossed(pts[i], pts[i + 1], patch, L, extra))
    m = 4 * EPS * (1 + hi + tol) + 0.5 * (hi - lo)
    return on, cross, L.both(on, L.no(cross), L.above(tol - 0.5 * (lo + hi), m))


MIXES = ["12", "0W1", "G2V", "3L", "1OG0", "22", "W1V2", "GGL"]


@st.composite
def judging_case(draw, shard):
    mix = MIXES[shard % 8]
    os = [draw(thing(k)) for k in mix]
    # What is compiled is fixed by the shard
    n = shard // 8 % 2 + 1 + (shard % 3 == 0)
    cand = [(shard // 8 + i * (1 + shard % 2)) % len(os) if i % 2 == 0 else (shard // 8 + 1 + i // 2) % len(os) for i in range(n)]
    if draw(st.integers(0, 3)) == 3:
        cand = [len(os) - 1 - j for j in cand]
    if any(a == b for a, b in zip(cand, cand[1:])):
        cand = [j % len(os) for j in range(n)]
    return {
        "objs": os,
        "cand": cand,
        "pts": [draw(point) for _ in range(n + 2)],
        "snap": draw(st.booleans()),
        "ts": [draw(st.integers(-8, 40)) for _ in range(n)],
        "easy": draw(st.booleans()),  # more often on its objects and not obstructed
        "loss": draw(st.integers(0, 64)),
        "tol": draw(st.integers(1, 64)),
        "patch": draw(st.sampled_from([0, 8, -8])) if shard % 5 else None,
        "soft": draw(st.sampled_from([None, ["hard", "sigmoid"][shard // 2 % 2]])),
        "alpha": draw(st.sampled_from([1.0, 4.0, 30.0])),
    }


def logic_of(c):
    if c["soft"] is None:
        return Exact, {"approx": False}
    return Fuzzy(c["soft"], c["alpha"]), {"approx": True, "alpha": J(np.float32(c["alpha"])), "function": {"hard": logic.hard_sigmoid, "sigmoid": logic.sigmoid}[c["soft"]]}


def judge(got, want, L, what, *args):
    lo, hi = L.bounds(want)
    x = float(np.asarray(got, dtype=np.float64))
    ensure(lo <= x <= hi, "%s: got %s, expected %s (%s)", what, got, want, args)
    return hi - lo < 0.5


def check_judging(c):
    if c["easy"]:
        c = copy.deepcopy(c)
        for o in c["objs"]:
            if isinstance(o[1], dict):
                o[1]["b"], o[1]["h"] = -abs(o[1]["b"]), -abs(o[1]["h"])
                o[1]["g"] = [round(x / 8) for x in o[1]["g"]]
            elif o[0] in WALLS:
                (a, b), far = o[1], 24
                o[1] = [[x + (far if x > 0 else -far) for x in a], [x + (far if x > 0 else -far) for x in b]] if o[0] != "G" else o[1]
        c = {**c, "loss": c["loss"] // 4, "tol": 16 + c["tol"]}
    objs, ros = [build(o) for o in c["objs"]], [Ref(o) for o in c["objs"]]
    pts = np.asarray(f32(c["pts"], E)).copy()
    if c["snap"]:
        # On the objects, or a little beyond
        for i, j in enumerate(c["cand"]):
            pts[i + 1] = ros[j].at([c["ts"][i] / 32] * ros[j].k)
    p64 = pts.astype(np.float64)
    L, kw = logic_of(c)
    loss, tol = c["loss"] / 64, c["tol"] / 64
    pk = {} if c["patch"] is None else {"patch": J(np.float32(c["patch"] / 32))}
    path = Path(xys=J(pts), loss=J(np.float32(loss)))
    cand = jnp.asarray(c["cand"], dtype=jnp.int32)
    inter = [objs[j] for j in c["cand"]]
    on, cross, valid = verdicts(L, ros, c["cand"], p64, loss, loss, tol, (c["patch"] or 0) / 32)
    n = 0
    n += judge(path.on_objects(inter, **kw), on, L, "on_objects", c)
    n += judge(path.intersects_with_objects(objs, cand, **pk, **kw), cross, L, "intersects_with_objects", c)
    n += judge(path.is_valid(objs, cand, inter, tol=J(np.float32(tol)), **pk, **kw), valid, L, "is_valid", c)
    return Res(n > 0, ("soft" if c["soft"] else "exact", f"valid {L.bounds(valid)[0] > 0.5}"), 3)


# --- methods that look for points -----------------------------------------------------------

STRUCT = [("fermat", "2"), ("min", "12"), ("fermat", "0W3"), ("min", "3G"), ("path", "1W1"), ("fermat", "1V2"), ("min", "0"), ("fermat", "21W")]


@st.composite
def points_case(draw, shard):
    method, mix = STRUCT[shard % 8]
    return {"method": method, "objs": [draw(thing(k)) for k in mix], "tx": draw(point), "rx": draw(point), "key": draw(gen.keys()), "steps": [0, 3][shard // 8 % 2]}


def coordinates(o, p):
    """(parameters the point has on the object, how far it is from it)."""
    if o.k == 0:
        return np.zeros(0), float(np.abs(p - o.at([])).max())
    m = o.m if not hasattr(o, "xys") else (o.xys[1] - o.xys[0])[None]
    base = o.c if not hasattr(o, "xys") else o.xys[0]
    th, *_ = np.linalg.lstsq(m.T, p - base, rcond=None)
    return th, float(np.abs(base + th @ m - p).max())


def check_points(c):
    objs, ros = [build(o) for o in c["objs"]], [Ref(o) for o in c["objs"]]
    tx, rx = f32(c["tx"], E), f32(c["rx"], E)
    cls = {"path": Path, "fermat": FermatPath, "min": MinPath}[c["method"]]
    kw = {} if c["method"] == "path" else {"key": key(c["key"]), "steps": c["steps"]}
    p = cls.from_tx_objects_rx(J(tx), objs, J(rx), **kw)
    pts = A(p.xys)
    ensure(pts.shape == (len(objs) + 2, 2) and np.array_equal(pts[0], tx) and np.array_equal(pts[-1], rx), "path %s from %s to %s through %s", pts.tolist(), tx, rx, c["objs"])
    free = []
    for o, x in zip(ros, pts[1:-1]):
        big = 64 * EPS * (1 + np.abs(x).max())
        if c["method"] == "path":
            want = o.at([0.5] * o.k)
            ensure(np.abs(x - want).max() <= big, "default point %s on %s, expected %s", x.tolist(), o.kind, want.tolist())
            continue
        th, off = coordinates(o, x)
        ensure(off <= big, "point %s is %s away from what object %s %s can give", x.tolist(), off, o.kind, c["objs"])
        m = o.m if not hasattr(o, "xys") else np.eye(1)
        well = o.k and np.linalg.svd(m, compute_uv=False)[-1] > 0.05 and o.k <= 2
        if c["steps"] == 0 and well:
            ensure(np.all(th > -1e-3) and np.all(th < 1 + 1e-3), "parameters %s of the starting point on %s, outside [0, 1]", th.tolist(), o.kind)
            free += th.tolist()
        elif c["steps"] == 0 and o.k == 3:
            box = o.c + np.array([np.minimum(o.m, 0).sum(0), np.maximum(o.m, 0).sum(0)])
            ensure(np.all(x >= box[0] - big) and np.all(x <= box[1] + big), "starting point %s outside %s", x.tolist(), box.tolist())
    if c["steps"] == 0 and c["method"] != "path":
        gaps = [abs(a - b) for a, b in itertools.combinations(free, 2)]
        ensure(not gaps or min(gaps) > 1e-7 or max(gaps) > 1e-4 and len(gaps) > 1, "all objects get the same parameters %s", free)
        if len(free) == 2:
            ensure(gaps[0] > 1e-6, "two parameters are equal: %s", free)
    legs = np.hypot(*np.diff(pts, axis=0).T)
    if c["method"] != "path" and legs.min() > 1e-2:
        want = sum(o.error(pts[i : i + 3]) for i, o in enumerate(ros))
        size = sum(1 + (np.abs(o.e) @ np.abs(np.ravel(pts[i : i + 3])) + abs(o.e0)) ** 2 if o.kind.isdigit() else 1 + 1 / legs.min() for i, o in enumerate(ros))
        ensure(abs(float(p.loss) - want) <= 256 * EPS * size, "loss %s, the objects' errors add up to %s (%s)", float(p.loss), want, c)
    return Res(any(o.kind.isdigit() for o in ros), (c["method"], f"steps {c['steps']}"), 4)


# --- convergence with as many parameters as the objects have -----------------------------------


@st.composite
def converge_case(draw, shard):
    c = draw(thing("2"))
    return {"method": ["min", "fermat"][shard % 2], "c": draw(point), "target": [draw(st.integers(8, 56)), draw(st.integers(8, 56))], "second": [draw(st.integers(8, 56)), draw(st.integers(8, 56))], "tx": draw(point), "rx": draw(point), "key": draw(gen.keys()), "turn": draw(st.integers(0, 63)), "more": draw(st.booleans()), "one": c[1]["g"]}


class Spot(eqx.Module, Object):
    """A square patch of which one point only can be interacted with."""

    o: Array
    u: Array
    goal: Array

    @staticmethod
    def parameters_count():
        return 2

    def parametric_to_cartesian(self, param_coords):
        v = jnp.array([-self.u[1], self.u[0]])
        return self.o + param_coords[0] * self.u + param_coords[1] * v

    def cartesian_to_parametric(self, carte_coords):
        v = jnp.array([-self.u[1], self.u[0]])
        d = carte_coords - self.o
        return jnp.array([d @ self.u, d @ v])

    def contains_parametric(self, param_coords, approx=None, **kwargs):
        return logic.true_value(approx=approx)

    def intersects_cartesian(self, ray, patch=0.0, approx=None, **kwargs):
        return logic.false_value(approx=approx)

    def evaluate_cartesian(self, ray_path):
        d = ray_path[1] - self.goal
        return d @ d

    def bounding_box(self):
        return jnp.stack([self.o, self.o + 1.0])

    def plot(self, ax, *args, **kwargs):
        return []


def check_converge(c):
    th = 2 * np.pi * c["turn"] / 64
    u = np.array([np.cos(th), np.sin(th)], dtype=np.float32)
    v = np.array([-u[1], u[0]])
    o = f32(c["c"], E)
    goals = [o + t[0] / 64 * u + t[1] / 64 * v for t in (c["target"], c["second"])][: 1 + c["more"]]
    objs = [Spot(o=J(o), u=J(u), goal=J(np.float32(g))) for g in goals]
    tx, rx = f32(c["tx"], E), f32(c["rx"], E)
    if c["method"] == "fermat" and np.hypot(*(rx - tx)) < 0.5:
        rx = tx + np.array([0.5, -1.0], dtype=np.float32)
    cls = {"min": MinPath, "fermat": FermatPath}[c["method"]]
    p = cls.from_tx_objects_rx(J(tx), objs, J(rx), key=key(c["key"]), steps=300)
    pts = A(p.xys)
    if c["method"] == "min":
        ensure(np.abs(pts[1:-1] - np.array(goals)).max() < 0.02, "points %s, the errors vanish at %s", pts[1:-1].tolist(), [g.tolist() for g in goals])
        ensure(float(p.loss) < 1e-3, "loss %s at the points without error", float(p.loss))
    else:
        # Unbounded parameters of two objects in the plane: nothing prevents the straight line
        ensure(ref.length(pts) <= np.hypot(*(rx - tx)) + 0.05 * len(objs), "length %s, the straight line has %s", ref.length(pts), np.hypot(*(rx - tx)))
    return Res(True, (c["method"], f"n={len(goals)}"), 2)


# --- scenes -------------------------------------------------------------------------------------

SCENES = ["12W", "G0", "22", "OLV", "3", "1G1", "LL", "W2"]


@st.composite
def scene_case(draw, shard):
    mix = SCENES[shard % 8]
    return {
        "objs": [draw(thing(k)) for k in mix],
        "tx": [draw(point) for _ in range(1 + shard % 2)],
        "rx": [draw(point) for _ in range(1 + shard // 2 % 2)],
        "gain": [draw(st.integers(1, 64)) for _ in range(4)],
        "orders": [[0, 1], [0, 2], [1, 1], [0, 1], [1, 2], [0, 2], [0, 2], [2, 2]][shard % 8],
        "bend": draw(st.sampled_from([None, 0, 8, -16])),
        "extra": draw(st.sampled_from([None, 0, 1, 8])),
        "tol": draw(st.sampled_from([None, 4, 32])),
        "patch": draw(st.sampled_from([None, 8, -8])),
        "soft": draw(st.sampled_from([None, "hard", "sigmoid"])),
        "alpha": draw(st.sampled_from([1.0, 4.0, 30.0])),
        "only": draw(st.sampled_from([None, None, "blob", "wall"])),
        "key": draw(st.sampled_from([None, 3])),
        "grid": draw(st.sampled_from([None, "rx", "tx"])),
        "xy": [draw(point) for _ in range(2)],
    }


def fun(tx, rx, path, objects, k=1.0):
    out = path.length() + 2.0 * getattr(tx, "gain", -1.0) + 0.5 * getattr(rx, "gain", -1.0) + tx.xy[0] - rx.xy[1]
    for o in objects:
        out = out + k * o.center()[0]
    return out


def check_scene(c):
    objs, ros = [build(o) for o in c["objs"]], [Ref(o) for o in c["objs"]]
    g = [x / 64 for x in c["gain"]]
    txs = {f"t{i}": Antenna(xy=J(f32(p, E)), gain=J(np.float32(g[i]))) for i, p in enumerate(c["tx"])}
    rxs = {f"r{i}": Antenna(xy=J(f32(p, E)), gain=J(np.float32(g[2 + i]))) if i == 0 else Point(xy=J(f32(p, E))) for i, p in enumerate(c["rx"])}
    s = Scene(transmitters=txs, receivers=rxs, objects=objs)
    bend, extra, tol = (c["bend"] or 0) / 64, (c["extra"] or 0) / 64, 1e-2 if c["tol"] is None else c["tol"] / 64
    patch = (c["patch"] or 0) / 32
    L, kw = logic_of(c)
    pk = {k: c[k] / 64 for k in ("bend", "extra") if c[k] is not None}
    kw.update(path_cls=Bent, min_order=c["orders"][0], max_order=c["orders"][1])
    if pk:
        kw["path_cls_kwargs"] = pk
    if c["tol"] is not None:
        kw["tol"] = J(np.float32(tol))
    if c["patch"] is not None:
        kw["patch"] = J(np.float32(patch))
    kept = {None: None, "blob": {i for i, o in enumerate(ros) if o.kind.isdigit()}, "wall": {i for i, o in enumerate(ros) if o.kind in WALLS}}[c["only"]]
    if c["only"]:
        kw["filter_objects"] = {"blob": lambda o: isinstance(o, Blob), "wall": lambda o: isinstance(o, Wall)}[c["only"]]
    cands = [k for v in ref.candidates(len(ros), *c["orders"], kept).values() for k in v]
    if c["key"] is not None:
        kw["key"] = key(c["key"])

    def expect(tx, rx, cand, loss=None):
        pts = np.array([tx, *[ros[j].middle() + bend for j in cand], rx])
        lo = hi = extra + 0.001 * len(cand)
        if c["key"] is not None:
            lo, hi = (0.0, 1.01) if loss is None else (loss, loss)
        return pts, verdicts(L, ros, cand, pts, lo, hi, tol, patch, 8 * EPS)[2]

    def value(tx, rx, gt, gr, cand, pts):
        return 10 + ref.length(pts) + 2 * gt + 0.5 * gr + tx[0] - rx[1] + 1.5 * sum(ros[j].middle()[0] for j in cand)

    nodes = {k: (A(n.xy), float(getattr(n, "gain", -1.0))) for k, n in [*txs.items(), *rxs.items()]}
    n = 0
    if c["grid"] is None:
        got = list(s.all_paths(**kw))
        ensure(sorted((a, b, tuple(np.asarray(k).tolist())) for a, b, _, _, k in got) == sorted((a, b, k) for a in txs for b in rxs for k in cands), "entries %s", [(a, b, np.asarray(k).tolist()) for a, b, _, _, k in got])
        for a, b, valid, path, cand in got:
            cand = tuple(np.asarray(cand).tolist())
            pts, want = expect(nodes[a][0], nodes[b][0], cand, float(path.loss))
            ensure(type(path) is Bent, "the path is a %s", type(path))
            ensure(A(path.xys).shape == pts.shape and np.abs(A(path.xys) - pts).max() <= 8 * EPS * (1 + np.abs(pts).max()), "path %s, expected %s", A(path.xys).tolist(), pts.tolist())
            if c["key"] is None:
                ensure(abs(float(path.loss) - extra - 0.001 * len(cand)) < 1e-6, "loss %s", float(path.loss))
            else:
                ensure(0 < float(path.loss) - 0.001 * len(cand) < 1, "loss %s: the key was not given", float(path.loss))
            n += judge(valid, want, L, f"validity of {cand}", c)
        results = [((a, b), v) for a, b, v in s.accumulate_over_paths(fun, fun_kwargs={"k": 1.5}, **kw)]
        names = [(a, b) for a in txs for b in rxs]
        ensure([x for x, _ in results] == names, "pairs %s", results)
        again = {}
        for a, b, valid, path, cand in got:
            again.setdefault((a, b), []).append((tuple(np.asarray(cand).tolist()), float(path.loss)))
        cases = [(v, nodes[a], nodes[b], again.get((a, b), [])) for (a, b), v in results]
    else:
        xy = np.asarray(f32(c["xy"], E))
        f = s.accumulate_on_receivers_grid_over_paths if c["grid"] == "rx" else s.accumulate_on_transmitters_grid_over_paths
        side = {"rx": "receiver_cls", "tx": "transmitter_cls"}[c["grid"]]
        fixed = txs if c["grid"] == "rx" else rxs
        cases = []
        res = dict(f(J(xy[:, :1].T), J(xy[:, 1:].T), fun, fun_kwargs={"k": 1.5}, **{side: Antenna}, **kw))
        ensure(set(res) == set(fixed), "names %s", list(res))
        for name, Z in res.items():
            for i in range(2):
                moving = (xy[i].astype(np.float64), 7.0)
                ends = (nodes[name], moving) if c["grid"] == "rx" else (moving, nodes[name])
                cases.append((Z[0, i], *ends, [(k, None) for k in cands]))
    for got, (tx, gt), (rx, gr), entries in cases:
        low = high = 0.0
        for cand, loss in entries:
            pts, want = expect(tx, rx, cand, loss)
            a, b = L.bounds(want)
            v = value(tx, rx, gt, gr, cand, pts)
            e = 64 * EPS * (20 + abs(v))
            ends = [x * (v + y) for x in (a, b) for y in (-e, e)]
            low, high = low + min(ends), high + max(ends)
        m = 1e-4
        ensure(low - m <= float(got) <= high + m, "accumulated from %s to %s: %s, expected %s to %s (%s)", tx, rx, float(got), low, high, c)
        n += high - low < 1
    return Res(n > 0, (c["grid"] or "paths", c["soft"] or "exact", "key" if c["key"] else "no key"), n + len(cases))


# --- image method with walls that reflect in their own way -----------------------------------------


@st.composite
def mirror_case(draw, shard):
    k = 1 + shard % 3
    s = draw(gen.style("fine"))
    return {"walls": [draw(gen.segment(s, 0.2)) for _ in range(k)], "turn": [draw(st.integers(-2000, 2000)) for _ in range(k)], "tx": draw(gen.point(s)), "rx": draw(gen.point(s)), "e": gen.exp_of(s), "cls": ["tilted", "rough", "gate"][shard // 3 % 3]}


def check_mirror(c):
    e = c["e"]
    tx, rx = f32(c["tx"], e), f32(c["rx"], e)
    walls, ros = [], []
    for w, t in zip(c["walls"], c["turn"]):
        w = f32(w, e)
        w64 = w.astype(np.float64)
        if c["cls"] == "tilted":
            u = w64[1] - w64[0]
            u = u / np.hypot(*u)
            co, si = np.cos(t / 1000), np.sin(t / 1000)
            u = np.array([co * u[0] - si * u[1], si * u[0] + co * u[1]]).astype(np.float32)
            walls.append(Tilted(xys=J(w), u=J(u)))
            ros.append(("W", np.array([w64[0], w64[0] + u])))
        else:
            walls.append({"rough": Rough, "gate": Gate}[c["cls"]](xys=J(w)))
            ros.append(("W", w64))
    t = ref.Traced(tx, ros, rx)
    p = ImagePath.from_tx_objects_rx(J(tx), walls, J(rx))
    if not t.ok:
        return Res(False, ("ill-conditioned",), 0)
    off = np.abs(A(p.xys) - t.pts).max()
    ensure(off <= 2 * t.err, "path %s through %s walls, expected %s", A(p.xys).tolist(), c["cls"], t.pts.tolist())
    k = len(walls)
    lo, hi = t.loss_lo - 1e-5, t.loss_hi + 1e-5
    if c["cls"] == "rough":
        lo, hi = 3 * lo + 0.125 * k, 3 * hi + 0.125 * k
    ensure(lo <= float(p.loss) <= hi, "loss %s with %s walls, expected %s to %s", float(p.loss), c["cls"], lo, hi)
    return Res(True, (c["cls"], f"n={k}"), 2)


# --- what is inherited ---------------------------------------------------------------------------


@st.composite
def default_case(draw, shard):
    return {"obj": draw(thing("0123"[shard % 4])), "more": draw(thing("2W1G"[shard % 4])), "key": draw(gen.keys()), "mn": [1 + shard, 1 + shard // 2], "tx": draw(point), "loc": draw(st.sampled_from(["N", "E", "S", "W", "C", "NE", "NW", "SE", "SW"]))}


def check_default(c):
    o, r = build(c["obj"]), Ref(c["obj"])
    box = np.array([r.c - np.abs(r.a[:1]).sum() - 0.5, r.c + [0.25, 1.0]])
    tol = 32 * EPS
    ensure(np.abs(A(o.center()) - box.mean(0)).max() <= tol, "centre %s of %s", o.center(), box.tolist())
    x = {"W": box[0, 0], "E": box[1, 0]}.get(c["loc"][-1], box[:, 0].mean())
    y = {"S": box[0, 1], "N": box[1, 1]}.get(c["loc"][0], box[:, 1].mean())
    ensure(np.abs(A(o.get_location(c["loc"])) - [x, y]).max() <= tol, "%s of %s: %s", c["loc"], box.tolist(), o.get_location(c["loc"]))
    m, n = c["mn"]
    X, Y = o.grid(m, n)
    if m > 1 and n > 1:
        ensure(np.abs(A(X) - np.linspace(box[0, 0], box[1, 0], m)).max() <= 4 * tol and np.abs(A(Y).T - np.linspace(box[0, 1], box[1, 1], n)).max() <= 4 * tol, "grid of %s", box.tolist())
    ensure(X.shape == Y.shape == (n, m), "shapes %s and %s", X.shape, Y.shape)
    # A random point has as many random parameters as the object says
    p = A(o.sample(key(c["key"])))
    if r.k == 0:
        ensure(np.array_equal(p, r.c), "sample %s", p.tolist())
    else:
        low, high = r.c + np.minimum(r.m, 0).sum(0) - tol, r.c + np.maximum(r.m, 0).sum(0) + tol
        ensure(np.all(p >= low) and np.all(p <= high), "sample %s outside [%s, %s]", p.tolist(), low.tolist(), high.tolist())
        if r.k == 2 and abs(np.linalg.det(r.m)) > 0.05:
            th = np.linalg.solve(r.m.T, p - r.c)
            ensure(abs(th[0] - th[1]) > 1e-7, "both parameters of a sample are %s", th.tolist())
    # In a scene
    w, wr = build(c["more"]), Ref(c["more"])
    s = Scene(transmitters={"t": Antenna(xy=J(f32(c["tx"], E)))}, objects=[o]).add_objects(w)
    wbox = np.array([wr.xys.min(0), wr.xys.max(0)]) if hasattr(wr, "xys") else np.array([wr.c - np.abs(wr.a[:1]).sum() - 0.5, wr.c + [0.25, 1.0]])
    t = np.asarray(f32(c["tx"], E), dtype=np.float64)
    want = np.array([np.minimum(np.minimum(box[0], wbox[0]), t), np.maximum(np.maximum(box[1], wbox[1]), t)])
    ensure(np.abs(A(s.bounding_box()) - want).max() <= tol, "scene's box %s, expected %s", A(s.bounding_box()).tolist(), want.tolist())
    ensure(type(s.objects[0]) is type(o) and type(s.objects[1]) is type(w) and type(s.transmitters["t"]) is Antenna, "objects %s", s.objects)
    ensure(len(s.filter_objects(lambda q: isinstance(q, Blob)).objects) == 1 + (not hasattr(wr, "xys")), "filtered %s", c)
    fig, ax = plt.subplots()
    try:
        s.plot(ax, objects_kwargs={"color": "red"}, annotate=False)
        texts = [q.get_text() for q in ax.texts]
        count = 1 + (not hasattr(wr, "xys"))
        ensure(texts == ["blob () ['color']"] * count, "drawn %s", texts)
    finally:
        plt.close(fig)
    return Res(True, (f"parameters {r.k}",), 9)


ABSTRACT = [
    *[(Interactable, n) for n in ("parameters_count", "parametric_to_cartesian", "cartesian_to_parametric", "contains_parametric", "intersects_cartesian", "evaluate_cartesian")],
    *[(Plottable, n) for n in ("plot", "bounding_box")],
]


@st.composite
def abstract_case(draw):
    return {"missing": sorted(draw(st.sets(st.integers(0, len(ABSTRACT) - 1), max_size=3))), "module": draw(st.booleans())}


def check_abstract(c):
    names = [n for i, (_, n) in enumerate(ABSTRACT) if i not in c["missing"]]
    body = {n: (staticmethod(lambda: 2) if n == "parameters_count" else (lambda self, *a, **k: None)) for n in names}
    bases = (eqx.Module, Object) if c["module"] else (Object,)
    try:
        cls = type(eqx.Module if c["module"] else Object)("User", bases, body)
        cls()
        made = True
    except TypeError:
        made = False
    ensure(made == (not c["missing"]), "a class without %s %s", [ABSTRACT[i][1] for i in c["missing"]], "can be instantiated" if made else "cannot be instantiated")
    return Res(bool(c["missing"]), (f"missing {len(c['missing'])}",), 1)


assert inspect.isabstract(Object)

RULE = "some verdict was decided"
SUBS = [
    Sub("judging", lambda sh: judging_case(sh), check_judging, 1600, 32000, RULE, weight=2, shards=16),
    Sub("points", lambda sh: points_case(sh), check_points, 800, 16000, "some object is of a user's class", weight=2, shards=16),
    Sub("converge", lambda sh: converge_case(sh), check_converge, 160, 3200, "always", weight=4),
    Sub("scenes", lambda sh: scene_case(sh), check_scene, 480, 9600, RULE, weight=6),
    Sub("mirrors", lambda sh: mirror_case(sh), check_mirror, 900, 18000, "well conditioned", shards=9),
    Sub("inherited", lambda sh: default_case(sh), check_default, 240, 4800, "always", weight=4),
    Sub("abstract", abstract_case(), check_abstract, 100, 400, "some method is missing", shards=1),
]
