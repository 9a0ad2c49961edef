"""C28: with 64-bit numbers enabled, everything is kept and computed in 64 bits.

Coordinates are integers over 2**40, which 32 bits cannot hold; results are judged
to about twelve digits.
"""

import itertools
import json

import jax
import jax.numpy as jnp
import numpy as np
import optax
from hypothesis import strategies as st

from differt2d import logic
from differt2d.geometry import RIS, FermatPath, ImagePath, MinPath, Path, Point, Ray, Vertex, Wall, closest_point, normalize, path_length, segments_intersect
from differt2d.optimize import minimize, minimize_many_random_uniform, minimize_random_uniform
from differt2d.scene import Scene
from differt2d.utils import received_power

from . import funs, gen, ref
from .core import Res, Sub, ensure

EPS = float(np.finfo(np.float64).eps)
ref.EPS = 8 * EPS
ref.SLACK = 1e-12

ONE = 1 << 40
# Hypothesis draws from ranges of up to 24 bits about uniformly
number = st.tuples(st.integers(-(1 << 20), (1 << 20) - 1), st.integers(0, (1 << 20) - 1)).map(lambda t: (t[0] << 20) + t[1])
point = st.tuples(number, number).map(list)
positive = number.map(abs)


def D(v):
    a = np.asarray(v, dtype=np.float64) / ONE
    return a


def J(a):
    out = jnp.asarray(np.asarray(a, dtype=np.float64))
    assert out.dtype == jnp.float64
    return out


def is64(x, what):
    ensure(getattr(x, "dtype", None) == np.float64, "%s holds %s numbers although 64-bit numbers are enabled", what, getattr(x, "dtype", type(x)))
    return np.asarray(x, dtype=np.float64)


def same(got, want, err, what):
    got = is64(got, what)
    want = np.asarray(want, dtype=np.float64)
    ensure(got.shape == want.shape, "%s has shape %s, not %s", what, got.shape, want.shape)
    off = np.abs(got - want)
    ensure(np.all(off <= err), "%s: got %s, expected %s within %s (off by %s)", what, got.tolist(), want.tolist(), err, float(np.max(off, initial=0.0)))


def cut(xys):
    """Some of the numbers cannot be held in 32 bits."""
    a = np.asarray(xys, dtype=np.float64)
    return bool(np.any(a.astype(np.float32).astype(np.float64) != a))


# --- geometry ---------------------------------------------------------------------


@st.composite
def geometry_case(draw, shard):
    w = [draw(point), draw(point)]
    if w[0] == w[1]:
        w[1] = [w[0][0] + ONE // 3, w[0][1] + 12345]
    return {"wall": w, "p": draw(point), "s": draw(number), "phi": draw(number), "tri": [draw(point) for _ in range(3)], "pts": [draw(point) for _ in range(1 + shard % 4)], "ris": draw(st.booleans()), "mn": [2 + shard % 3, 1 + shard], "r": draw(positive), "h": draw(positive)}


def check_geometry(c):
    w, p, s, phi = D(c["wall"]), D(c["p"]), float(D(c["s"])), 3.0 * float(D(c["phi"]))
    tri, pts = D(c["tri"]), D(c["pts"])
    o = RIS(xys=J(w), phi=J(phi)) if c["ris"] else Wall(xys=J(w))
    t = w[1] - w[0]
    n = float(np.hypot(*t))
    amp = 1.0 + 4.0 / n
    if n < 1e-3:
        return Res(False, ("short",), 0)
    e = 32 * EPS
    same(o.xys, w, 0.0, "coordinates")
    same(o.origin(), w[0], 0.0, "origin")
    same(o.dest(), w[1], 0.0, "destination")
    same(o.t(), t, 2 * EPS, "direction")
    same(o.normal(), ref.normal(w), e * amp, "normal")
    same(o.image_of(J(p)), ref.image(w, p), e * amp, "mirror image")
    same(o.parametric_to_cartesian(J([s])), w[0] + s * t, e, "point at a parameter")
    same(o.cartesian_to_parametric(J(p)), [ref.param(w, p)], e * amp * amp, "parameter of a point")
    for a, b in zip(o.get_vertices(), w):
        same(a.xy, b, 0.0, "end vertex")
    box = np.array([w.min(0), w.max(0)])
    same(o.bounding_box(), box, 0.0, "bounding box")
    same(o.center(), box.mean(0), 2 * EPS, "centre")
    same(o.get_location("N"), [box[:, 0].mean(), box[1, 1]], 2 * EPS, "north")
    m, k = c["mn"]
    X, Y = o.grid(m, k)
    xs = np.linspace(box[0, 0], box[1, 0], m)
    same(X, np.tile(xs, (k, 1)), 8 * EPS, "grid X")
    if k > 1:
        same(Y, np.tile(np.linspace(box[0, 1], box[1, 1], k)[:, None], (1, m)), 8 * EPS, "grid Y")
    else:
        is64(Y, "grid Y")
    # Interaction error
    d1, d2 = (np.hypot(*v) for v in np.diff(tri, axis=0))
    if min(d1, d2) > 1e-3:
        want = ref.ris_error(w, phi, tri) if c["ris"] else ref.wall_error(w, tri)
        same(o.evaluate_cartesian(J(tri)), want, 256 * EPS * (amp + 4 / d1 + 4 / d2), "interaction error")
    is64(Vertex(xy=J(p)).evaluate_cartesian(J(tri)), "interaction error of a vertex")
    same(Vertex(xy=J(p)).parametric_to_cartesian(J(np.zeros(0))), p, 0.0, "vertex")
    same(Point(xy=J(p)).bounding_box(), [p, p], 0.0, "point's box")
    # Turning by half a turn is unambiguous (see the findings about other angles)
    same(Ray(xys=J(w)).rotate(J(np.pi), around=J(p)).xys, 2 * p - w, 32 * EPS, "turned ray")
    # Lengths
    line = np.concatenate([tri, pts])
    L = ref.length(line)
    same(path_length(J(line)), L, 64 * EPS * (1 + L), "length")
    same(Path(xys=J(line)).length(), L, 64 * EPS * (1 + L), "path's length")
    same(Path(xys=J(line)).bounding_box(), [line.min(0), line.max(0)], 0.0, "path's box")
    u, l = normalize(J(t))
    same(u, t / n, 8 * EPS, "unit vector")
    same(l, n, 8 * EPS * n, "norm")
    i, d = closest_point(J(pts), J(p))
    dd = np.hypot(*(pts - p).T)
    ensure(dd[int(i)] <= dd.min() + 8 * EPS, "nearest of %s to %s: %s", pts.tolist(), p.tolist(), int(i))
    same(d, dd.min(), 8 * EPS, "distance")
    r, h = float(D(c["r"])), 0.05 + float(D(c["h"]))
    for kw, rr, hh in ((dict(r_coef=J(r), height=J(h)), r, h), (dict(r_coef=r, height=h), r, h), (dict(), 0.5, 0.1)):
        want = rr ** (len(line) - 2) / (hh * hh + L * L)
        same(received_power(Point(xy=J(line[0])), Point(xy=J(line[-1])), Path(xys=J(line)), [], **kw), want, 64 * EPS * (len(line) + 1) * want + 1e-300, f"power with {sorted(kw)}")
    return Res(cut(w) and cut(p), (c["ris"] and "surface" or "wall",), 30)


# --- verdicts a millionth of a millionth away from a bound --------------------------


@st.composite
def near_case(draw, shard):
    side = draw(st.sampled_from(["lo", "hi"]))
    return {
        "what": ["segments", "contains", "valid", "nearest", "patch", "logic"][shard % 6],
        "a": [draw(point), draw(point)],
        "u": draw(number),
        "v": draw(positive),
        "d": draw(point),
        "side": side,
        "swap": draw(st.booleans()),
        "exp": draw(st.integers(8, 12)),
        "sign": draw(st.sampled_from([-1, 1])),
        "tol": draw(positive),
    }


def check_near(c):
    a = D(c["a"])
    if np.hypot(*(a[1] - a[0])) < 0.05:
        a[1] = a[0] + [0.71, 0.413]
    t = a[1] - a[0]
    d = D(c["d"])
    if abs(ref.cross(ref.unit(t), d)) < 0.05:
        d = np.array([-t[1], t[0]]) + 0.1 * t
    delta = c["sign"] * 10.0 ** -c["exp"]
    what = c["what"]
    want = None
    if what in ("segments", "patch"):
        tol = ref.SEG_TOL if what == "patch" else 0.3 * float(D(c["tol"]))
        patch = 0.4 * float(D(c["u"])) if what == "patch" else 0.0
        reach = tol * (1 + 2 * patch) + patch
        s = (1 + reach if c["side"] == "hi" else -reach) + delta
        x = a[0] + s * t
        v = 0.1 + 0.8 * float(D(c["v"]))
        p, q = x - v * d, x + (1 - v) * d
        outward = (delta > 0) == (c["side"] == "hi")
        want = ref.wall_crossed(a, p, q, patch) if what == "patch" else ref.segments_cross(*((p, q, *a) if c["swap"] else (*a, p, q)), tol=tol)
        if want is None:
            return Res(False, ("undecided",), 0)
        ensure(want == (not outward), "harness: %s %s", want, c)
        if what == "patch":
            got = Wall(xys=J(a)).intersects_cartesian(J([p, q]), patch=J(patch), approx=False)
        else:
            args = (p, q, *a) if c["swap"] else (*a, p, q)
            got = segments_intersect(*map(J, args), tol=J(tol), approx=False)
    elif what == "contains":
        s = (1.0 if c["side"] == "hi" else 0.0) + delta
        want = 0.0 <= s <= 1.0
        got = Wall(xys=J(a)).contains_parametric(J([s]), approx=False)
    elif what == "valid":
        tol = 0.01 + float(D(c["tol"]))
        x = a[0] + (0.1 + 0.8 * float(D(c["v"]))) * t
        path = Path(xys=J([x - d, x, x + d + 0.3 * t]), loss=J(tol + delta))
        want = tol + delta < tol
        w = Wall(xys=J(a))
        got = path.is_valid([w], jnp.array([0]), [w], tol=J(tol), approx=False)
    elif what == "nearest":
        x = D(c["d"])
        r = 0.1 + float(D(c["v"]))
        far, close = x + r * (1 + abs(delta)) * ref.unit(t), x - r * ref.unit([t[1], -t[0]])
        pts = [close, far] if c["swap"] else [far, close]
        i, dist = closest_point(J(pts), J(x))
        s = Scene(transmitters={"a": Point(xy=J(pts[0])), "b": Point(xy=J(pts[1]))})
        name, dist2 = s.get_closest_transmitter(J(x))
        ensure(int(i) == (0 if c["swap"] else 1) and name == "ab"[int(i)], "nearest to %s of %s: %s and %s", x.tolist(), np.array(pts).tolist(), int(i), name)
        same(dist, r, 16 * EPS, "distance")
        same(dist2, r, 16 * EPS, "distance to a node")
        want = got = True
    else:
        x = float(D(c["u"]))
        y = x + delta
        got = [bool(logic.greater(J(x), J(y), approx=False)), bool(logic.less(J(x), J(y), approx=False)), bool(logic.greater_equal(J(x), J(y), approx=False)), bool(logic.less_equal(J(x), J(y), approx=False))]
        want = [x > y, x < y, x >= y, x <= y]
        alpha = 0.5 + 20 * float(D(c["v"]))
        for fname, f in (("hard", logic.hard_sigmoid), ("sigmoid", logic.sigmoid)):
            act = ref.ACTS[fname]
            same(f(J(x), J(alpha)), act(x, alpha), 64 * EPS, fname)
            same(logic.activation(J(x), J(alpha), function=f), act(x, alpha), 64 * EPS, "activation")
            same(logic.greater(J(x), J(a[0, 0]), approx=True, alpha=J(alpha), function=f), act(x - a[0, 0], alpha), 64 * EPS, "greater")
            same(logic.less_equal(J(x), J(a[1, 1]), approx=True, alpha=J(alpha), function=f), act(a[1, 1] - x, alpha), 64 * EPS, "less_equal")
        y = abs(x)
        tol = 0.001 + 0.9 * float(D(c["tol"]))
        got += [bool(logic.is_true(J(1 - tol - delta), tol=J(tol), approx=True)), bool(logic.is_false(J(tol + delta), tol=J(tol), approx=True))]
        want += [1 - tol - delta > 1 - tol, tol + delta < tol]
        same(logic.logical_not(J(y), approx=True), 1 - y, EPS, "negation")
        same(logic.logical_all(J(y), J(x), approx=True), min(x, y), 0.0, "all")
        same(logic.logical_any(J(y), J(x), approx=True), max(x, y), 0.0, "any")
        same(logic.logical_or(J(y), J(x), approx=True), max(x, y), 0.0, "or")
        same(logic.logical_and(J(y), J(x), approx=True), min(x, y), 0.0, "and")
        same(logic.true_value(approx=True), 1.0, 0.0, "true")
        same(logic.false_value(approx=True), 0.0, 0.0, "false")
        ensure(got == want, "%s beyond the bound by %s: got %s, expected %s (%s)", what, delta, got, want, c)
        return Res(True, (what,), 20)
    ensure(bool(got) == bool(want), "%s, %s beyond the bound: got %s, expected %s (%s)", what, delta, bool(got), want, c)
    return Res(True, (what, str(bool(want))), 1)


# --- paths --------------------------------------------------------------------------

KINDS = ["W", "WW", "WWW", "R", "WV", "V", "VW", "WR"]


@st.composite
def path_case(draw, shard):
    k = KINDS[shard % 8]
    os = [["V", draw(point)] if x == "V" else [x, [draw(point), draw(point)]] + ([draw(number)] if x == "R" else []) for x in k]
    classes = ["fermat", "min"] + (["image", "image", "image", "image"] if set(k) == {"W"} else [])
    return {"os": os, "tx": draw(point), "rx": draw(point), "cls": draw(st.sampled_from(classes)), "key": draw(gen.keys()), "steps": [3, 60][shard // 8 % 2]}


def build(os):
    lib, ro = [], []
    for o in os:
        x = D(o[1])
        if o[0] != "V" and np.hypot(*(x[1] - x[0])) < 0.05:
            x[1] = x[0] + [0.3, -0.711]
        ro.append((o[0], x, *[3.0 * float(D(v)) for v in o[2:]]))
        lib.append({"V": lambda: Vertex(xy=J(x)), "W": lambda: Wall(xys=J(x)), "R": lambda: RIS(xys=J(x), phi=J(ro[-1][2]))}[o[0]]())
    return lib, ro


def check_path(c):
    lib, ro = build(c["os"])
    tx, rx = D(c["tx"]), D(c["rx"])
    cls = {"image": ImagePath, "fermat": FermatPath, "min": MinPath}[c["cls"]]
    kw = {} if c["cls"] == "image" else {"key": jax.random.PRNGKey(c["key"]), "steps": c["steps"]}
    p = cls.from_tx_objects_rx(J(tx), lib, J(rx), **kw)
    pts, loss = is64(p.xys, "path"), is64(p.loss, "loss")
    ensure(pts.shape == (len(lib) + 2, 2) and np.array_equal(pts[0], tx) and np.array_equal(pts[-1], rx), "ends of %s, not %s and %s", pts.tolist(), tx.tolist(), rx.tolist())
    if c["cls"] == "image":
        t = ref.Traced(tx, ro, rx)
        if not t.ok or t.err > 1e-6:
            return Res(False, ("ill-conditioned",), 0)
        same(p.xys, t.pts, t.err, "image path")
        ensure(t.loss_lo - 1e-12 <= float(loss) <= t.loss_hi + 1e-12, "loss %s, expected in [%s, %s]", float(loss), t.loss_lo, t.loss_hi)
    else:
        big = 1 + np.abs(pts).max()
        for o, x in zip(ro, pts[1:-1]):
            if o[0] == "V":
                ensure(np.array_equal(x, o[1]), "vertex %s, path at %s", o[1].tolist(), x.tolist())
            else:
                off = abs(np.dot(x - o[1][0], ref.normal(o[1])))
                ensure(off <= 64 * EPS * big * (1 + 1 / np.hypot(*(o[1][1] - o[1][0]))), "path point %s is %s away from the line of %s", x.tolist(), off, o[1].tolist())
        legs = np.hypot(*np.diff(pts, axis=0).T)
        if legs.min() > 1e-3:
            want = ref.path_loss(ro, pts)
            same(p.loss, want, 1e-10 * (1 + want), "loss of a minimised path")
    same(p.length(), ref.length(pts), 1e-12 * (1 + ref.length(pts)), "length")
    return Res(cut(tx), (c["cls"],), 5)


# --- scenes -------------------------------------------------------------------------


@st.composite
def scene_case(draw, shard):
    n = [1, 2, 3, 4, 2, 3, 5, 3][shard % 8]
    return {
        "walls": [[draw(point), draw(point)] for _ in range(n)],
        "tx": [draw(point) for _ in range(1 + shard % 2)],
        "rx": [draw(point) for _ in range(1 + shard // 2 % 2)],
        "orders": [[0, 2], [0, 2], [0, 1], [1, 1], [0, 3], [2, 2], [0, 1], [0, 1]][shard % 8],
        "soft": draw(st.booleans()) if shard % 4 != 1 else True,
        "co": [draw(st.sampled_from([0.0, 1.0, -0.5, 2.0])) for _ in range(6)],
        "alpha": draw(positive),
        "tol": draw(positive),
        "patch": draw(number),
        "grid": [draw(point) for _ in range(3)] if shard % 2 else None,
        "side": draw(st.sampled_from(["rx", "tx"])),
    }


def check_scene(c):
    lib, ro = build([["W", w] for w in c["walls"]])
    txs = {f"t{i}": D(p) for i, p in enumerate(c["tx"])}
    rxs = {f"r{i}": D(p) for i, p in enumerate(c["rx"])}
    s = Scene(transmitters={k: Point(xy=J(v)) for k, v in txs.items()}, receivers={k: Point(xy=J(v)) for k, v in rxs.items()}, objects=lib)
    tol, patch, alpha = 0.01 + float(D(c["tol"])), 0.2 * float(D(c["patch"])), 1 + 50 * float(D(c["alpha"]))
    co = [*c["co"], 0.0]
    if not any(co):
        co[1] = 1.0
    lo, hi = c["orders"]
    fun = funs.make(co)
    off = float(D(c["tol"])) - 0.3
    kw = dict(fun_kwargs={"off": J(off)}, min_order=lo, max_order=hi, approx=c["soft"], tol=J(tol), patch=J(patch))
    if c["soft"]:
        kw["alpha"] = J(alpha)
    soft = ref.Soft("hard", alpha)
    cands = [k for v in ref.candidates(len(ro), lo, hi).values() for k in sorted(v)]

    def total(tx, rx):
        """Lowest and highest value, as rounding allows."""
        low = high = 0.0
        for cand in cands:
            inter = [ro[j] for j in cand]
            t = ref.Traced(tx, inter, rx)
            if not t.ok or t.err > 1e-7:
                return None
            val = funs.expected(co, tx, rx, t.pts, inter, (), {"off": off})
            e = 40 * (t.err + 1e-14) * (1 + abs(val)) + 1e-13
            if c["soft"]:
                a, b = soft.valid(t, ro, inter, cand, tol, patch)
            else:
                v = t.valid(ro, inter, cand, tol, patch)
                a, b = {True: (1.0, 1.0), False: (0.0, 0.0), None: (0.0, 1.0)}[v]
            if b - a > 1e-7:
                return None
            ends = [x * (val + y) for x in (a, b) for y in (-e, e)]
            low, high = low + min(ends), high + max(ends)
        return low - 1e-12, high + 1e-12

    judged = 0

    def judge(got, tx, rx, what):
        nonlocal judged
        b = total(tx, rx)
        if b is None:
            return
        judged += 1
        ensure(b[0] <= got <= b[1], "%s from %s to %s: got %s, expected %s to %s", what, tx.tolist(), rx.tolist(), got, *b)

    if c["grid"] is None:
        names = list(itertools.product(txs, rxs))
        got = list(s.accumulate_over_paths(fun, **kw))
        ensure([x[:2] for x in got] == names, "pairs %s", [x[:2] for x in got])
        for a, b, v in got:
            judge(float(is64(v, "accumulated value")), txs[a], rxs[b], "value")
    else:
        g = D(c["grid"])
        X, Y = g[:, 0].reshape(1, 3), g[:, 1].reshape(1, 3)
        f = s.accumulate_on_receivers_grid_over_paths if c["side"] == "rx" else s.accumulate_on_transmitters_grid_over_paths
        for name, Z in f(J(X), J(Y), fun, **kw):
            Z = is64(Z, "accumulated grid")
            for k in range(3):
                args = (txs[name], g[k]) if c["side"] == "rx" else (g[k], rxs[name])
                judge(float(Z[0, k]), *args, f"{c['side']} grid value")
    for a, b, valid, path, cand in itertools.islice(s.all_paths(min_order=lo, max_order=hi, approx=c["soft"]), 6):
        is64(path.xys, "traced path")
        if c["soft"]:
            is64(valid, "approximate validity")
    return Res(judged > 0, ("soft" if c["soft"] else "exact", "judged" if judged else "undecided"), judged)


# --- where coordinates come from -----------------------------------------------------


@st.composite
def source_case(draw, shard):
    return {
        "what": ["document", "named", "random", "box", "document", "named", "random", "arrays"][shard % 8],
        "pts": [draw(point) for _ in range(3 + shard % 3)],
        "r": draw(positive),
        "key": draw(gen.keys()),
        "name": draw(st.sampled_from(["basic_scene", "square_scene", "square_scene_with_wall", "square_scene_with_obstacle"])),
        "loc": draw(st.sampled_from(["N", "E", "S", "W", "C", "NE", "NW", "SE", "SW"])),
        "default": draw(st.booleans()),
        "jax": draw(st.booleans()),
    }


def location(lo, hi, loc):
    x = {"W": lo[0], "E": hi[0]}.get(loc[-1], 0.5 * (lo[0] + hi[0]))
    y = {"S": lo[1], "N": hi[1]}.get(loc[0], 0.5 * (lo[1] + hi[1]))
    return [x, y]


def check_source(c):
    pts, r = D(c["pts"]), float(D(c["r"]))
    what = c["what"]
    if what == "document":
        doc = {"type": "FeatureCollection", "features": [{"type": "Feature", "properties": {}, "geometry": {"type": "Polygon", "coordinates": [pts.tolist()]}}]}
        s = Scene.from_geojson(json.dumps(doc), tx_loc=c["loc"], rx_loc="C")
        got = [is64(w.xys, "wall of a document") for w in s.objects]
        want = [np.array([pts[i - 1], pts[i]]) for i in range(len(pts))]
        ensure(len(got) == len(want) and all(np.array_equal(a, b) for a, b in zip(got, want)), "walls %s for the ring %s", [g.tolist() for g in got], pts.tolist())
        same(s.transmitters["tx"].xy, location(pts.min(0), pts.max(0), c["loc"]), 2 * EPS, "transmitter of a document")
        same(s.receivers["rx"].xy, 0.5 * (pts.min(0) + pts.max(0)), 2 * EPS, "receiver of a document")
        return Res(cut(pts), (what,), 3)
    if what == "named":
        kw = {} if c["default"] else {"tx_coords": J(pts[0]) if c["jax"] else pts[0].tolist(), "rx_coords": J(pts[1])}
        args = (r,) if c["name"].endswith(("wall", "obstacle")) else ()
        s = Scene.from_scene_name(c["name"], *args, **kw)
        for o in s.objects:
            is64(o.xys, f"wall of {c['name']}")
        for n in (s.transmitters["tx"], s.receivers["rx"]):
            is64(n.xy, f"node of {c['name']}")
        if kw:
            same(s.transmitters["tx"].xy, pts[0], 0.0, "transmitter")
            same(s.receivers["rx"].xy, pts[1], 0.0, "receiver")
        else:
            t, x = {"basic_scene": ([0.1, 0.1], [0.302, 0.2147]), "square_scene": ([0.2, 0.2], [0.5, 0.6]), "square_scene_with_wall": ([0.2, 0.5], [0.8, 0.5]), "square_scene_with_obstacle": ([0.2, 0.2], [0.5, 0.6])}[c["name"]]
            same(s.transmitters["tx"].xy, t, EPS, "default transmitter")
            same(s.receivers["rx"].xy, x, EPS, "default receiver")
        ws = np.array([w.xys for w in s.objects])
        if c["name"] == "square_scene_with_wall":
            same(s.objects[-1].xys, [[0.5, 0.5 * (1 - r)], [0.5, 0.5 * (1 + r)]], 2 * EPS, "middle wall")
        if c["name"] == "square_scene_with_obstacle":
            same(jnp.asarray(np.sort(np.unique(np.round(ws[4:], 14)))), np.sort(np.unique(np.round([0.5 - r / 2, 0.5 + r / 2], 14))), 1e-12, "obstacle")
        if c["name"] == "basic_scene":
            ensure(np.array_equal(ws[4:], [[[0.4, 0.0], [0.4, 0.4]], [[0.4, 0.4], [0.3, 0.4]], [[0.1, 0.4], [0.0, 0.4]]]), "inner walls %s", ws[4:].tolist())
        return Res(True, (what, c["name"]), 6)
    if what == "random":
        key = jax.random.PRNGKey(c["key"])
        s = Scene.random_uniform_scene(2, 3, 2, key=key)
        w = Wall(xys=J(pts[:2]))
        starts = []

        def spy(x):
            jax.debug.callback(lambda v: starts.append(np.array(v)), x)
            return jnp.sum(x * x)

        minimize_random_uniform(spy, key, 3, steps=0)
        jax.effects_barrier()
        drawn = {"nodes": np.array([n.xy for n in [*s.transmitters.values(), *s.receivers.values()]]), "walls": np.array([o.xys for o in s.objects]), "starts": np.array(starts)}
        for k, v in drawn.items():
            is64(v, k)
            # A 64-bit draw has 52 random bits
            ensure(np.mean(v.astype(np.float32).astype(np.float64) == v) < 0.5, "random %s have 32-bit values only: %s", k, v.tolist())
        x = is64(w.sample(key), "sample")
        par = np.asarray(w.cartesian_to_parametric(J(x)))
        if np.hypot(*(pts[1] - pts[0])) > 1e-2:
            ensure(-1e-9 <= par[0] <= 1 + 1e-9 and abs(np.dot(x - pts[0], ref.normal(pts[:2]))) < 1e-13, "sample %s on %s", x.tolist(), pts[:2].tolist())
        return Res(True, (what,), 4)
    if what == "arrays":
        walls = np.stack([pts[:2], pts[1:3]])
        s = Scene.from_walls_array(J(walls))
        for o, w in zip(s.objects, walls):
            same(o.xys, w, 0.0, "wall of an array")
        same(s.stacked_objects().xys, walls, 0.0, "stacked walls")
        back = Scene.from_stacked_objects(s.stacked_objects())
        same(back.get_object(1).xys, walls[1], 0.0, "wall by index")
        return Res(cut(walls), (what,), 4)
    s = Scene(transmitters={"t": Point(xy=J(pts[0]))}, receivers={"r": Point(xy=J(pts[1]))}, objects=[Vertex(xy=J(p)) for p in pts[2:]])
    lo, hi = pts.min(0), pts.max(0)
    same(s.bounding_box(), [lo, hi], 0.0, "scene's box")
    same(s.center(), 0.5 * (lo + hi), 2 * EPS, "scene's centre")
    same(s.get_location(c["loc"]), location(lo, hi, c["loc"]), 2 * EPS, c["loc"])
    X, Y = s.grid(3, 4)
    same(X, np.tile(np.linspace(lo[0], hi[0], 3), (4, 1)), 8 * EPS, "scene's grid X")
    same(Y, np.tile(np.linspace(lo[1], hi[1], 4)[:, None], (1, 3)), 8 * EPS, "scene's grid Y")
    return Res(cut(pts), (what,), 5)


# --- minimisers -------------------------------------------------------------------------


@st.composite
def minimise_case(draw, shard):
    return {"x0": [draw(number) for _ in range(1 + shard % 3)], "a": [draw(number) for _ in range(3)], "lr": [0.1, 0.3, 0.05][shard // 3 % 3], "steps": [0, 1, 7, 40][shard % 4], "adam": bool(shard % 2), "key": draw(gen.keys()), "many": [1, 2, 5][shard % 3]}


def check_minimise(c):
    x0, a = D(c["x0"]), D(c["a"])
    n = len(x0)
    k = np.arange(1, n + 1) * 0.31
    aj, kj = J(a[:n]), J(k)

    def f(x, shift):
        return jnp.sum(kj * (x - aj - shift) ** 2)

    x, y = x0.copy(), None
    m, v = np.zeros(n), np.zeros(n)
    shift = float(a[2])
    for i in range(c["steps"]):
        g = 2 * k * (x - a[:n] - shift)
        if c["adam"]:
            m, v = 0.9 * m + 0.1 * g, 0.999 * v + 0.001 * g * g
            x = x - c["lr"] * (m / (1 - 0.9 ** (i + 1))) / (np.sqrt(v / (1 - 0.999 ** (i + 1))) + 1e-8)
        else:
            x = x - c["lr"] * g
    opt = optax.adam(c["lr"]) if c["adam"] else optax.sgd(c["lr"])
    gx, gy = minimize(f, J(x0), args=(J(shift),), steps=c["steps"], optimizer=opt)
    same(gx, x, 1e-9, "minimiser")
    same(gy, np.sum(k * (x - a[:n] - shift) ** 2), 1e-8, "minimum")
    mx, my = minimize_many_random_uniform(lambda x: f(x, J(shift)), jax.random.PRNGKey(c["key"]), n, many=c["many"], steps=c["steps"])
    mx = is64(mx, "best minimiser")
    same(my, np.sum(k * (mx - a[:n] - shift) ** 2), 1e-12 * 10, "best minimum")
    return Res(c["steps"] > 0, ("adam" if c["adam"] else "sgd",), 3)


RULE = "some coordinate needs more than 32 bits"
SUBS = [
    Sub("geometry", lambda sh: geometry_case(sh), check_geometry, 800, 16000, RULE, weight=3),
    Sub("near", lambda sh: near_case(sh), check_near, 2400, 48000, "decided", shards=12),
    Sub("paths", lambda sh: path_case(sh), check_path, 2400, 48000, RULE, weight=2, shards=16),
    Sub("scenes", lambda sh: scene_case(sh), check_scene, 480, 9600, "a value was judged", weight=8),
    Sub("sources", lambda sh: source_case(sh), check_source, 800, 16000, RULE, weight=2),
    Sub("minimise", lambda sh: minimise_case(sh), check_minimise, 240, 2400, "some step is made", weight=5, shards=12),
]
