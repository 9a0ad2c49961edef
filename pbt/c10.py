"""C10: grid accumulation equals moving the node point by point."""

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import Point

from . import c09, funs, gen, ref, scenes
from .core import Res, Sub, ensure
from .lib import J, f32

PATTERNS = [["WWWW"], ["WW", ""], ["WWW"], ["WWWWW"], ["WVV", "W"], ["WVW", "VV"], ["RR", "WWWW"], ["WWWW"]]


# Few shapes per worker, as each one is compiled separately
SHAPES = [[(2, 3), (9, 7), (20, 13)], [(1, 4), (1, 1)], [(3, 2)], [(2, 2)], [(3, 1), (1, 3)], [(1, 2)], [(2, 3)], [(4, 1)]]


class Antenna(Point):
    """A user's own kind of node."""

    def tag(self):
        return 1.0


@st.composite
def grids(draw, s, shapes):
    m, n = draw(st.sampled_from(shapes))
    if m * n > 12 or draw(st.booleans()):
        xs = draw(st.lists(gen.coord(s), min_size=n, max_size=n))
        ys = draw(st.lists(gen.coord(s), min_size=m, max_size=m))
        X = [[xs[j] for j in range(n)] for _ in range(m)]
        Y = [[ys[i] for _ in range(n)] for i in range(m)]
    else:
        X = [[draw(gen.coord(s)) for _ in range(n)] for _ in range(m)]
        Y = [[draw(gen.coord(s)) for _ in range(n)] for _ in range(m)]
    return {"X": X, "Y": Y}


@st.composite
def grid_options(draw, pat):
    o = draw(c09.options(pat, ((0, 1), (0, 1), (0, 2), (1, 2), (0, 0), (2, 1), (1, 1))))
    if o["cls"] in ("fermat", "min"):
        # The outcome depends on the random key unless only vertices are met
        if "V" in pat:
            o["filter"] = "V"
        else:
            o["cls"] = "path"
            o["key"] = None
    return o


def cases(shard):
    @st.composite
    def case(draw):
        pat = draw(st.sampled_from(PATTERNS[shard % 8]))
        s = draw(gen.style("unit", "unit", "fine"))
        c = {"e": gen.exp_of(s), "objs": c09.objects(draw, pat, s), "opts": draw(grid_options(pat)), "fun": draw(c09.fun_spec())}
        c["side"] = draw(st.sampled_from(["tx", "rx"]))
        c["tx"] = draw(scenes.nodes(s, 0, 2))
        c["rx"] = draw(scenes.nodes(s, 0, 2))
        c["grid"] = draw(grids(s, SHAPES[shard % 8]))
        c["cls"] = draw(st.booleans())
        return c

    return case()


def soft_of(o):
    if not o["approx"]:
        return None
    return ref.Soft(o["sigmoid"] or "hard", o["alpha"] or 100.0)


def wobble(o, soft, ro, cands, tx, rx, fmax):
    """How much the accumulated value may depend on rounding; None if on a verdict."""
    out = 0.0
    tol, patch = o["tol"] or 0.01, o["patch"] or 0.0
    for cd in cands:
        inter = [ro[j] for j in cd]
        if any(k[0] == "V" for k in inter) or o["cls"] != "image":
            pts = np.array([tx, *[k[1] if k[0] == "V" else k[1].mean(axis=0) for k in inter], rx])
            err = 2 * ref.EPS * np.abs(pts).max()
            if not len(inter):
                err = 0.0
            if soft is None:
                v = ref.t_and(ref.on_objects(pts, inter, err), ref.t_not(ref.obstructed(pts, ro, cd, patch, err)))
                if v is None:
                    return None
                out += 1e-5 * fmax if v else 0.0
            else:
                lo, hi = soft.land(soft.on(pts, inter, err), soft.lnot(soft.obstructed(pts, ro, cd, patch, err)))
                out += (max(0.0, hi - lo) + 1e-5) * fmax
            continue
        t = ref.Traced(tx, inter, rx)
        if soft is None:
            v = t.valid(ro, inter, cd, tol, patch)
            if v is None:
                return None
            out += (1e-5 + 100 * t.err) * fmax if v else 0.0
        else:
            lo, hi = soft.valid(t, ro, inter, cd, tol, patch)
            if not t.ok:
                if hi > 0:
                    return None
                continue
            big = 1.0 + np.abs(t.pts).max()
            out += (max(0.0, min(1.0, hi) - max(0.0, lo)) + 1e-5 + 100 * t.err) * fmax * big
    return out


def fmax_of(c, scale):
    f = c["fun"]
    co = sum(abs(x) for x in f["co"])
    k = f["kwargs"] or {}
    return (co * (6 + 30 * scale) + 10) * abs(k.get("mul", 1.0)) + 5


def candidates_of(c, ro):
    kw, lo, hi, kept = c09.kwargs_of(c["opts"])
    keep = [i for i, o in enumerate(ro) if o[0] in kept]
    return kw, [cd for k, v in sorted(ref.candidates(len(ro), lo, hi, keep).items()) for cd in sorted(v)]


def check(c):
    scene, txs, rxs, ro = scenes.build(c)
    kw, cands = candidates_of(c, ro)
    f = c["fun"]
    base = funs.make(f["co"])
    seen = []
    cls = Antenna if c["cls"] else Point
    tx_side = c["side"] == "tx"

    def fun(tx, rx, path, objects, *args, **kwargs):
        seen.append((type(tx), type(rx)))
        extra = 0.0
        for p in (tx, rx):
            if isinstance(p, Antenna):
                extra = extra + p.tag() * (1.0 + p.xy[0])
        return base(tx, rx, path, objects, *args, **kwargs) + extra

    fk = c09.accumulate_kwargs(f)
    X, Y = J(f32(c["grid"]["X"], c["e"])), J(f32(c["grid"]["Y"], c["e"]))
    if tx_side:
        method, ckw, others = scene.accumulate_on_transmitters_grid_over_paths, {"transmitter_cls": cls} if c["cls"] else {}, rxs
    else:
        method, ckw, others = scene.accumulate_on_receivers_grid_over_paths, {"receiver_cls": cls} if c["cls"] else {}, txs
    got = list(method(X, Y, fun, **fk, **ckw, **kw))
    for a, b in seen:
        mine, other = (a, b) if tx_side else (b, a)
        ensure(mine is cls and other is Point, "the function was given a %s and a %s", a, b)
    ensure([n for n, _ in got] == [n for n, _ in others], "results named %s, expected %s", [n for n, _ in got], [n for n, _ in others])
    total = np.zeros(X.shape)
    size = 1.0
    for n, z in got:
        z = np.asarray(z)
        ensure(z.shape == X.shape and np.issubdtype(z.dtype, np.floating), "grid of shape %s: result of shape %s, %s", X.shape, z.shape, z.dtype)
        total = total + z.astype(np.float64)
        size += np.abs(z).max()
    red = np.asarray(method(X, Y, fun, reduce_all=True, **fk, **ckw, **kw))
    if got:
        ensure(red.shape == X.shape, "reduced result of shape %s", red.shape)
    ensure(np.all(np.abs(red - total) <= 2e-5 * size), "reduced result %s, the sum of the named ones is %s", red.tolist(), total.tolist())
    soft = soft_of(c["opts"])
    n, nz = 2 + len(got), 0
    pos = list(np.ndindex(X.shape))
    if len(pos) > 12:
        # a few positions, the last one among them
        k = 1 + abs(c["grid"]["X"][0][0] + 3 * c["grid"]["Y"][0][0]) % (len(pos) - 1)
        pos = [pos[-1 - i * k % len(pos)] for i in range(5)]
    scale = max(1.0, *(np.abs(np.asarray(o[1])).max() for o in ro), float(np.abs(X).max()), float(np.abs(Y).max())) if ro else max(1.0, float(np.abs(X).max()), float(np.abs(Y).max()))
    fmax = fmax_of(c, scale) + 2 * scale + 2
    for ij in pos:
        xy = jnp.stack([X[ij], Y[ij]])
        node = cls(xy=xy)
        p = np.asarray(xy, dtype=np.float64)
        one = scene.with_transmitters(moved=node) if tx_side else scene.with_receivers(moved=node)
        want = {(b if tx_side else a): float(v) for a, b, v in one.accumulate_over_paths(fun, **fk, **kw)}
        for (name, z), (_, q) in zip(got, others):
            w = wobble(c["opts"], soft, ro, cands, *((p, q) if tx_side else (q, p)), fmax)
            if w is None:
                continue
            v = float(np.asarray(z)[ij])
            n += 1
            nz += want[name] != 0.0
            ensure(abs(v - want[name]) <= 1e-5 + w, "at %s the grid for %r has %s, moving the node there gives %s (+- %s)", p.tolist(), name, v, want[name], w)
    return Res(nz > 0, (c["side"], c["opts"]["cls"], "approx" if soft else "exact", f"grid={X.shape[0]}x{X.shape[1]}", "own class" if c["cls"] else "Point"), n)


SUBS = [Sub("grid", cases, check, 200, 3500, "a judged position has a non-zero value", weight=80)]
