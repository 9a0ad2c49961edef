"""C11: gradient maps are the derivatives of the value maps.

Oracle: the accumulated value recomputed in 64-bit floats (image method, fuzzy
validity and function), differentiated numerically; positions where that function
is not smooth, or ill-conditioned for 32-bit floats, are not judged.
"""

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import ImagePath, Path
from differt2d.logic import hard_sigmoid, sigmoid
from differt2d.utils import received_power

from . import c09, c10, funs, gen, ref, scenes
from .core import Res, Sub, ensure
from .lib import J, f32

PATTERNS = [["WWWW"], ["WW"], ["WWW"], ["WWW"], ["W", ""], ["WWWW"], ["RR"], ["WWW"]]
H = 1e-5


@st.composite
def fun_spec(draw):
    if draw(st.booleans()):
        return {"power": True, "kw": draw(st.sampled_from([{}, {"height": 0.5}, {"r_coef": 0.9, "height": 0.2}]))}
    f = draw(c09.fun_spec())
    f["power"] = False
    return f


def cases(shard):
    @st.composite
    def case(draw):
        pat = draw(st.sampled_from(PATTERNS[shard % 8]))
        s = draw(gen.style("unit"))
        orders = ((0, 1), (0, 1), (0, 2), (1, 2), (1, 1)) if len(pat) <= 3 else ((0, 1), (0, 1), (1, 1))
        o = draw(c09.options(pat, orders))
        o["approx"] = draw(st.sampled_from([True, True, True, False]))
        o["alpha"] = draw(st.sampled_from([None, 3.0, 10.0, 30.0]))
        o["filter"] = None
        if o["cls"] != "image":
            o["cls"] = draw(st.sampled_from(["image", "path"]))
        o["key"] = None
        c = {"e": gen.exp_of(s), "objs": c09.objects(draw, pat, s), "opts": o, "fun": draw(fun_spec())}
        c["side"] = draw(st.sampled_from(["tx", "rx"]))
        two = draw(st.sampled_from([1, 1, 2]))
        c["tx"] = draw(scenes.nodes(s, 1, 2 if c["side"] == "tx" else two))
        c["rx"] = draw(scenes.nodes(s, 1, 2 if c["side"] == "rx" else two))
        c["grid"] = draw(c10.grids(s, c10.SHAPES[shard % 8]))
        c["reduce"] = draw(st.sampled_from(["none", "grad", "both"]))
        return c

    return case()


# --- the value in 64 bits -------------------------------------------------------


def soft_segments(act, p1, p2, p3, p4, tol=ref.SEG_TOL):
    a, b, c = p2 - p1, p4 - p3, p3 - p1
    den = ref.cross(a, b)
    if den == 0.0:
        return 0.0
    out = 1.0
    for num in (ref.cross(c, b), ref.cross(c, a)):
        t = num / den
        out = min(out, act(t + tol), act(1.0 + tol - t))
    return out


def soft_value(act, pts, loss, ro, inter, cd, tol, patch):
    on = 1.0
    for i, o in enumerate(inter):
        s = ref.param(o[1], pts[i + 1])
        on = min(on, act(s), act(1.0 - s))
    own = [None, *cd, None]
    ob = 0.0
    for i in range(len(pts) - 1):
        for j, o in enumerate(ro):
            if j in (own[i], own[i + 1]):
                continue
            w = o[1]
            d = w[1] - w[0]
            ob = max(ob, soft_segments(act, w[0] - patch * d, w[1] + patch * d, pts[i], pts[i + 1]))
    return min(on, 1.0 - ob, act(tol - loss))


def path_of(o, tx, inter, rx):
    if o["cls"] == "path":
        return np.array([tx, *[k[1].mean(axis=0) for k in inter], rx]), 0.0
    pts, _ = ref.image_path(tx, [k[1] for k in inter], rx)
    return pts, (None if pts is None else ref.path_loss(inter, pts))


def fun_value(f, tx, rx, pts, inter):
    if f["power"]:
        r = f["kw"].get("r_coef", 0.5) ** (len(pts) - 2)
        return r / (f["kw"].get("height", 0.1) ** 2 + ref.length(pts) ** 2)
    return funs.expected(f["co"], tx, rx, pts, inter, f["args"], f["kwargs"])


def value64(c, ro, cands, verdict, tx, rx):
    o = c["opts"]
    tol, patch = o["tol"] or 0.01, o["patch"] or 0.0
    alpha = o["alpha"] or 100.0
    f = ref.ACTS[o["sigmoid"] or "hard"]
    out = 0.0
    for k, cd in enumerate(cands):
        inter = [ro[j] for j in cd]
        if verdict is not None and not verdict[k]:
            continue
        pts, loss = path_of(o, tx, inter, rx)
        if pts is None:
            if verdict is not None:
                return None
            return None
        v = 1.0 if verdict is not None else soft_value(lambda x: float(f(x, alpha)), pts, loss, ro, inter, cd, tol, patch)
        if v != 0.0:
            out += v * fun_value(c["fun"], tx, rx, pts, inter)
    return out


def derivative(val, p):
    """(gradient, uncertainty) of val at p, or None where it is not smooth."""
    v0 = val(p)
    if v0 is None:
        return None

    def central(q, h):
        g = np.zeros(2)
        for i in (0, 1):
            d = np.zeros(2)
            d[i] = h
            a, b = val(q + d), val(q - d)
            if a is None or b is None:
                return None
            g[i] = (a - b) / (2 * h)
        return g

    gs = []
    for i in (0, 1):
        d = np.zeros(2)
        d[i] = H
        a, b = val(p + d), val(p - d)
        if a is None or b is None:
            return None
        gs.append(((a - v0) / H, (v0 - b) / H))
    g = np.array([(a + b) / 2 for a, b in gs])
    one = np.array([abs(a - b) for a, b in gs])
    if np.any(one > 1e-3 * np.abs(g).max() + 1e-3 + 0.05 * np.abs(g)):
        return None  # a kink, or too curved
    u = 0.0
    for q in (np.array([1.0, 0.6]), np.array([-0.7, 1.0]), np.array([0.3, -1.0])):
        # What rounding the coordinates a few times would do
        g2 = central(p + 2e-5 * q, H)
        if g2 is None:
            return None
        u = max(u, np.abs(g2 - g).max())
    return g, 2 * u + float(one.max())


def verdicts(c, ro, cands, tx, rx):
    o = c["opts"]
    if o["approx"]:
        return True, None
    out = []
    for cd in cands:
        inter = [ro[j] for j in cd]
        if o["cls"] == "path":
            pts, _ = path_of(o, tx, inter, rx)
            err = 2 * ref.EPS * np.abs(pts).max() if len(inter) else 0.0
            v = ref.t_and(ref.on_objects(pts, inter, err), ref.t_not(ref.obstructed(pts, ro, cd, o["patch"] or 0.0, err)))
        else:
            t = ref.Traced(tx, inter, rx)
            v = t.valid(ro, inter, cd, o["tol"] or 0.01, o["patch"] or 0.0)
        if v is None:
            return False, None
        out.append(v)
    return True, out


def check(c):
    scene, txs, rxs, ro = scenes.build(c)
    o = c["opts"]
    lo, hi = o["orders"]
    kw = {"path_cls": {"image": ImagePath, "path": Path}[o["cls"]], "approx": o["approx"]}
    if o["exact_order"]:
        kw["order"] = hi
        lo = hi
    else:
        kw.update(min_order=lo, max_order=hi)
    if o["approx"]:
        if o["alpha"]:
            kw["alpha"] = jnp.asarray(o["alpha"])
        if o["sigmoid"]:
            kw["function"] = {"sigmoid": sigmoid, "hard": hard_sigmoid}[o["sigmoid"]]
    if o["tol"]:
        kw["tol"] = jnp.asarray(o["tol"])
    if o["patch"]:
        kw["patch"] = jnp.asarray(o["patch"])
    cands = [cd for k, v in sorted(ref.candidates(len(ro), lo, hi).items()) for cd in sorted(v)]
    f = c["fun"]
    if f["power"]:
        fun = received_power
        if f["kw"]:
            kw["fun_kwargs"] = f["kw"]
    else:
        fun = funs.make(f["co"])
        kw.update(c09.accumulate_kwargs(f))
    X, Y = J(f32(c["grid"]["X"], c["e"])), J(f32(c["grid"]["Y"], c["e"]))
    tx_side = c["side"] == "tx"
    method = scene.accumulate_on_transmitters_grid_over_paths if tx_side else scene.accumulate_on_receivers_grid_over_paths
    others = rxs if tx_side else txs
    names = [n for n, _ in others]
    V = list(method(X, Y, fun, **kw))
    G = list(method(X, Y, fun, grad=True, **kw))
    flag = {} if o["exact_order"] else {"grad": True}
    VG = list(method(X, Y, fun, value_and_grad=True, **flag, **kw))
    for what, r in (("values", V), ("gradients", G), ("values and gradients", VG)):
        ensure([n for n, _ in r] == names, "%s are named %s, expected %s", what, [n for n, _ in r], names)
    red = rvg = None
    if c["reduce"] == "grad":
        red = np.asarray(method(X, Y, fun, grad=True, reduce_all=True, **kw))
    elif c["reduce"] == "both":
        rvg = method(X, Y, fun, value_and_grad=True, reduce_all=True, **kw)
        ensure(isinstance(rvg, tuple) and len(rvg) == 2, "reduced value and gradient is a %s", type(rvg))
    shape = (*X.shape, 2)
    n, smooth, nz = 0, 0, 0
    judged = np.ones(X.shape, dtype=bool)
    tolv = np.zeros(X.shape)
    tolg = np.zeros(shape)
    for (name, v), (_, g), (_, vg) in zip(V, G, VG):
        ensure(isinstance(vg, tuple) and len(vg) == 2, "value and gradient is a %s", type(vg))
        v, g, v2, g2 = (np.asarray(x, dtype=np.float64) for x in (v, g, *vg))
        ensure(v.shape == X.shape and v2.shape == X.shape, "values of shape %s and %s for a grid %s", v.shape, v2.shape, X.shape)
        ensure(g.shape == shape and g2.shape == shape, "gradients of shape %s and %s for a grid %s", g.shape, g2.shape, X.shape)
        q = dict(others)[name]
        for ij in np.ndindex(X.shape):
            p = np.array([float(X[ij]), float(Y[ij])])
            ends = (lambda r: (r, q)) if tx_side else (lambda r: (q, r))
            ok, verd = verdicts(c, ro, cands, *ends(p))
            d = derivative(lambda r: value64(c, ro, cands, verd, *ends(r)), p) if ok else None
            if d is None or d[1] > 0.05 * (1 + np.abs(d[0]).max()):
                judged[ij] = False
                continue
            want, u = d
            big = np.abs(want).max()
            t = 3 * u + 5e-3 * big + 2e-3
            n += 4
            smooth += 1
            nz += big > 10 * t
            what = f"{name!r} at {p.tolist()}"
            ensure(np.all(np.abs(g[ij] - want) <= t), "%s: gradient %s, the derivative is %s (+- %s)", what, g[ij].tolist(), want.tolist(), t)
            ensure(np.all(np.abs(g2[ij] - g[ij]) <= t), "%s: value_and_grad gives the gradient %s, grad gives %s", what, g2[ij].tolist(), g[ij].tolist())
            w = value64(c, ro, cands, verd, *ends(p))
            tv = 1e-4 * (1 + abs(w)) + 1e-4 * big
            ensure(abs(v2[ij] - v[ij]) <= tv, "%s: value_and_grad gives the value %s, the plain call %s", what, v2[ij], v[ij])
            ensure(abs(v[ij] - w) <= tv, "%s: value %s, recomputed %s", what, v[ij], w)
            tolv[ij] += tv
            tolg[ij] += t
    if names:
        sv = sum(np.asarray(v, dtype=np.float64) for _, v in V)
        sg = sum(np.asarray(g, dtype=np.float64) for _, g in G)

        def cmp_red(what, got, want, tols):
            got = np.asarray(got, dtype=np.float64)
            ensure(got.shape == want.shape, "reduced %s of shape %s", what, got.shape)
            for ij in np.ndindex(X.shape):
                if judged[ij]:
                    ensure(np.all(np.abs(got[ij] - want[ij]) <= 2 * tols[ij]), "reduced %s %s, the sum is %s", what, got[ij].tolist(), want[ij].tolist())

        if red is not None:
            cmp_red("gradient", red, sg, tolg)
        if rvg is not None:
            cmp_red("value", rvg[0], sv, tolv)
            cmp_red("gradient", rvg[1], sg, tolg)
    return Res(nz > 0, (c["side"], o["cls"], "approx" if o["approx"] else "exact", "power" if f["power"] else "own function", "reduce " + c["reduce"], f"judged={min(smooth, 5)}"), n)


SUBS = [Sub("derivative", cases, check, 64, 1600, "a judged position has a gradient above the tolerance", weight=120)]
