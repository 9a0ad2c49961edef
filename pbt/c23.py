"""C23: objects are pytrees: compiled, batched and stacked use changes nothing."""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import RIS, FermatPath, ImagePath, MinPath, Path, Point, Ray, Vertex, Wall, stack_leaves, unstack_leaves
from differt2d.scene import Scene
from differt2d.utils import received_power

from . import gen, ref, scenes
from .core import Res, Sub, ensure
from .lib import A, J, PHI, f32, key, obj, pt

# --- flattening ---------------------------------------------------------------------

E = 6
ints = st.integers(-300, 300)
xy = st.tuples(ints, ints).map(list)
LEAVES = {
    "Point": lambda p: Point(xy=J(f32(p[0], E))),
    "Vertex": lambda p: Vertex(xy=J(f32(p[0], E))),
    "Ray": lambda p: Ray(xys=J(f32(p[:2], E))),
    "Wall": lambda p: Wall(xys=J(f32(p[:2], E))),
    "RIS": lambda p: RIS(xys=J(f32(p[:2], E)), phi=J(f32(p[2][0], E))),
    "Path": lambda p: Path(xys=J(f32(p, E)), loss=J(f32(p[0][0], E))),
    "ImagePath": lambda p: ImagePath(xys=J(f32(p, E)), loss=J(f32(p[0][1], E))),
    "FermatPath": lambda p: FermatPath(xys=J(f32(p, E))),
    "MinPath": lambda p: MinPath(xys=J(f32(p[:2], E)), loss=J(f32(p[2][1], E))),
}


@st.composite
def scene_spec(draw):
    objs = draw(st.lists(st.tuples(st.sampled_from(["Wall", "RIS", "Vertex"]), st.lists(xy, min_size=3, max_size=3)).map(list), max_size=4))
    return {
        "tx": [[n, draw(xy)] for n in draw(st.permutations(scenes.NAMES))[: draw(st.integers(0, 3))]],
        "rx": [[n, draw(xy)] for n in draw(st.permutations(scenes.NAMES))[: draw(st.integers(0, 3))]],
        "objs": objs,
    }


def flat_case():
    return st.one_of(
        st.tuples(st.sampled_from(sorted(LEAVES)), st.lists(xy, min_size=3, max_size=5)).map(list),
        st.tuples(st.just("Scene"), scene_spec()).map(list),
        st.tuples(st.just("Scene"), scene_spec()).map(list),
    )


def make(c):
    if c[0] != "Scene":
        return LEAVES[c[0]](c[1])
    s = c[1]
    return Scene(
        transmitters={n: pt(p, E) for n, p in s["tx"]},
        receivers={n: pt(p, E) for n, p in s["rx"]},
        objects=[LEAVES[k](p) for k, p in s["objs"]],
    )


def describe(x):
    """Everything observable about an object, as plain data."""
    if isinstance(x, Scene):
        return (
            "Scene",
            [(n, describe(p)) for n, p in x.transmitters.items()],
            [(n, describe(p)) for n, p in x.receivers.items()],
            [describe(o) for o in x.objects],
        )
    out = [type(x).__name__]
    for f in ("xy", "xys", "phi", "loss"):
        if hasattr(x, f):
            v = np.asarray(getattr(x, f))
            out.append((f, v.dtype.name, v.shape, v.tolist()))
    return tuple(out)


def check_flat(c):
    x = make(c)
    want = describe(x)
    leaves, tree = jax.tree_util.tree_flatten(x)
    ensure(all(isinstance(v, jax.Array) for v in leaves), "%s has leaves that are no arrays: %s", c[0], leaves)
    n = {"Scene": lambda: sum(len(c[1][k]) for k in ("tx", "rx")) + sum(2 if o[0] == "RIS" else 1 for o in c[1]["objs"])}.get(c[0], lambda: 2 if c[0] == "RIS" or "Path" in c[0] else 1)()
    ensure(len(leaves) == n, "%s has %s leaves instead of %s", c[0], len(leaves), n)
    for y, how in (
        (jax.tree_util.tree_unflatten(tree, leaves), "unflattened"),
        (jax.tree_util.tree_map(lambda v: v, x), "mapped"),
        (eqx.filter_jit(lambda v: v)(x), "through a compiled identity"),
        (eqx.combine(*eqx.partition(x, eqx.is_array)), "partitioned and combined"),
    ):
        got = describe(y)
        ensure(type(y) is type(x) and got == want, "%s %s is %s instead of %s", c[0], how, got, want)
    double = describe(jax.tree_util.tree_map(lambda v: v * 2, x))

    def twice(d):
        if isinstance(d, list):
            return [twice(v) for v in d]
        if isinstance(d, tuple) and len(d) == 4 and isinstance(d[1], str):
            return (*d[:3], (np.array(d[3]) * 2).tolist())
        return tuple(twice(v) for v in d) if isinstance(d, tuple) else d

    ensure(double == twice(want), "%s doubled is %s", c[0], double)
    ensure(describe(x) == want, "%s was modified", c[0])
    ensure(jax.tree_util.tree_structure(make(c)) == tree, "two equal objects have different structures")
    return Res(n > 0, (c[0],), 8)


# --- stacking -----------------------------------------------------------------------


@st.composite
def stack_case(draw, shard):
    k = sorted(LEAVES)[shard % 8 + (1 if shard % 8 == 7 and draw(st.booleans()) else 0)]
    n = draw(st.sampled_from([1, 2, 3, 6]))
    size = 3
    return {"kind": k, "items": draw(st.lists(st.lists(xy, min_size=size, max_size=size), min_size=n, max_size=n)), "other": draw(st.sampled_from(sorted(LEAVES))), "at": draw(st.integers(0, n))}


def check_stack(c):
    xs = [LEAVES[c["kind"]](p) for p in c["items"]]
    s = stack_leaves(xs)
    ensure(type(s) is type(xs[0]), "stacking %s gives a %s", c["kind"], type(s))
    for f in ("xy", "xys", "phi", "loss"):
        if hasattr(xs[0], f):
            v = np.asarray(getattr(s, f))
            ensure(np.array_equal(v, np.stack([np.asarray(getattr(x, f)) for x in xs])), "stacked %s is %s", f, v)
    back = unstack_leaves(s)
    ensure(list(map(describe, back)) == list(map(describe, xs)), "unstacking gives %s instead of %s", list(map(describe, back)), list(map(describe, xs)))
    n = 3
    if c["kind"] in ("Wall", "RIS", "Vertex"):
        sc = Scene(objects=xs)
        s2 = sc.stacked_objects()
        ensure(type(s2) is type(xs[0]) and list(map(describe, unstack_leaves(s2))) == list(map(describe, xs)), "stacked_objects gives %s", s2)
        new = Scene.from_stacked_objects(s)
        ensure(list(map(describe, new.objects)) == list(map(describe, xs)) and not new.transmitters and not new.receivers, "from_stacked_objects gives %s", describe(new))
        n += 2
    # Iterators are accepted too
    ensure(describe(stack_leaves(iter(xs))) == describe(s), "stacking an iterator differs")
    if c["other"] != c["kind"]:
        mixed = list(xs)
        mixed.insert(c["at"], LEAVES[c["other"]](c["items"][0]))
        for f in (lambda: stack_leaves(mixed), lambda: Scene(objects=mixed).stacked_objects()):
            try:
                r = f()
            except Exception:
                continue
            ensure(False, "stacking %s gives %s", [type(m).__name__ for m in mixed], r)
    return Res(len(xs) > 1, (c["kind"], f"n={len(xs)}"), n + 3)


# --- indexing -----------------------------------------------------------------------


@st.composite
def index_case(draw, shard):
    n = [1, 2, 3, 4, 5, 6, 7, 9][shard % 8]
    kind = ["Wall", "RIS", "Vertex"][shard % 3]
    return {"kind": kind, "items": draw(st.lists(st.lists(xy, min_size=3, max_size=3), min_size=n, max_size=n)), "index": draw(st.one_of(st.integers(-2, n + 1), st.integers(-1000, 1000)))}


_at = eqx.filter_jit(lambda s, i: s.get_object(i))
_many = eqx.filter_jit(lambda s, i: jax.vmap(s.get_object)(i))


def check_index(c):
    xs = [LEAVES[c["kind"]](p) for p in c["items"]]
    sc = Scene(objects=xs)
    n, i = len(xs), c["index"]
    want = describe(xs[min(max(i, 0), n - 1)])
    comps = 3
    for got, how in ((sc.get_object(jnp.asarray(i)), "array"), (_at(sc, jnp.asarray(i)), "traced")):
        ensure(describe(got) == want, "object %s (%s index) of %s is %s instead of %s", i, how, n, describe(got), want)
    if -2 <= i <= n + 1:
        got = sc.get_object(i)
        ensure(describe(got) == want, "object %s of %s is %s instead of %s", i, n, describe(got), want)
    idx = np.array([-3, -1, 0, n // 2, n - 1, n, n + 7])
    got = _many(sc, jnp.asarray(idx))
    for k, g in zip(idx, unstack_leaves(got)):
        ensure(describe(g) == describe(xs[min(max(int(k), 0), n - 1)]), "object %s of %s (batched) is %s", k, n, describe(g))
        comps += 1
    # the objects on which a path candidate interacts
    cand = jnp.asarray([0, n - 1, 0], dtype=jnp.int32)
    got = sc.get_interacting_objects(cand)
    ensure([describe(g) for g in got] == [describe(xs[j]) for j in (0, n - 1, 0)], "interacting objects: %s", got)
    return Res(n > 1, (c["kind"], "inside" if 0 <= i < n else "clamped"), comps + 1)


# --- compiled scenes ----------------------------------------------------------------

PATTERNS = [("WWWW", 2), ("WWWWW", 1), ("WW", 2), ("W", 1), ("RR", 2), ("WWW", 2), ("", 0), ("VV", 2)]
ALPHA = 20.0


def trace_all(s, lo, hi, approx, cls):
    kw = {"alpha": ALPHA} if approx else {}
    return [(v, p.xys, p.loss) for _, _, v, p, _ in s.all_paths(path_cls=cls, min_order=lo, max_order=hi, approx=approx, **kw)]


def total(s, hi, approx, cls):
    kw = {"alpha": ALPHA} if approx else {}
    return s.accumulate_over_paths(received_power, fun_kwargs={"height": 0.5}, reduce_all=True, max_order=hi, path_cls=cls, approx=approx, **kw)


c_trace = eqx.filter_jit(trace_all)
c_total = eqx.filter_jit(total)


@st.composite
def compiled_case(draw, shard):
    pat, hi = PATTERNS[shard % 8]
    s = draw(gen.style("unit", "fine", "unit"))
    objs = []
    for k in pat:
        if k == "V":
            objs.append(["V", draw(gen.point(s))])
        else:
            objs.append([k, draw(gen.segment(s))] + ([draw(gen.spread(-1500, 1500))] if k == "R" else []))
    if pat == "WWWW" and draw(st.booleans()):
        objs = [["W", w] for w in draw(gen.room(s))]
    return {
        "e": gen.exp_of(s),
        "objs": objs,
        "hi": hi,
        "approx": bool(shard & 1) if draw(st.integers(0, 3)) else not (shard & 1),
        "tx": [["a", draw(gen.point(s))]],
        "rx": [["b", draw(gen.point(s))], ["c", draw(gen.point(s))]],
    }


def check_compiled(c):
    scene, txs, rxs, ro = scenes.build(c)
    cls = Path if any(o[0] != "W" for o in ro) else ImagePath
    hi, approx = c["hi"], c["approx"]
    a = trace_all(scene, 0, hi, approx, cls)
    b = c_trace(scene, 0, hi, approx, cls)
    ensure(len(a) == len(b), "%s entries directly, %s compiled", len(a), len(b))
    cands = [list(map(int, x)) for x in scene.all_path_candidates(max_order=hi)]
    jobs = [(t[1], r[1], cd) for t in txs for r in rxs for cd in cands]
    ensure(len(jobs) == len(a), "%s entries instead of %s", len(a), len(jobs))
    sure, judged = True, 0  # sure: no verdict hangs on rounding, so totals agree too
    shortest = min((np.hypot(*(o[1][1] - o[1][0])) for o in ro if o[0] == "W"), default=1.0)
    for (va, pa, la), (vb, pb, lb), (tx, rx, cd) in zip(a, b, jobs):
        os = [ro[j] for j in cd]
        verdict, t = None, None
        if cls is ImagePath:
            t = ref.Traced(tx, os, rx)
            if not t.ok:
                sure = False
                continue
            tol = 2 * t.err + 1e-6
            verdict = t.valid([*ro], os, cd)
        else:
            tol = 1e-6 * (1 + np.abs(A(pa)).max())
        ensure(np.shape(pa) == np.shape(pb) and np.abs(A(pa) - A(pb)).max() <= tol, "path through %s: %s directly, %s compiled", cd, A(pa).tolist(), A(pb).tolist())
        judged += 1
        if approx:
            d = abs(float(va) - float(vb))
            if t is not None and t.loss_hi - t.loss_lo < 1e-3 and tol < 1e-4:
                legs = np.hypot(*np.diff(t.pts, axis=0).T).min()
                if legs > 0.05 and shortest > 0.05:
                    ensure(d <= 0.25 * ALPHA * (tol / 0.05 * 40 + 2 * (t.loss_hi - t.loss_lo)) + 1e-5, "path through %s: validity %s directly, %s compiled", cd, va, vb)
            sure = sure and d <= 1e-4
        else:
            if verdict is not None:
                ensure(bool(va) == bool(vb) == verdict, "path through %s: valid %s directly, %s compiled, expected %s", cd, bool(va), bool(vb), verdict)
            else:
                sure = False
    if sure:
        x, y = float(total(scene, hi, approx, cls)), float(c_total(scene, hi, approx, cls))
        ensure(abs(x - y) <= 4e-3 * max(abs(x), abs(y)) + 1e-4 * len(a), "accumulated power %s directly, %s compiled", x, y)
    return Res(judged > 1, ("approx" if approx else "exact", f"objects={len(ro)}", cls.__name__), 2 * len(a))


# --- batches ------------------------------------------------------------------------

B = 6


@st.composite
def batch_case(draw, shard):
    s = draw(gen.style("fine", "lattice8", "unit", "wide"))
    return {
        "e": gen.exp_of(s),
        "walls": [draw(gen.segment(s)) for _ in range(B)],
        "phis": [draw(gen.spread(-3000, 3000)) for _ in range(B)],
        "ps": [[draw(gen.point(s)) for _ in range(3)] for _ in range(B)],
        "ts": [draw(gen.spread(-4096, 8192)) for _ in range(B)],
        "approx": bool(shard & 1),
    }


def methods(approx):
    kw = {"approx": approx, **({"alpha": 10.0} if approx else {})}
    return {
        "origin": lambda o, p, t: o.origin(),
        "dest": lambda o, p, t: o.dest(),
        "t": lambda o, p, t: o.t(),
        "normal": lambda o, p, t: o.normal(),
        "image": lambda o, p, t: o.image_of(p[0]),
        "cartesian": lambda o, p, t: o.parametric_to_cartesian(t),
        "parametric": lambda o, p, t: o.cartesian_to_parametric(p[0]),
        "contains": lambda o, p, t: o.contains_parametric(t, **kw),
        "intersects": lambda o, p, t: o.intersects_cartesian(p[:2], **kw),
        "evaluate": lambda o, p, t: o.evaluate_cartesian(p),
        "box": lambda o, p, t: o.bounding_box(),
        "center": lambda o, p, t: o.center(),
        "north-east": lambda o, p, t: o.get_location("NE"),
        "length": lambda o, p, t: Path(xys=p).length(),
        "vertices": lambda o, p, t: jnp.concatenate([v.xy for v in o.get_vertices()]),
        "image path": lambda o, p, t: ImagePath.from_tx_objects_rx(p[0], [o], p[1]).xys,
        "path": lambda o, p, t: Path.from_tx_objects_rx(p[0], [o, o], p[1]).xys,
    }


METHODS = {a: methods(a) for a in (False, True)}


def call(name, approx, o, p, t):
    return METHODS[approx][name](o, p, t)


DIRECT = {}
BATCHED = {}
for _a in (False, True):
    for _n, _f in METHODS[_a].items():
        DIRECT[_n, _a] = _f
        BATCHED[_n, _a] = {
            "all": eqx.filter_jit(jax.vmap(_f)),
            "points": eqx.filter_jit(jax.vmap(_f, in_axes=(None, 0, 0))),
            "objects": eqx.filter_jit(jax.vmap(_f, in_axes=(0, None, None))),
        }


def check_batch(c):
    e, approx = c["e"], c["approx"]
    xs = [f32(w, e) for w in c["walls"]]
    ps = f32(c["ps"], e)
    ts = f32(c["ts"], 12).reshape(B, 1)
    scale = max(np.abs(np.array(xs)).max(), np.abs(ps).max())
    n = 0
    for cls in (Wall, RIS):
        os = [Wall(xys=J(x)) if cls is Wall else RIS(xys=J(x), phi=J(np.float32(p / PHI))) for x, p in zip(xs, c["phis"])]
        stacked = stack_leaves(os)
        for name in METHODS[approx]:
            if name == "image path" and cls is RIS:
                continue
            for how in ("all", "points", "objects"):
                f = BATCHED[name, approx][how]
                if how == "all":
                    got = f(stacked, J(ps), J(ts))
                elif how == "points":
                    got = f(os[0], J(ps), J(ts))
                else:
                    got = f(stacked, J(ps[0]), J(ts[0]))
                got = np.asarray(got)
                ensure(got.shape[0] == B, "%s.%s batched over %s: shape %s", cls.__name__, name, how, got.shape)
                # One of the batch is enough for the eager side, which is slow
                i = (n * 5 + 1) % B
                j, k = (i, i) if how == "all" else (0, i) if how == "points" else (i, 0)
                want = np.asarray(DIRECT[name, approx](os[j], J(ps[k]), J(ts[k])))
                what = f"{cls.__name__}.{name} batched over {how}, entry {i}"
                ensure(got[i].shape == want.shape and got.dtype == want.dtype, "%s: %s %s instead of %s %s", what, got.dtype, got[i].shape, want.dtype, want.shape)
                n += 1
                g, w = got[i].astype(float), want.astype(float)
                L = np.hypot(*(xs[j][1].astype(float) - xs[j][0]))
                cond = scale / L
                if name in ("contains", "intersects"):
                    if want.dtype == bool:
                        if name == "contains":
                            ok = None if False else bool(0 <= ts[k, 0] <= 1)
                            ensure(bool(g) == bool(w) == ok, "%s: %s, directly %s, expected %s", what, bool(g), bool(w), ok)
                        else:
                            r = ref.wall_crossed(xs[j], ps[k][0], ps[k][1])
                            ensure(r is None or bool(g) == bool(w) == r, "%s: %s, directly %s, expected %s", what, bool(g), bool(w), r)
                        continue
                    a, b = np.hypot(*(ps[k][1].astype(float) - ps[k][0])), L
                    cr = abs(ref.cross(xs[j][1].astype(float) - xs[j][0], ps[k][1].astype(float) - ps[k][0]))
                    if name == "intersects" and cr < 1e-3 * scale * scale:
                        continue
                    ensure(np.abs(g - w).max() <= 1e-2, "%s: %s, directly %s", what, g, w)
                    continue
                if name == "image path":
                    t = ref.Traced(ps[k][0], [("W", xs[j].astype(float))], ps[k][1])
                    if not t.ok:
                        continue
                    tol = 2 * t.err
                elif name == "evaluate":
                    legs = np.hypot(*np.diff(ps[k].astype(float), axis=0).T)
                    if legs.min() == 0:
                        continue
                    tol = 1e-4
                elif name in ("normal",):
                    tol = 1e-5
                elif name in ("parametric",):
                    tol = 2 * ref.param_err(xs[j], ps[k][0]) + 1e-6
                elif name == "image":
                    tol = 1e-5 * scale
                else:
                    tol = 4e-6 * scale * (1 + np.abs(ts[k, 0]))
                ensure(np.abs(g - w).max() <= tol, "%s: %s, directly %s", what, g.tolist(), w.tolist())
    return Res(True, ("approx" if approx else "exact",), n)


# --- positions ----------------------------------------------------------------------


@st.composite
def position_case(draw, shard):
    n = [1, 2, 3, 4, 5, 4, 2, 3][shard % 8]
    s = draw(gen.style("unit", "fine"))
    return {
        "e": gen.exp_of(s),
        "walls": draw(gen.walls(s, n, n)),
        "cand": draw(st.permutations(range(n)))[: min(n, 1 + shard % 2)],
        "tx": [draw(gen.point(s)) for _ in range(B)],
        "rx": draw(gen.point(s)),
    }


@eqx.filter_jit
def paths_of(txs, walls, cand, rx):
    """Tracing and validating one candidate from many positions, through stacked walls."""

    def one(tx):
        os = unstack_leaves(walls)
        inter = [jax.tree_util.tree_map(lambda v: v[i], walls) for i in cand]
        p = ImagePath.from_tx_objects_rx(tx, inter, rx)
        return p.xys, p.on_objects(inter, approx=False), p.intersects_with_objects(os, cand, approx=False), p.is_valid(os, cand, inter, approx=False)

    return jax.vmap(one)(txs)


def check_positions(c):
    e = c["e"]
    ws = [f32(w, e) for w in c["walls"]]
    txs, rx = f32(c["tx"], e), f32(c["rx"], e)
    cand = c["cand"]
    stacked = stack_leaves([Wall(xys=J(w)) for w in ws])
    xys, on, ob, ok = paths_of(J(txs), stacked, jnp.asarray(cand, dtype=jnp.int32), J(rx))
    ro = [("W", w.astype(float)) for w in ws]
    os = [ro[j] for j in cand]
    judged = 0
    for i in range(B):
        t = ref.Traced(txs[i], os, rx)
        if not t.ok:
            continue
        judged += 1
        ensure(np.abs(A(xys[i]) - t.pts).max() <= t.err, "from %s (batched) through %s: %s instead of %s", txs[i], cand, A(xys[i]).tolist(), t.pts.tolist())
        for got, want, what in ((on, t.on(os), "on its objects"), (ob, t.crossed(ro, cand), "obstructed"), (ok, t.valid(ro, os, cand), "valid")):
            ensure(want is None or bool(got[i]) == want, "from %s (batched) through %s: %s is %s, expected %s", txs[i], cand, what, bool(got[i]), want)
    return Res(judged > 1, (f"walls={len(ws)}", f"order={len(cand)}"), 4 * judged)


SUBS = [
    Sub("flatten", flat_case(), check_flat, 400, 10000, "at least one leaf", weight=25),
    Sub("stack", lambda k: stack_case(k), check_stack, 300, 8000, "at least two objects", weight=20),
    Sub("index", lambda k: index_case(k), check_index, 320, 10000, "at least two objects", weight=20),
    Sub("compiled", lambda k: compiled_case(k), check_compiled, 120, 6000, "at least two paths compared", weight=150),
    Sub("batched", lambda k: batch_case(k), check_batch, 64, 2000, "every case (102 batches each)", weight=400),
    Sub("positions", lambda k: position_case(k), check_positions, 320, 16000, "at least two well-conditioned positions", weight=20),
]
