"""C13: approximate validity lies in [0, 1] and sharpens to the exact verdict."""

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import RIS, FermatPath, ImagePath, MinPath, Path, Vertex, Wall, segments_intersect
from differt2d.logic import hard_sigmoid, is_true, sigmoid

from . import c02, gen, ref, scenes
from .core import Res, Sub, ensure
from .lib import J, f32, objs


def tanh_act(x, alpha):
    return 0.5 + 0.5 * jnp.tanh(alpha * x)


FUNS = {"hard": hard_sigmoid, "sigmoid": sigmoid, "tanh": tanh_act}
ALPHAS = [None, 1.0, 5.0, 20.0, 100.0, 1000.0, 100000.0]


@st.composite
def activations(draw, shard=None):
    """With a shard: few combinations, as each is compiled separately."""
    if shard is None:
        return {"alpha": draw(st.sampled_from(ALPHAS)), "fun": draw(st.sampled_from([None, "hard", "sigmoid", "sigmoid", "tanh"]))}
    return {
        "alpha": draw(st.sampled_from(ALPHAS[1:])) if shard % 8 != 6 else draw(st.sampled_from(ALPHAS)),
        "fun": [None, "sigmoid", "hard", "tanh", "sigmoid", "hard", None, "sigmoid"][shard % 8],
    }


def act_kw(a):
    kw = {"approx": True}
    if a["alpha"] is not None:
        kw["alpha"] = jnp.asarray(a["alpha"])
    if a["fun"]:
        kw["function"] = FUNS[a["fun"]]
    return kw, ref.Soft(a["fun"] or "hard", 100.0 if a["alpha"] is None else a["alpha"])


def compare(got, want, exact, what):
    """`got` in [0, 1] and in the interval; its rounding is the exact verdict."""
    g = np.asarray(got)
    ensure(g.shape == () and np.issubdtype(g.dtype, np.floating), "%s: must be one number, got %s %s", what, g.dtype, g.shape)
    v = float(g)
    ensure(0.0 <= v <= 1.0, "%s: %s is not in [0, 1]", what, v)
    lo, hi = want
    ensure(lo <= v <= hi, "%s: is %s, expected a value in [%s, %s]", what, v, lo, hi)
    n = 1
    if exact is not None and (lo > 0.5 or hi < 0.5):
        x = np.asarray(exact)
        ensure(bool(x) == (lo > 0.5), "%s: approximately %s, exactly %s", what, v, x)
        ensure(bool(is_true(got, approx=True)) == bool(x), "%s: rounding %s gives %s, exactly %s", what, v, is_true(got, approx=True), x)
        n += 1
    return n, (v if hi - lo < 1e-2 else None)


# --- elementary tests -----------------------------------------------------------


@st.composite
def elem_cases(draw):
    s = draw(gen.style("lattice8", "fine", "unit", "wide", "tiny"))
    return {
        "e": gen.exp_of(s),
        "wall": draw(gen.segment(s)),
        "kind": draw(st.sampled_from(["W", "R", "V"])),
        "ray": draw(gen.segment(s)),
        "s": draw(st.one_of(gen.spread(-80, 1100), st.sampled_from([0, 1024, 1, 1023, -1, 1025, 512]))),
        "tol": draw(st.sampled_from([None, 0.0, 0.25, 0.005])),
        "patch": draw(st.sampled_from([None, 0.0, 0.25, -0.25, 1.0])),
        "act": draw(activations()),
    }


def check_elem(c):
    e = c["e"]
    kw, soft = act_kw(c["act"])
    w, r = f32(c["wall"], e), f32(c["ray"], e)
    n, mids = 0, 0

    def cmp(*a):
        nonlocal n, mids
        k, v = compare(*a)
        n += k
        mids += v is not None and 1e-3 < v < 1 - 1e-3

    cls = {"W": Wall, "R": RIS, "V": Vertex}[c["kind"]]
    o = cls(xy=J(w[0])) if cls is Vertex else cls(xys=J(w))
    s = np.float32(c["s"] / 1024.0)
    param = jnp.zeros((0,)) if cls is Vertex else J([s])
    want = (1.0, 1.0) if cls is Vertex else soft.contains(float(s))
    cmp(o.contains_parametric(param, **kw), want, o.contains_parametric(param, approx=False), f"contains_parametric({s}) {c['act']}")
    kt = {} if c["tol"] is None else {"tol": jnp.asarray(c["tol"], dtype=jnp.float32)}
    tol = ref.SEG_TOL if c["tol"] is None else c["tol"]
    ps = [J(w[0]), J(w[1]), J(r[0]), J(r[1])]
    want = soft.segments(*(x.astype(np.float64) for x in (w[0], w[1], r[0], r[1])), tol)
    cmp(segments_intersect(*ps, **kt, **kw), want, segments_intersect(*ps, approx=False, **kt), f"segments_intersect {w.tolist()} {r.tolist()} tol={tol} {c['act']}")
    patch = c["patch"] or 0.0
    kp = {} if c["patch"] is None else {"patch": jnp.asarray(patch, dtype=jnp.float32)}
    want = (0.0, 0.0) if cls is Vertex else soft.crossed(w.astype(np.float64), *r.astype(np.float64), patch, 0.0 if patch == 0.0 else 2 * ref.EPS * np.abs(w).max() * 3)
    cmp(o.intersects_cartesian(J(r), **kp, **kw), want, o.intersects_cartesian(J(r), approx=False, **kp), f"{c['kind']} {w.tolist()} intersects_cartesian {r.tolist()} patch={patch} {c['act']}")
    return Res(mids > 0, (f"mid={mids}", f"fun={c['act']['fun']}", f"alpha={c['act']['alpha']}"), n)


# --- given paths ----------------------------------------------------------------


def path_cases(shard):
    return st.fixed_dictionaries({"c": c02.cases(shard, few=True), "act": activations(shard)})


def check_path(case):
    c = case["c"]
    kw, soft = act_kw(case["act"])
    e = c["e"]
    os, ro = objs(c["objs"], e), [c02.ref_obj(o, e) for o in c["objs"]]
    x = f32(c["ps"], e)
    tol = np.float32(0.01 if c["tol"] is None else c["tol"])
    loss = {"eq": tol, "below": np.nextafter(tol, np.float32(0)), "above": np.nextafter(tol, np.float32(9))}.get(c["loss"], c["loss"])
    loss = np.float32(loss)
    cand = c["cand"]
    inter, rinter = [os[j] for j in cand], [ro[j] for j in cand]
    p = [Path, ImagePath, FermatPath, MinPath][c["cls"]](xys=J(x), loss=J(loss))
    jc = jnp.asarray(cand, dtype=jnp.int32)
    patch = 0.0 if c["patch"] is None else c["patch"]
    kp = {} if c["patch"] is None else {"patch": jnp.asarray(patch, dtype=jnp.float32)}
    kt = {} if c["tol"] is None else {"tol": jnp.asarray(tol)}
    xd = x.astype(np.float64)
    # Patched ends are rounded
    ex = 0.0 if patch == 0.0 else 4 * ref.EPS * max(np.abs(np.asarray(o[1])).max() for o in ro)
    on = soft.on(xd, rinter)
    ob = (0.0, 0.0)
    own = [None, *cand, None]
    for i in range(len(xd) - 1):
        for j, o in enumerate(ro):
            if o[0] != "V" and j not in (own[i], own[i + 1]):
                ob = soft.lor(ob, soft.crossed(o[1], xd[i], xd[i + 1], patch, ex))
    small = soft.pos(float(tol) - float(loss), 2 * ref.EPS)
    want = soft.land(on, soft.lnot(ob), small)
    what = f"{c['objs']} / 2^{e} points={x.tolist()} candidate={cand} loss={loss} tol={tol} patch={patch} {case['act']}"
    n, mids = 0, 0
    for name, f, w in (
        ("on_objects", lambda **k: p.on_objects(inter, **k), on),
        ("intersects_with_objects", lambda **k: p.intersects_with_objects(os, jc, **k, **kp), ob),
        ("is_valid", lambda **k: p.is_valid(os, jc, inter, **k, **kt, **kp), want),
    ):
        k, v = compare(f(**kw), w, f(approx=False), f"{what}: {name}")
        n += k
        mids += v is not None and 1e-3 < v < 1 - 1e-3
    return Res(len(cand) > 0 and want[1] - want[0] < 0.01 and want[1] > 0.0, (f"mid={mids}", f"alpha={case['act']['alpha']}", f"fun={case['act']['fun']}"), n)


# --- traced scenes --------------------------------------------------------------

SIZES = [[4], [5], [3], [4], [6], [2], [5], [4]]


def traced_cases(shard):
    @st.composite
    def case(draw):
        n = draw(st.sampled_from(SIZES[shard % 8]))
        c = draw(scenes.wall_scene(n, tx=(1, 1), rx=(1, 2), styles=("unit", "fine", "unit")))
        c["orders"] = draw(st.sampled_from([[0, 1], [0, 1], [0, 2], [1, 2]]))
        c["act"] = draw(activations(shard + 3))
        c["tol"] = draw(st.sampled_from([None, None, 0.25, 2.0]))
        c["patch"] = draw(st.sampled_from([None, None, 0.25, -0.25]))
        return c

    return case()


def check_traced(c):
    scene, txs, rxs, ro = scenes.build(c)
    kw, soft = act_kw(c["act"])
    lo, hi = c["orders"]
    tk = {"min_order": lo, "max_order": hi}
    if c["tol"] is not None:
        tk["tol"] = jnp.asarray(c["tol"])
    if c["patch"] is not None:
        tk["patch"] = jnp.asarray(c["patch"])
    tol, patch = (0.01 if c["tol"] is None else c["tol"]), c["patch"] or 0.0
    pt_, pr = dict(txs), dict(rxs)
    n, decided, kept = 0, 0, []
    exact = {}
    for t, r, v, _, cd in scene.all_paths(approx=False, **tk):
        exact[t, r, tuple(int(i) for i in cd)] = v
    for t, r, v, path, cd in scene.all_paths(**kw, **tk):
        k = (t, r, tuple(int(i) for i in cd))
        inter = [ro[j] for j in k[2]]
        tr = ref.Traced(pt_[t], inter, pr[r])
        want = soft.valid(tr, ro, inter, k[2], tol, patch)
        m, x = compare(v, want, exact[k], f"validity of {k} {c['act']}")
        n += m
        decided += x is not None and x > 1e-3
        if bool(is_true(v, approx=True)):
            kept.append(k)
    got = [(t, r, tuple(int(i) for i in cd)) for t, r, _, cd in scene.all_valid_paths(**kw, **tk)]
    ensure(got == kept, "all_valid_paths gives %s, those of validity above one half are %s", got, kept)
    return Res(decided > 0, (f"walls={len(ro)}", f"alpha={c['act']['alpha']}", f"fun={c['act']['fun']}", f"nonzero={min(decided, 4)}"), n)


SUBS = [
    Sub("elementary", elem_cases(), check_elem, 1200, 30000, "some value strictly between 0 and 1 is known to 1e-2", weight=4),
    Sub("paths", path_cases, check_path, 900, 20000, "an interaction, and a possible validity known to 1e-2", weight=8),
    Sub("traced", traced_cases, check_traced, 200, 3000, "a non-zero validity known to 1e-2", weight=50),
]
