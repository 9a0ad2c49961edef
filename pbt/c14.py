"""C14: truth-value operators obey their logic in both modes."""

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from differt2d import logic
from differt2d.logic import (
    activation,
    false_value,
    greater,
    greater_equal,
    hard_sigmoid,
    is_false,
    is_true,
    less,
    less_equal,
    logical_all,
    logical_and,
    logical_any,
    logical_not,
    logical_or,
    sigmoid,
    true_value,
)

from . import gen, ref
from .core import Res, Sub, ensure

EPS = ref.EPS
FUNS = {"hard": hard_sigmoid, "sig": sigmoid}


def soft(name, z):
    z = np.asarray(z, dtype=np.float64)
    if name == "hard":
        return np.clip(z / 6.0 + 0.5, 0.0, 1.0)
    return 1.0 / (1.0 + np.exp(-np.clip(z, -700, 700)))


SHAPES = [[], [1], [3], [2, 3], [3, 1], [1, 3], [2, 1, 3]]
# The functions are declared for arrays of one shape, plain numbers being scalars
PAIRS = [(a, a) for a in SHAPES] + [("py", []), ([], "py"), ("py", "py")]


nums = st.one_of(st.integers(-6, 6).map(lambda k: k / 4), st.integers(-(10**6), 10**6).map(lambda k: k / 1024), st.sampled_from([0.0, -0.0, 1.0, 0.005, 1e-6, 1e6, -1e6]))
truths = st.one_of(st.integers(0, 8).map(lambda k: k / 8), st.sampled_from([0.0, 0.5, 1.0, 0.49, 0.51]))


@st.composite
def array(draw, elems, shape):
    n = int(np.prod(shape)) if shape and shape != "py" else 1
    return [draw(elems) for _ in range(n)]


@st.composite
def cmp_case(draw):
    sa, sb = draw(st.sampled_from(PAIRS))
    a = draw(array(nums, sa))
    b = draw(array(nums, sb))
    if draw(st.booleans()):  # ties
        b = [a[k % len(a)] if draw(st.booleans()) else v for k, v in enumerate(b)]
    return {
        "sa": sa,
        "sb": sb,
        "a": a,
        "b": b,
        "alpha": draw(st.one_of(st.none(), gen.spread(1, 4000).map(lambda k: k / 8))),
        "fun": draw(st.sampled_from([None, "hard", "sig"])),
    }


OPS = {"greater": (greater, np.greater, 1), "greater_equal": (greater_equal, np.greater_equal, 1), "less": (less, np.less, -1), "less_equal": (less_equal, np.less_equal, -1)}


def arg(vals, shape):
    a = np.asarray(vals, dtype=np.float32)
    if shape == "py":
        return float(a[0]), a[0]
    a = a.reshape(shape)
    return jnp.asarray(a), a


def joint(sa, sb):
    return () if sa == "py" else tuple(sa)


def check_cmp(c):
    x, xn = arg(c["a"], c["sa"])
    y, yn = arg(c["b"], c["sb"])
    shape = joint(c["sa"], c["sb"])
    kw = {}
    alpha, fun = 100.0, "hard"
    if c["alpha"] is not None:
        alpha = c["alpha"]
        kw["alpha"] = jnp.asarray(alpha, dtype=jnp.float32)
    if c["fun"] is not None:
        fun = c["fun"]
        kw["function"] = FUNS[fun]
    n = 0
    soft_vals = {}
    for name, (op, npop, sign) in OPS.items():
        got = np.asarray(op(x, y, approx=False))
        ensure(got.dtype == bool and got.shape == shape, "%s exact: %s %s", name, got.dtype, got.shape)
        ensure(np.array_equal(got, npop(xn, yn)), "%s(%s, %s) = %s", name, xn.tolist(), yn.tolist(), got.tolist())
        got = np.asarray(op(x, y, approx=True, **kw))
        ensure(got.shape == shape and np.issubdtype(got.dtype, np.floating), "%s approx: %s %s", name, got.dtype, got.shape)
        z = sign * alpha * (xn.astype(np.float64) - yn.astype(np.float64))
        tol = 4 * EPS + 4 * EPS * np.abs(z) * 0.3
        want = soft(fun, z)
        ensure(np.all(np.abs(got - want) <= np.minimum(tol, 1e-3) + 1e-6), "%s(%s, %s) approx %s = %s, expected %s", name, xn.tolist(), yn.tolist(), kw, got.tolist(), want.tolist())
        ensure(np.all((got >= 0) & (got <= 1)), "%s outside [0, 1]: %s", name, got.tolist())
        ensure(np.all(got[np.broadcast_to(xn == yn, shape)] == 0.5), "equality must give one half: %s", got.tolist())
        soft_vals[name] = got
        n += 4
    ensure(np.all(np.abs(soft_vals["greater"] + soft_vals["less"] - 1) <= 1e-6), "greater and less do not sum to one")
    ensure(np.all(np.abs(soft_vals["greater_equal"] + soft_vals["less_equal"] - 1) <= 1e-6), "greater_equal and less_equal do not sum to one")
    return Res(True, (f"fun={c['fun']}", "ties" if np.any(np.broadcast_to(xn == yn, shape)) else "no ties", f"rank={len(shape)}"), n + 2)


@st.composite
def conn_case(draw):
    sa, sb = draw(st.sampled_from(PAIRS))
    return {
        "sa": sa,
        "sb": sb,
        "a": draw(array(truths, sa)),
        "b": draw(array(truths, sb)),
        "tol": draw(st.sampled_from([None, 0.0, 0.25, 0.5, 0.75, 1.0, 0.125])),
    }


def check_conn(c):
    x, xn = arg(c["a"], c["sa"])
    y, yn = arg(c["b"], c["sb"])
    shape = joint(c["sa"], c["sb"])
    n = 0

    def same(got, want, what, dtype=None):
        nonlocal n
        got = np.asarray(got)
        want = np.asarray(want)
        ensure(got.shape == want.shape and (dtype is None or got.dtype == dtype), "%s: %s %s", what, got.dtype, got.shape)
        ensure(np.allclose(got, want, rtol=0, atol=1e-6) if dtype is None else np.array_equal(got, want), "%s on %s, %s = %s, expected %s", what, xn.tolist(), yn.tolist(), got.tolist(), want.tolist())
        n += 1

    # approximate
    kw = {"approx": True}
    same(logical_or(x, y, **kw), np.maximum(xn, yn), "or")
    same(logical_and(x, y, **kw), np.minimum(xn, yn), "and")
    same(logical_not(x, **kw), 1 - xn, "not")
    nx, ny = logical_not(x, **kw), logical_not(y, **kw)
    same(logical_not(logical_and(x, y, **kw), **kw), np.asarray(logical_or(nx, ny, **kw)), "De Morgan (and)")
    same(logical_not(logical_or(x, y, **kw), **kw), np.asarray(logical_and(nx, ny, **kw)), "De Morgan (or)")
    tol = 0.5 if c["tol"] is None else c["tol"]
    t = {} if c["tol"] is None else {"tol": c["tol"]}
    same(is_true(x, **t, **kw), xn > np.float32(1 - tol), "is_true", bool)
    same(is_false(x, **t, **kw), xn < np.float32(tol), "is_false", bool)
    # exact
    bx, by = xn > 0.5, yn > 0.5
    jx, jy = jnp.asarray(bx), jnp.asarray(by)
    if c["sa"] == "py":
        jx = bool(bx)
    if c["sb"] == "py":
        jy = bool(by)
    kw = {"approx": False}
    same(logical_or(jx, jy, **kw), bx | by, "or", bool)
    same(logical_and(jx, jy, **kw), bx & by, "and", bool)
    same(logical_not(jx, **kw), ~bx, "not", bool)
    same(is_true(jx, **t, **kw), bx, "is_true", bool)
    same(is_false(jx, **t, **kw), ~bx, "is_false", bool)
    for ap, one, zero in ((True, 1.0, 0.0), (False, True, False)):
        tv, fv = np.asarray(true_value(approx=ap)), np.asarray(false_value(approx=ap))
        ensure(tv.shape == () and fv.shape == () and tv == one and fv == zero and (tv.dtype == bool) == (not ap) and (fv.dtype == bool) == (not ap), "constants %s, %s", tv, fv)
        ensure(bool(is_true(jnp.asarray(tv), approx=ap)) and bool(is_false(jnp.asarray(fv), approx=ap)) and not bool(is_true(jnp.asarray(fv), approx=ap)) and not bool(is_false(jnp.asarray(tv), approx=ap)), "constants are misjudged")
        n += 2
    return Res(True, (f"tol={c['tol']}", f"rank={len(shape)}"), n)


QSHAPES = [[], [1], [3], [2, 3], [2, 1, 3]]


@st.composite
def quant_case(draw):
    s = draw(st.sampled_from(QSHAPES))
    k = draw(st.integers(1, 4))
    rank = len(s) + 1  # stacking the arguments adds an axis
    axes = [None] + [a for a in range(-rank, rank)]
    axis = draw(st.sampled_from(axes + ([[0, 1], [1, 0], [0, -1]] if rank > 2 else [])))
    return {
        "s": s,
        "k": k,
        "a": [draw(array(truths, s)) for _ in range(k)],
        "axis": axis,
    }


def check_quant(c):
    xs = [np.asarray(a, dtype=np.float32).reshape(c["s"]) for a in c["a"]]
    st_ = np.stack(xs)
    axis = tuple(c["axis"]) if isinstance(c["axis"], list) else c["axis"]
    n = 0
    kws = [{"axis": axis}] + ([{}] if axis is None else [])
    for kw in kws:
        for f, ap, want in (
            (logical_all, True, np.min(st_, axis=axis)),
            (logical_any, True, np.max(st_, axis=axis)),
            (logical_all, False, np.all(st_ > 0.5, axis=axis)),
            (logical_any, False, np.any(st_ > 0.5, axis=axis)),
        ):
            args = [jnp.asarray(x if ap else x > 0.5) for x in xs]
            got = np.asarray(f(*args, approx=ap, **kw))
            ensure(got.shape == want.shape and np.array_equal(got, want) and (got.dtype == bool) == (not ap), "%s(%s, axis=%s, approx=%s) = %s, expected %s", f.__name__, [x.tolist() for x in xs], axis, ap, got.tolist(), want.tolist())
            n += 1
    return Res(c["k"] > 1 or bool(c["s"]), (f"axis={axis}", f"k={c['k']}"), n)


@st.composite
def act_case(draw):
    return {
        "x": draw(st.lists(nums, min_size=1, max_size=8)),
        "alpha": draw(st.integers(1, 1 << 14)),
        "fun": draw(st.sampled_from(["hard", "sig"])),
        "cmp": draw(st.sampled_from([3.0, 6.0])),
    }


def check_act(c):
    alpha = c["alpha"] / 16.0
    x = np.asarray(sorted(c["x"]), dtype=np.float32)
    f = FUNS[c["fun"]]
    n = 0
    ja = jnp.asarray(alpha, dtype=jnp.float32)
    for got in (f(jnp.asarray(x), ja), activation(jnp.asarray(x), ja, f), activation(jnp.asarray(x), alpha=ja, function=f), jnp.stack([f(float(v), ja) for v in x[:1]] + [f(v, ja) for v in jnp.asarray(x)[1:]])):
        got = np.asarray(got, dtype=np.float64)
        z = alpha * x.astype(np.float64)
        want = soft(c["fun"], z)
        tol = 1e-6 + np.minimum(4 * EPS * np.abs(z), 1e-3)
        ensure(got.shape == x.shape and np.all(np.abs(got - want) <= tol), "%s(%s, %s) = %s, expected %s", c["fun"], x.tolist(), alpha, got.tolist(), want.tolist())
        ensure(np.all((got >= 0) & (got <= 1)), "outside [0, 1]")
        ensure(np.all(np.diff(got) >= -1e-7), "not increasing: %s on %s", got.tolist(), x.tolist())
        n += 3
    neg = np.asarray(f(jnp.asarray(-x), ja), dtype=np.float64)
    ensure(np.all(np.abs(neg + got - 1) <= 1e-6), "not symmetric: f(-x) + f(x) = %s on %s", (neg + got).tolist(), x.tolist())
    ensure(float(f(0.0, ja)) == 0.5, "f(0) = %s", f(0.0, ja))
    # strictly increasing inside the transition width
    w = np.asarray(f(jnp.asarray([-c["cmp"] / 4 / alpha, 0.0, c["cmp"] / 4 / alpha]), ja))
    ensure(w[0] < 0.5 < w[2], "no transition: %s", w)
    # derivative: 1/6 (hard) or 1/4 of the slope at zero
    g = float(jax.grad(lambda v: f(v, ja))(0.0))
    want = alpha / (6 if c["fun"] == "hard" else 4)
    ensure(abs(g - want) <= 1e-3 * want, "slope at zero %s, expected %s", g, want)
    # default slope is 100
    got = np.asarray(activation(jnp.asarray(x)), dtype=np.float64)
    ensure(np.all(np.abs(got - soft("hard", 100.0 * x.astype(np.float64))) <= 1e-6 + np.minimum(400 * EPS * np.abs(x), 1e-3)), "default activation on %s gives %s", x.tolist(), got.tolist())
    return Res(True, (c["fun"],), n + 5)


SUBS = [
    Sub("compare", cmp_case(), check_cmp, 3000, 40000, "every case: random shapes, values, ties, slope and activation", weight=1),
    Sub("connect", conn_case(), check_conn, 1500, 20000, "every case", weight=2),
    Sub("quantify", quant_case(), check_quant, 1500, 20000, "several arguments or a non-scalar shape"),
    Sub("activate", act_case(), check_act, 1000, 20000, "every case", weight=2),
]
