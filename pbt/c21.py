"""C21: the minimisers run the requested optimisation and report its result."""

import random

import jax
import jax.numpy as jnp
import numpy as np
import optax
from hypothesis import strategies as st

from differt2d.optimize import minimize, minimize_many_random_uniform, minimize_random_uniform

from . import gen
from .core import Res, Sub, ensure
from .lib import A, J, f32, key

# --- objectives: library side, and NumPy value and gradient -------------------------


def quad(x, a, b):
    return jnp.sum(a * (x - b) ** 2)


def quad_np(x, a, b):
    return (a * (x - b) ** 2).sum(), 2 * a * (x - b)


def quart(x, a, b):
    d = x - b
    return jnp.sum(d**4 / 4 - a * d**2 / 2) + 0.3 * jnp.sum(d)


def quart_np(x, a, b):
    d = x - b
    return (d**4 / 4 - a * d**2 / 2).sum() + 0.3 * d.sum(), d**3 - a * d + 0.3


def wave(x, a, b):
    return jnp.sum(jnp.sin(2.0 * x * a + b)) + 0.1 * jnp.sum(x * x)


def wave_np(x, a, b):
    u = 2.0 * x * a + b
    return np.sin(u).sum() + 0.1 * (x * x).sum(), 2.0 * a * np.cos(u) + 0.2 * x


def chain(x, a, b):
    y = jnp.concatenate([x, jnp.ones(1)])
    return jnp.sum(a * (y[1:] - y[:-1] ** 2) ** 2 + (y[:-1] - b) ** 2)


def chain_np(x, a, b):
    y = np.concatenate([x, [1.0]])
    r = y[1:] - y[:-1] ** 2
    g = np.zeros_like(y)
    g[1:] += 2 * a * r
    g[:-1] += -4 * a * r * y[:-1] + 2 * (y[:-1] - b)
    return (a * r**2 + (y[:-1] - b) ** 2).sum(), g[:-1]


def fixed(x):
    return jnp.sum((x - 0.7) ** 2) + 0.5 * jnp.sum(jnp.cos(3.0 * x))


def fixed_np(x):
    return ((x - 0.7) ** 2).sum() + 0.5 * np.cos(3 * x).sum(), 2 * (x - 0.7) - 1.5 * np.sin(3 * x)


FUNS = {"quad": (quad, quad_np, 2), "quart": (quart, quart_np, 2), "wave": (wave, wave_np, 2), "chain": (chain, chain_np, 2), "fixed": (fixed, fixed_np, 0)}

# --- optimisers: library side, and NumPy step ---------------------------------------


def slowing(c):
    """A step that depends on how many steps were taken."""
    return optax.GradientTransformation(
        lambda x: jnp.zeros((), jnp.int32),
        lambda g, n, p=None: (jax.tree_util.tree_map(lambda v: -c * v / (1.0 + n), g), n + 1),
    )


def adam_np(lr):
    def run(fun, x, steps, *args, noise=lambda: 0.0):
        m = np.zeros_like(x)
        v = np.zeros_like(x)
        for t in range(1, steps + 1):
            g = fun(x, *args)[1]
            m = 0.9 * m + 0.1 * g
            v = 0.999 * v + 0.001 * g * g
            # 0.999**t is near one: its rounding counts for much
            x = x - lr * (m / (1 - 0.9**t + noise())) / (np.sqrt(v / (1 - 0.999**t + noise())) + 1e-8)
        return x

    return run


def sgd_np(lr, momentum=0.0, slow=False):
    def run(fun, x, steps, *args, noise=None):
        tr = np.zeros_like(x)
        for t in range(steps):
            g = fun(x, *args)[1]
            tr = g + momentum * tr
            x = x - lr * tr / ((1 + t) if slow else 1)
        return x

    return run


OPTS = {
    "default": (None, adam_np(0.1)),
    "adam .02": (optax.adam(0.02), adam_np(0.02)),
    "adam .5": (optax.adam(0.5), adam_np(0.5)),
    "sgd .05": (optax.sgd(0.05), sgd_np(0.05)),
    "sgd 0": (optax.sgd(0.0), sgd_np(0.0)),
    "momentum": (optax.sgd(0.02, momentum=0.8), sgd_np(0.02, 0.8)),
    "slowing": (slowing(0.2), sgd_np(0.2, slow=True)),
}
STEPS = [None, 0, 1, 2, 3, 5, 10, 17, 40, 101, 150]


def combos(shard, k):
    """What is compiled in a shard."""
    r = random.Random(1000 + shard)
    out = []
    for i in range(k):
        opt = "default" if (shard + i) % 3 == 0 else r.choice(sorted(OPTS))
        steps = None if i == 0 else r.choice(STEPS)
        out.append([r.choice(sorted(FUNS)), opt, steps, r.choice([1, 1, 2, 3, 5])])
    return out


def values(n, lo=-128, hi=128):
    return st.lists(st.integers(lo, hi), min_size=n, max_size=n)


@st.composite
def case(draw, shard):
    fun, opt, steps, n = draw(st.sampled_from(combos(shard, 6)))
    return {
        "fun": fun,
        "opt": opt,
        "steps": steps,
        "n": n,
        "x0": draw(values(n)),
        "a": draw(values(n, 8, 96)),
        "b": draw(values(n)),
        "key": draw(gen.keys()),
    }


def setup(c):
    f, fnp, k = FUNS[c["fun"]]
    arrays = [f32(c["a"], 6), f32(c["b"], 6)][:k]
    return f, fnp, tuple(J(v) for v in arrays), tuple(v.astype(float) for v in arrays)


def kwargs_of(c, args):
    kw = {}
    if args:
        kw["args"] = args
    if c["steps"] is not None:
        kw["steps"] = c["steps"]
    if OPTS[c["opt"]][0] is not None:
        kw["optimizer"] = OPTS[c["opt"]][0]
    return kw


def expected(c, fnp, x0, args):
    """The last iterate and how much 32-bit rounding may move it; None if too sensitive."""
    run = OPTS[c["opt"]][1]
    steps = 100 if c["steps"] is None else c["steps"]
    if "adam" in c["opt"] or c["opt"] == "default":
        # the first step is the sign of the gradient
        g = np.abs(fnp(x0, *args)[1])
        if np.any((g < 1e-2) & (g != 0)):
            return None
    x = run(fnp, x0, steps, *args)
    if not np.all(np.isfinite(x)) or np.abs(x).max() > 1e4:
        return None
    tol = 0.0
    rng = np.random.default_rng(0)
    for _ in range(3):
        d = rng.choice([-1.0, 1.0], x0.shape) * 4e-7 * (1 + np.abs(x0))

        def rough(y, *a):
            v, g = fnp(y, *a)
            return v, g * (1 + 1e-6 * rng.standard_normal(g.shape)) + 2e-7 * rng.standard_normal(g.shape)

        tol = max(tol, np.abs(run(rough, x0 + d, steps, *args, noise=lambda: 1e-7 * rng.choice([-1.0, 1.0])) - x).max())
    tol = 10 * tol + 2e-6 * (1 + np.abs(x).max())
    return (x, tol) if tol < 0.02 else None


def check_loss(x, loss, fnp, args, what):
    v, g = fnp(x, *args)
    scale = 1 + abs(v) + np.abs(g).sum() * (1 + np.abs(x).max()) + sum(np.abs(a).sum() for a in args)
    ensure(abs(float(loss) - v) <= 4e-6 * scale, "%s: the loss is %s, the objective at the returned point %s is %s", what, loss, x, v)


def check_minimize(c):
    f, fnp, args, nargs = setup(c)
    x0 = f32(c["x0"], 6)
    x, loss = minimize(f, jnp.asarray(x0), **kwargs_of(c, args))
    what = f"{c['fun']} with {c['opt']}, {c['steps']} steps"
    ensure(np.shape(x) == x0.shape and np.shape(loss) == (), "%s: shapes %s and %s", what, np.shape(x), np.shape(loss))
    x = A(x)
    decided = False
    want = expected(c, fnp, x0.astype(float), nargs)
    if np.all(np.isfinite(x)) and np.abs(x).max() < 1e4:
        check_loss(x, loss, fnp, nargs, what)
    if want is not None:
        decided = True
        ensure(np.abs(x - want[0]).max() <= want[1], "%s from %s: the last iterate is %s instead of %s (tolerance %s)", what, x0, x, want[0], want[1])
    return Res(decided and c["steps"] != 0, (c["fun"], c["opt"], f"steps={c['steps']}", "decided" if decided else "too sensitive"), 3)


def start_of(k, n):
    """The random start: one trial that does not move."""
    return A(minimize_random_uniform(FUNS["fixed"][0], key=key(k), n=n, steps=1, optimizer=OPTS["sgd 0"][0])[0])


def check_random(c):
    f, fnp, args, nargs = setup(c)
    n, k = c["n"], c["key"]
    s = start_of(k, n)
    ensure(s.shape == (n,) and np.all((s >= 0) & (s < 1)), "the start is %s", s)
    ensure(np.array_equal(s, start_of(k, n)), "two starts with the same key differ")
    ensure(not np.array_equal(s, start_of(k ^ 1, n)), "two different keys give the start %s", s)
    if n > 1:
        ensure(len(set(s)) == n, "the start has equal components: %s", s)
    x, loss = minimize_random_uniform(f, key=key(k), n=n, **kwargs_of(c, args))
    x = A(x)
    what = f"{c['fun']} with {c['opt']}, {c['steps']} steps from a random start"
    ensure(x.shape == (n,), "%s: shape %s", what, x.shape)
    if np.all(np.isfinite(x)) and np.abs(x).max() < 1e4:
        check_loss(x, loss, fnp, nargs, what)
    want = expected(c, fnp, s, nargs)
    if want is not None:
        ensure(np.abs(x - want[0]).max() <= want[1], "%s %s: the last iterate is %s instead of %s", what, s, x, want[0])
    return Res(want is not None and c["steps"] != 0, (c["fun"], c["opt"]), 7)


# --- several trials -----------------------------------------------------------------

SEEN = []


def watch(x, a, b):
    jax.debug.callback(lambda v: SEEN.append(np.array(v)), x)
    return quart(x, a, b)


MANY = [None, 2, 3, 5, 17, 1, 4, 30]


@st.composite
def many_case(draw, shard):
    fun, opt, steps, n = draw(st.sampled_from(combos(shard + 100, 3)))
    many = draw(st.sampled_from([MANY[shard % 8], MANY[(shard + 3) % 8]]))
    return {
        "fun": "quart",
        "opt": opt,
        "steps": steps,
        "n": n,
        "many": many,
        "a": draw(values(n, 8, 96)),
        "b": draw(values(n, -32, 96)),
        "key": draw(gen.keys()),
    }


def check_many(c):
    n, many = c["n"], c["many"]
    kw = {} if many is None else {"many": many}
    trials = 10 if many is None else many
    _, fnp, args, nargs = setup(c)
    # Where the trials start: the points at which a run that never moves calls the objective
    SEEN.clear()
    x, loss = minimize_many_random_uniform(watch, key=key(c["key"]), n=n, steps=1, optimizer=OPTS["sgd 0"][0], args=args, **kw)
    jax.block_until_ready((x, loss))
    jax.effects_barrier()
    starts = np.unique(np.array(SEEN, dtype=np.float64).reshape(-1, n), axis=0)
    what = f"{trials} trials of {c['opt']}, {c['steps']} steps"
    ensure(len(starts) == trials, "%s: %s different starts", what, len(starts))
    ensure(np.all((starts >= 0) & (starts < 1)), "%s: starts outside [0, 1): %s", what, starts)
    vals = np.array([fnp(s, *nargs)[0] for s in starts])
    x = A(x)
    ensure(any(np.array_equal(x, s) for s in starts), "%s: %s is none of the trials %s", what, x, starts)
    ensure(fnp(x, *nargs)[0] <= vals.min() + 1e-5 * (1 + np.abs(vals).max()), "%s: %s has value %s, another trial %s", what, x, fnp(x, *nargs)[0], vals.min())
    check_loss(x, loss, fnp, nargs, what)
    # The real run: the best of the runs from these starts
    x, loss = minimize_many_random_uniform(quart, key=key(c["key"]), n=n, **kwargs_of(c, args), **kw)
    x = A(x)
    ensure(x.shape == (n,) and np.shape(loss) == (), "%s: shapes %s, %s", what, x.shape, np.shape(loss))
    finals = [expected(c, fnp, s, nargs) for s in starts]
    ok = [w for w in finals if w is not None]
    if np.all(np.isfinite(x)):
        check_loss(x, loss, fnp, nargs, what)
    for w in ok:
        v, g = fnp(w[0], *nargs)
        slack = 2 * w[1] * (np.abs(g).sum() + 10 * n * (1 + np.abs(w[0]).max() ** 2) * w[1]) + 1e-5 * (1 + abs(v))
        ensure(float(loss) <= v + slack, "%s: the loss is %s although a trial ends at %s with %s", what, loss, w[0], v)
    if len(ok) == trials:
        ensure(any(np.abs(x - w[0]).max() <= w[1] for w in ok), "%s: %s is where no trial ends (%s)", what, x, [w[0] for w in ok])
    return Res(trials > 1, (f"many={many}", c["opt"], "decided" if len(ok) == trials else "partly"), 5 + len(ok))


def check_uniform(c):
    """The starts of many keys fill the hypercube (wrong bounds with probability below 1e-8)."""
    n = c["n"]
    ks = jax.random.split(key(c["key"]), 400)
    f = lambda k: minimize_random_uniform(FUNS["fixed"][0], key=k, n=n, steps=0, optimizer=OPTS["sgd 0"][0])[0]  # noqa: E731
    s = A(jax.vmap(f)(ks))
    ensure(s.shape == (400, n) and np.all((s >= 0) & (s < 1)), "starts from %s to %s", s.min(), s.max())
    for j in range(n):
        q = np.sort(s[:, j])
        d = np.abs(q - (np.arange(400) + 0.5) / 400).max()
        ensure(d < 0.18, "component %s of the starts is not uniform (distance %s)", j, d)
        for i in range(j):
            r = np.corrcoef(s[:, i], s[:, j])[0, 1]
            ensure(abs(r) < 0.35, "components %s and %s of the starts are correlated: %s", i, j, r)
    return Res(True, (f"n={n}",), 2 * n)


SUBS = [
    Sub("trajectory", lambda k: case(k), check_minimize, 600, 20000, "at least one step, insensitive to rounding", weight=30, more=8),
    Sub("random", lambda k: case(k), check_random, 240, 6000, "at least one step, insensitive to rounding", weight=60, more=8),
    Sub("many", lambda k: many_case(k), check_many, 120, 4000, "several trials", weight=200, more=8),
    Sub("uniform", st.fixed_dictionaries({"n": st.sampled_from([1, 2, 5]), "key": gen.keys()}), check_uniform, 16, 200, "every case", weight=100),
]
