"""C20: nearest-node queries and pair enumeration."""

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import Point, Vertex, Wall, closest_point
from differt2d.scene import Scene

from . import gen
from .core import Res, Sub, ensure
from .lib import A, J, f32, pt

NAMES = [*(f"n{i}" for i in range(40)), "tx", "rx", "b", "a", "tx_10", "tx_2", "Zürich", "node 1", "z", "0", "", "B"]
COUNTS = [(1, 2), (2, 1), (3, 5), (4, 1), (5, 3), (12, 2), (2, 36), (17, 4)]


def cases(shard):
    @st.composite
    def build(draw):
        s = draw(gen.style("fine", "lattice", "lattice8", "lattice", "wide", "tiny"))
        counts = COUNTS[shard % 8]
        c = {"e": gen.exp_of(s), "style": s, "target": draw(gen.point(s))}
        pool = [draw(gen.point(s)) for _ in range(draw(st.integers(1, 12)))]
        for k, n in zip(("tx", "rx"), counts):
            nm = draw(st.permutations(NAMES))[:n]
            ps = [draw(st.sampled_from(pool)) if draw(st.integers(0, 3)) == 0 else draw(gen.point(s)) for _ in nm]
            if draw(st.booleans()):
                # symmetric about the target: exact ties
                i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
                d = [a - b for a, b in zip(ps[i], c["target"])]
                d = draw(st.sampled_from([[-d[0], d[1]], [d[0], -d[1]], [d[1], d[0]], [-d[1], d[0]]]))
                ps[j] = [a + b for a, b in zip(c["target"], d)]
            c[k] = [list(t) for t in zip(nm, ps)]
        c["walls"] = draw(st.integers(0, 1))
        return c

    return build()


def judge(name_or_index, dist, nodes, target, exact, what):
    """nodes: list of (name, xy)."""
    d = np.array([np.hypot(*(xy - target)) for _, xy in nodes])
    d2 = np.array([((xy - target) ** 2).sum() for _, xy in nodes])
    scale = max(np.abs(target).max(), max(np.abs(xy).max() for _, xy in nodes), 1e-30)
    tol = 2e-6 * scale
    names = [n for n, _ in nodes]
    ensure(name_or_index in names, "%s: %r is not a node", what, name_or_index)
    i = names.index(name_or_index)
    dist = float(dist)
    ensure(abs(dist - d[i]) <= tol, "%s: the distance to %r is %s, not %s", what, name_or_index, d[i], dist)
    ensure(d[i] <= d.min() + tol, "%s: %r at %s is returned, %r is at %s", what, name_or_index, d[i], names[int(d.argmin())], d.min())
    if exact:
        # squares and sums are exact in 32 bits, so equal ones are equal there too
        ensure(i == int(np.argmin(d2)), "%s: %r is returned, the first of the nearest nodes is %r (squared distances %s)", what, names[i], names[int(np.argmin(d2))], d2.tolist())
    return int((d2 == d2.min()).sum())


def check(c):
    e = c["e"]
    exact = c["style"].startswith("lattice")
    lists = {k: [(n, f32(p, e).astype(float)) for n, p in c[k]] for k in ("tx", "rx")}
    scene = Scene(
        transmitters={n: pt(p, e) for n, p in c["tx"]},
        receivers={n: pt(p, e) for n, p in c["rx"]},
        objects=[Wall(xys=J(np.array([[0, 0], [1, 1]])))] * c["walls"],
    )
    target = f32(c["target"], e)
    ties = 1
    for k, f in (("tx", scene.get_closest_transmitter), ("rx", scene.get_closest_receiver)):
        r = f(jnp.asarray(target))
        ensure(isinstance(r, tuple) and len(r) == 2 and type(r[0]) is str and np.shape(r[1]) == (), "the answer is %s", r)
        ties = max(ties, judge(*r, lists[k], target.astype(float), exact, f.__name__))
        i, dist = closest_point(J(np.stack([p for _, p in lists[k]])), jnp.asarray(target))
        judge(lists[k][int(i)][0], dist, lists[k], target.astype(float), exact, "closest_point")
    return Res(max(len(c["tx"]), len(c["rx"])) > 1, ("ties" if ties > 1 else "no tie", c["style"]), 8)


@st.composite
def pair_cases(draw):
    s = draw(gen.style("fine", "lattice"))
    c = {"e": gen.exp_of(s)}
    for k in ("tx", "rx"):
        nm = draw(st.permutations(NAMES))[: draw(st.integers(0, 5))]
        c[k] = [[n, draw(gen.point(s))] for n in nm]
    c["vertex"] = draw(st.booleans())
    return c


def check_pairs(c):
    e = c["e"]
    cls = Vertex if c["vertex"] else Point
    scene = Scene(transmitters={n: pt(p, e, cls) for n, p in c["tx"]}, receivers={n: pt(p, e) for n, p in c["rx"]})
    got = []
    for (tn, t), (rn, r) in scene.all_transmitter_receiver_pairs():
        ensure(type(t) is cls and type(r) is Point, "a pair holds %s and %s", type(t), type(r))
        got.append((tn, tuple(np.asarray(t.xy)), rn, tuple(np.asarray(r.xy))))
    want = [(tn, tuple(f32(t, e)), rn, tuple(f32(r, e))) for tn, t in c["tx"] for rn, r in c["rx"]]
    ensure(got == want, "the pairs are %s instead of %s", got, want)
    return Res(len(want) > 1, (f"pairs={min(4, len(want))}",), len(want) + 1)


SUBS = [
    Sub("nearest", cases, check, 1600, 40000, "at least two nodes of one kind", weight=20),
    Sub("pairs", pair_cases(), check_pairs, 400, 5000, "at least two pairs", weight=5),
]
