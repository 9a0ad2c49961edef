"""Scene cases shared by the tracing properties."""

import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .lib import PHI, f32, obj, pt

NAMES = ["tx", "rx", "a", "b", "tx_0", "Zürich", "node 1", "z", "0"]


@st.composite
def nodes(draw, sty, lo, hi, seg=()):
    """Named positions: free, on a wall's line, or shared."""
    k = draw(st.integers(max(lo, min(1, hi)), hi))
    if lo == 0 and draw(st.integers(0, 9)) == 9:
        k = 0
    nm = draw(st.permutations(NAMES))[:k]
    out = []
    for name in nm:
        p = draw(gen.point(sty))
        out.append([name, p])
    return out


@st.composite
def wall_scene(draw, n_walls, tx=(1, 2), rx=(1, 2), styles=("unit", "fine", "fine", "lattice8", "tiny")):
    s = draw(gen.style(*styles))
    ws = draw(gen.walls(s, n_walls, n_walls))
    return {
        "e": gen.exp_of(s),
        "style": s,
        "walls": ws,
        "tx": draw(nodes(s, *tx)),
        "rx": draw(nodes(s, *rx)),
    }


def build(c):
    """The library's scene, and the reference's (name, position) lists and objects."""
    from differt2d.scene import Scene

    e = c["e"]
    os = c["objs"] if "objs" in c else [["W", w] for w in c["walls"]]
    scene = Scene(
        transmitters={n: pt(p, e) for n, p in c["tx"]},
        receivers={n: pt(p, e) for n, p in c["rx"]},
        objects=[obj(o, e) for o in os],
    )
    txs = [(n, f32(p, e).astype(np.float64)) for n, p in c["tx"]]
    rxs = [(n, f32(p, e).astype(np.float64)) for n, p in c["rx"]]
    ro = [(o[0], f32(o[1], e).astype(np.float64), *[v / PHI for v in o[2:]]) for o in os]
    return scene, txs, rxs, ro


def fixed_points(os, cand):
    return [os[j] for j in cand]
