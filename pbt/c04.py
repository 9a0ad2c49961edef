"""C04: path candidates are all and only the admissible object sequences."""

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import RIS, Vertex, Wall
from differt2d.scene import Scene
from differt2d.scene import all_path_candidates as low_level

from . import ref
from .core import Res, Sub, ensure
from .lib import J

KINDS = "WRV"
MAXLEN = 2600  # sequences per call


def count(n, lo, hi):
    tot = 0
    for k in range(lo, hi + 1):
        tot += 1 if k == 0 else (n * (n - 1) ** (k - 1) if n else 0)
    return tot


FILTERS = {
    "all": (lambda o: True, "WRV"),
    "none": (lambda o: False, ""),
    "W": (lambda o: type(o) is Wall, "W"),
    "R": (lambda o: isinstance(o, RIS), "R"),
    "V": (lambda o: isinstance(o, Vertex), "V"),
    "notV": (lambda o: not isinstance(o, Vertex), "WR"),
    "notR": (lambda o: not isinstance(o, RIS), "WV"),
    "walls": (lambda o: isinstance(o, Wall), "WR"),
}


@st.composite
def call(draw, n):
    top = 5 if n > 3 else 8
    lo = draw(st.integers(0, top))
    hi = draw(st.integers(0, top)) if draw(st.integers(0, 3)) == 0 else min(top, lo + draw(st.integers(0, 2)))
    order = draw(st.sampled_from([None, None, None, 0, 1, 2, 3, 4, 5, top]))
    a, b = (lo, hi) if order is None else (order, order)
    # Keep the number of sequences affordable
    while count(n, a, b) > MAXLEN:
        if order is not None:
            order -= 1
        elif hi > lo:
            hi -= 1
        else:
            lo, hi = lo - 1, hi - 1
        a, b = (lo, hi) if order is None else (order, order)
    how = draw(st.sampled_from(["minmax", "minmax", "max", "min", "default", "positional"])) if order is None else draw(st.sampled_from(["order", "order+minmax"]))
    c = {"how": how, "lo": lo, "hi": hi, "order": order, "filter": draw(st.sampled_from([None, None, *FILTERS]))}
    if how == "max":
        c["lo"] = 0
        if count(n, 0, hi) > MAXLEN:
            c["hi"] = 2
    if how == "min":
        c["hi"] = 1
    if how == "default":
        c["lo"], c["hi"] = 0, 1
    if how == "order+minmax":
        # any limits, which the order must override
        c["lo"], c["hi"] = draw(st.integers(0, 3)), draw(st.integers(0, 3))
    return c


@st.composite
def cases(draw):
    kinds = draw(st.one_of(st.text("W", max_size=12), st.text(KINDS, max_size=6), st.text(KINDS, min_size=2, max_size=5), st.text(KINDS, min_size=7, max_size=12)))
    n = len(kinds)
    return {"kinds": kinds, "calls": draw(st.lists(call(n), min_size=1, max_size=4))}


def make(kinds):
    os = []
    for i, k in enumerate(kinds):
        seg = J([[i, 0.5], [i + 1.0, 0.25 * i]])
        os.append({"W": lambda: Wall(xys=seg), "R": lambda: RIS(xys=seg), "V": lambda: Vertex(xy=seg[0])}[k]())
    return os


def kw_of(c):
    how = c["how"]
    kw = {}
    if how in ("minmax", "max", "order+minmax"):
        kw["max_order"] = c["hi"]
    if how in ("minmax", "min", "order+minmax"):
        kw["min_order"] = c["lo"]
    if c["order"] is not None:
        kw["order"] = c["order"]
    args = (c["lo"], c["hi"]) if how == "positional" else ()
    lo, hi = (c["lo"], c["hi"]) if c["order"] is None else (c["order"], c["order"])
    return args, kw, lo, hi


def compare(got, n, lo, hi, keep, what):
    want = ref.candidates(n, lo, hi, keep)
    ensure(isinstance(got, list), "%s: result is a %s", what, type(got))
    seqs = []
    for g in got:
        a = np.asarray(g)
        ensure(a.ndim == 1 and np.issubdtype(a.dtype, np.integer), "%s: candidate %s of dtype %s", what, a, a.dtype)
        seqs.append(tuple(int(i) for i in a))
    flat = [s for k in sorted(want) for s in want[k]]
    missing = set(flat) - set(seqs)
    extra = set(seqs) - set(flat)
    ensure(not missing and not extra, "%s: missing %s, unexpected %s (of %s)", what, sorted(missing)[:5], sorted(extra)[:5], len(flat))
    ensure(len(seqs) == len(flat), "%s: %s sequences for %s distinct ones", what, len(seqs), len(flat))
    lens = [len(s) for s in seqs]
    ensure(lens == sorted(lens), "%s: not by increasing length: %s", what, lens)
    return seqs


def check(case):
    kinds = case["kinds"]
    n = len(kinds)
    objs = make(kinds)
    scene = Scene(objects=objs)
    results = {}
    big, tot = 0, 0
    for c in case["calls"]:
        args, kw, lo, hi = kw_of(c)
        keep = None
        kwf = dict(kw)
        if c["filter"] is not None:
            fun, ks = FILTERS[c["filter"]]
            kwf["filter_objects"] = fun
            keep = [i for i, k in enumerate(kinds) if k in ks]
        seqs = compare(scene.all_path_candidates(*args, **kwf), n, lo, hi, keep, f"{kinds!r} {c}")
        key = repr(c)
        if key in results:
            ensure(results[key] == seqs, "two identical calls differ: %s", c)
        results[key] = seqs
        kl = dict(kw)
        if keep is not None:
            kl["filter_nodes"] = tuple(i for i in range(n) if i not in keep)
        seqs2 = compare(low_level(n, *args, **kl), n, lo, hi, keep, f"all_path_candidates({n}, {args}, {kl})")
        ensure(set(seqs2) == set(seqs), "the scene and the low-level function differ")
        big = max(big, len(seqs))
        tot += len(seqs) + 2
    # Again, in the opposite order: nothing is remembered
    for c in reversed(case["calls"]):
        if repr(c) in results and sum(map(len, results.values())) < 600:
            args, kw, lo, hi = kw_of(c)
            if c["filter"] is not None:
                kw["filter_objects"] = FILTERS[c["filter"]][0]
            again = [tuple(int(i) for i in np.asarray(g)) for g in scene.all_path_candidates(*args, **kw)]
            ensure(again == results[repr(c)], "the call %s gives something else later", c)
            tot += 1
    return Res(n >= 2 and big >= 2, (f"objects={n}", f"filters={sum(c['filter'] is not None for c in case['calls'])}", f"sequences={'<10' if big < 10 else '<100' if big < 100 else '>=100'}"), tot)


# Any subset of nodes may be left out of the low-level enumeration
@st.composite
def low_cases(draw):
    n = draw(st.one_of(st.integers(3, 8), st.integers(0, 8), st.integers(9, 14)))
    out = draw(st.lists(st.integers(0, max(0, n - 1)), max_size=draw(st.sampled_from([1, 2, 3, n])), unique=True)) if n else []
    m = n - len(out)
    lo = draw(st.integers(0, 5))
    hi = draw(st.integers(0, 6)) if draw(st.integers(0, 4)) == 0 else lo + draw(st.integers(0, 2))
    while count(m, lo, hi) > MAXLEN:
        hi -= 1
        lo = min(lo, max(0, hi))
    return {"n": n, "out": out, "lo": lo, "hi": hi}


def check_low(c):
    keep = [i for i in range(c["n"]) if i not in c["out"]]
    got = low_level(c["n"], c["lo"], c["hi"], filter_nodes=tuple(c["out"]))
    seqs = compare(got, c["n"], c["lo"], c["hi"], keep, str(c))
    return Res(len(keep) >= 2 and len(seqs) >= 2, (f"kept={len(keep)}",), len(seqs) + 1)


SUBS = [
    Sub("histories", cases(), check, 320, 6000, "at least two objects and two sequences"),
    Sub("filters", low_cases(), check_low, 320, 6000, "at least two kept objects and two sequences"),
]
