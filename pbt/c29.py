"""C29: results depend on the arguments only, not on what was called before or meanwhile."""

import json
import os
import random
import subprocess
import sys
import threading

import jax
import matplotlib as mpl
import numpy as np
from hypothesis import strategies as st

from differt2d import logic

from . import ops
from .core import HarnessError, Res, Sub, ensure

small = st.integers(-64, 64)
point = st.tuples(small, small).map(list)
MIXES = ["WWW", "W", "WW", "WRV", "WV", "", "RW", "WWWW"]


@st.composite
def some_scene(draw, mixes):
    os_ = []
    for k in draw(st.sampled_from(mixes)):
        a, b = draw(point), draw(point)
        os_.append([k, a] if k == "V" else [k, [a, b if a != b else [a[0] + 9, a[1]]]])
    nt, nr = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    names = draw(st.permutations(["a", "b", "tx", "rx"]))
    return {"objs": os_, "tx": [[n, draw(point)] for n in names[:nt]], "rx": [[n, draw(point)] for n in names[-nr:]]}


@st.composite
def arguments(draw, name, scenes):
    s = draw(st.sampled_from(scenes))
    pure = all(o[0] == "W" for o in s["objs"])
    o = {
        "approx": draw(st.booleans()),
        "lo": draw(st.integers(0, 1)),
        "hi": draw(st.integers(0, 2 if len(s["objs"]) < 3 else 1)),
        "cls": draw(st.sampled_from([None, "image", "fermat", "min", "path"] if pure else ["fermat", "min"])),
        "steps": draw(st.sampled_from([0, 3])),
        "key": draw(st.integers(0, 3)),
        "only": draw(st.sampled_from([None, None, "WV", "R", "WR"])),
        "tol": draw(st.sampled_from([None, 16, 256])),
        "patch": draw(st.sampled_from([None, 8])),
        "alpha": draw(st.sampled_from([None, 5.0])),
    }
    return {
        "scene": s,
        "opt": o,
        "n": draw(st.integers(0, 5)),
        "skip": draw(st.sampled_from([None, [], [0], [1], [0, 1]])),
        "f": draw(st.integers(0, 1)),
        "c": draw(st.integers(1, 40)),
        "pts": [draw(point) for _ in range(4)],
        "side": draw(st.integers(0, 1)),
        "loc": draw(st.sampled_from(["N", "E", "S", "W", "C", "NE", "NW", "SE", "SW"])),
        "name": draw(st.sampled_from(["basic_scene", "square_scene", "square_scene_with_wall", "square_scene_with_obstacle"])),
    }


NAMES = sorted(ops.OPS)


@st.composite
def history(draw, shard, length, names=None):
    """Calls, close to each other: a call is often an earlier one with one thing changed."""
    mine = names or [n for i, n in enumerate(NAMES) if i % 4 == shard % 4 or n in ("switch", "wrong", "candidates")]
    scenes = [draw(some_scene([MIXES[shard % 8], MIXES[(shard + 3) % 8]])) for _ in range(2)]
    # The same scene with one object moved
    twin = json.loads(json.dumps(scenes[0]))
    if twin["objs"]:
        k = draw(st.integers(0, len(twin["objs"]) - 1))
        twin["objs"][k] = [twin["objs"][k][0], [[x + 13 for x in p] for p in twin["objs"][k][1]] if twin["objs"][k][0] != "V" else [x + 13 for x in twin["objs"][k][1]]]
    twin["tx"] = [[n, [p[1], p[0]]] for n, p in twin["tx"]]
    scenes.append(twin)
    calls = []
    for i in range(length):
        if calls and draw(st.integers(0, 3)) > 1:
            name, a = json.loads(json.dumps(draw(st.sampled_from(calls))))
            b = draw(arguments(name, scenes))
            what = draw(st.sampled_from(["scene", "n", "skip", "f", "c", "pts", "side", "key", "only", "alpha", "approx", "tol"]))
            if what in a["opt"]:
                a["opt"][what] = b["opt"][what]
            elif what == "scene" and all(o[0] == "W" for o in a["scene"]["objs"]) == all(o[0] == "W" for o in b["scene"]["objs"]) and len(b["scene"]["objs"]) <= len(a["scene"]["objs"]):
                a["scene"] = b["scene"]
            elif what != "scene":
                a[what] = b[what]
            calls.append([name, a])
        else:
            # The simplest history has different calls too
            name = mine[(draw(st.integers(0, len(mine) - 1)) + 5 * i + shard) % len(mine)]
            calls.append([name, draw(arguments(name, scenes))])
    return {"calls": calls, "order": draw(st.integers(0, 10**6))}


def alike(a, b):
    """Equal up to rounding."""
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-5 * (1 + abs(a))
    return type(a) is type(b) and a == b


def world():
    """What calls must leave alone."""
    n = np.random.get_state()
    return {
        "the approximation switch": logic.ENABLE_APPROX,
        "JAX's configuration": [jax.config.jax_enable_x64, jax.config.jax_disable_jit, jax.config.jax_debug_nans, jax.config.jax_default_matmul_precision],
        "NumPy's random state": [n[0], n[1].tolist(), *n[2:]],
        "NumPy's error handling": np.geterr(),
        "Matplotlib's parameters": {k: str(v) for k, v in mpl.rcParams.items()},
        "the environment": dict(os.environ),
        "the directory": os.getcwd(),
    }


def shorten(x):
    s = json.dumps(x)
    return s if len(s) < 400 else s[:400] + "..."


def expected(calls, first):
    return [f"{c[0]}" for c in calls], first


def compare(calls, want, got, order, when):
    for j, out in zip(order, got):
        ensure(alike(want[j], out), "%s gave %s at first and %s %s (%s)", calls[j][0], shorten(want[j]), shorten(out), when, shorten(calls[j]))


def labels(calls, results):
    raised = sum(isinstance(r, list) and r[:1] == ["raised"] for r in results)
    bad = [f"{c[0]} {r[1]} {r[2]}" for c, r in zip(calls, results) if r[:1] == ["raised"] and c[0] != "wrong"] if raised else []
    return tuple(sorted({c[0] for c in calls})) + tuple(f"raised by {b}" for b in bad)


def check_orders(c):
    """The calls in turn, then in another order, some of them twice."""
    calls = c["calls"]
    before = world()
    first = []
    for call in calls:
        out, changed = ops.run(call)
        ensure(not changed, "%s changed its arguments %s (%s)", call[0], changed, shorten(call))
        now = world()
        for k, v in before.items():
            ensure(now[k] == v, "%s changed %s (%s)", call[0], k, shorten(call))
        first.append(out)
    r = random.Random(c["order"])
    order = list(range(len(calls))) + [r.randrange(len(calls)) for _ in range(2)]
    r.shuffle(order)
    compare(calls, first, [ops.run(calls[j])[0] for j in order], order, "after other calls")
    return Res(len({json.dumps(x) for x in calls}) > 1, labels(calls, first), len(order))


def check_fresh(c):
    """The calls in turn, and in the opposite order in a new interpreter."""
    calls = c["calls"]
    first = [ops.run(call)[0] for call in calls]
    order = list(reversed(range(len(calls))))
    p = subprocess.run([sys.executable, "-m", "pbt.ops"], input=json.dumps([calls[j] for j in order]), capture_output=True, text=True, timeout=600, check=False)
    lines = [x for x in p.stdout.splitlines() if x.startswith("RESULTS ")]
    if p.returncode or not lines:
        raise HarnessError(f"no answer from the new interpreter: {p.stderr[-2000:]}")
    got = json.loads(lines[0][8:])
    compare(calls, json.loads(json.dumps(first)), got, order, "in a new interpreter")
    return Res(True, labels(calls, first), len(order))


def check_threads(c):
    """The calls in turn, and at the same time from several threads."""
    calls = [x for x in c["calls"] if x[0] not in ("switch", "plot")]
    first = [ops.run(call)[0] for call in calls]
    n = 4
    start = threading.Barrier(n)
    results, errors = {}, []

    def work(t):
        order = list(range(len(calls)))
        random.Random(c["order"] + t).shuffle(order)
        try:
            start.wait()
            results[t] = (order, [ops.run(calls[j])[0] for j in order])
        except BaseException as e:  # noqa: BLE001
            errors.append(e)

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(t,)) for t in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    if errors:
        raise errors[0]
    for order, got in results.values():
        compare(calls, first, got, order, "in a thread among others")
    return Res(len(calls) > 1, labels(calls, first), n * len(calls))


RULE = "at least two different calls"
SUBS = [
    Sub("orders", lambda sh: history(sh, 6), check_orders, 240, 4800, RULE, weight=30, shards=16),
    Sub("fresh", lambda sh: history(sh, 14, NAMES), check_fresh, 8, 80, "always", weight=900, shards=8),
    Sub("threads", lambda sh: history(sh, 5), check_threads, 64, 1280, RULE, weight=90, shards=8),
]
