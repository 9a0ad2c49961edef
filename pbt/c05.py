"""C05: traced paths do not depend on frame, labelling or direction."""

import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import Point, Wall
from differt2d.scene import Scene

from . import gen, ref, scenes
from .core import Res, Sub, ensure
from .lib import A, J, f32

SIZES = [[4], [5], [6], [4, 3], [3, 1], [7], [2, 5], [4]]


def cases(shard):
    @st.composite
    def case(draw):
        n = draw(st.sampled_from(SIZES[shard % 8]))
        c = draw(scenes.wall_scene(n, styles=("unit", "fine", "fine")))
        c["orders"] = draw(st.sampled_from([[0, 1], [0, 2], [0, 2], [1, 2]] + ([[0, 3]] if n <= 3 else [])))
        c["motion"] = {
            "kind": draw(st.sampled_from(["rotate", "mirror", "shift", "scale", "all"])),
            "angle": draw(gen.spread(-3141, 3141)),
            "shift": [draw(gen.spread(-4000, 4000)), draw(gen.spread(-4000, 4000))],
            "scale": draw(st.sampled_from([-26, -14, -8, -3, -1, 1, 3, 5, 10, 20])),
            "mirror": draw(st.booleans()),
        }
        c["perm"] = draw(st.permutations(list(range(n))))
        c["flips"] = draw(st.integers(1, 2**n - 1))
        c["rename"] = draw(st.permutations(["n0", "n1", "n2", "n3"]))
        c["extra"] = draw(gen.segment(c["style"]))
        c["far"] = [draw(st.integers(0, 7)), draw(st.integers(1, 60)), draw(st.integers(-50, 50))]
        c["views"] = draw(st.lists(st.sampled_from(["motion", "relabel", "swap", "extra"]), min_size=2, max_size=3, unique=True))
        return c

    return case()


class World:
    """A scene as plain 32-bit coordinates."""

    def __init__(self, walls, txs, rxs):
        self.walls = [np.asarray(w, dtype=np.float32) for w in walls]
        self.txs = [(n, np.asarray(p, dtype=np.float32)) for n, p in txs]
        self.rxs = [(n, np.asarray(p, dtype=np.float32)) for n, p in rxs]

    def trace(self, lo, hi):
        scene = Scene(
            transmitters={n: Point(xy=J(p)) for n, p in self.txs},
            receivers={n: Point(xy=J(p)) for n, p in self.rxs},
            objects=[Wall(xys=J(w)) for w in self.walls],
        )
        out = {}
        for t, r, path, cd in scene.all_valid_paths(approx=False, min_order=lo, max_order=hi):
            k = (t, r, tuple(int(i) for i in cd))
            ensure(k not in out, "path %s twice", k)
            out[k] = A(path.xys)
        return out

    def judge(self, lo, hi):
        """The candidates on which rounding cannot matter: key -> reference path."""
        ro = [("W", w.astype(np.float64)) for w in self.walls]
        cands = [cd for k, v in sorted(ref.candidates(len(ro), lo, hi).items()) for cd in sorted(v)]
        out = {}
        for tn, tp in self.txs:
            for rn, rp in self.rxs:
                for cd in cands:
                    t = ref.Traced(tp.astype(np.float64), [ro[j] for j in cd], rp.astype(np.float64))
                    if t.valid(ro, [ro[j] for j in cd], cd) is not None:
                        out[tn, rn, cd] = t
        return out


def moved(c, w):
    m = c["motion"]
    k = m["kind"]
    a = m["angle"] / 1000.0 if k in ("rotate", "all") else 0.0
    s = 2.0 ** (m["scale"] / 2.0) if k in ("scale", "all") else 1.0
    R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    if k == "mirror" or (k == "all" and m["mirror"]):
        R = R @ np.diag([-1.0, 1.0])
    d = np.array(m["shift"]) / 1000.0 if k in ("shift", "all") else np.zeros(2)

    def f(p):
        return s * (np.asarray(p, dtype=np.float64) @ R.T) + s * d

    g = World([f(x) for x in w.walls], [(n, f(p)) for n, p in w.txs], [(n, f(p)) for n, p in w.rxs])
    return g, f, s


def same(what, a, ja, b, jb, keymap, pointmap, stats):
    """Every decided candidate of `a` is traced alike in `b`, and conversely."""
    for k, t in ja.items():
        k2 = keymap(k)
        if k2 not in jb:
            continue
        stats[0] += 1
        ensure((k in a) == (k2 in b), "%s: path %s is %s, but %s is %s", what, k, "valid" if k in a else "invalid", k2, "valid" if k2 in b else "invalid")
        if k in a:
            stats[1] += len(k[2]) > 0
            p, q = pointmap(a[k]), b[k2]
            e = 4 * t.err + 4 * jb[k2].err + 1e-6 * np.abs(q).max()
            ensure(p.shape == q.shape and np.all(np.abs(p - q) <= e * max(1.0, np.abs(q).max() / max(1e-9, np.abs(a[k]).max()))), "%s: path %s goes through %s, expected %s", what, k2, q.tolist(), p.tolist())
    image = {keymap(k) for k in ja}
    for k2 in b:
        if k2 in jb:
            ensure(k2 in image or k2[2] not in {k[2] for k in image}, "%s: path %s comes from nowhere", what, k2)


def check(c):
    lo, hi = c["orders"]
    w = World([f32(x, c["e"]) for x in c["walls"]], [(n, f32(p, c["e"])) for n, p in c["tx"]], [(n, f32(p, c["e"])) for n, p in c["rx"]])
    base, judged = w.trace(lo, hi), w.judge(lo, hi)
    stats = [0, 0]
    n = len(w.walls)
    if "motion" in c["views"]:
        g, f, s = moved(c, w)
        same(f"moving the scene {c['motion']}", base, judged, g.trace(lo, hi), g.judge(lo, hi), lambda k: k, f, stats)
    if "relabel" in c["views"]:
        perm = c["perm"]  # new object i is the old object perm[i]
        walls = [w.walls[j][::-1] if c["flips"] >> j & 1 else w.walls[j] for j in perm]
        inv = {j: i for i, j in enumerate(perm)}
        ren = dict(zip([n_ for n_, _ in w.txs], c["rename"]))
        ren_r = dict(zip([n_ for n_, _ in w.rxs], c["rename"]))
        g = World(walls, [(ren[a], p) for a, p in reversed(w.txs)], [(ren_r[a], p) for a, p in reversed(w.rxs)])
        same("relabelling", base, judged, g.trace(lo, hi), g.judge(lo, hi), lambda k: (ren[k[0]], ren_r[k[1]], tuple(inv[i] for i in k[2])), lambda p: p, stats)
    if "swap" in c["views"]:
        g = World(w.walls, w.rxs, w.txs)
        same("exchanging transmitters and receivers", base, judged, g.trace(lo, hi), g.judge(lo, hi), lambda k: (k[1], k[0], k[2][::-1]), lambda p: p[::-1], stats)
    if "extra" in c["views"]:
        g = World([*w.walls, f32(c["extra"], c["e"])], w.txs, w.rxs)
        more, jm = g.trace(lo, hi), g.judge(lo, hi)
        for k in more:
            if all(i < n for i in k[2]) and k in judged:
                stats[0] += 1
                ensure(k in base, "adding wall %s makes path %s valid", c["extra"], k)
        for k, t in judged.items():
            if k in jm and k in base and k not in more:
                # Then the new wall must be in the way
                o = ("W", f32(c["extra"], c["e"]).astype(np.float64))
                ensure(any(ref.wall_crossed(o[1], p, q, extra=t.err) is not False for p, q in zip(t.pts, t.pts[1:])), "adding wall %s, which is not in the way, makes path %s invalid", c["extra"], k)
        # Beyond a disk that holds every point of every path
        pts = np.array([p for x in base.values() for p in x] + [p for _, p in w.txs + w.rxs], dtype=np.float64)
        ctr = pts.mean(axis=0)
        rad = max(np.hypot(*(pts - ctr).T).max(), 0.25)
        th = c["far"][0] * np.pi / 4 + 0.1
        u = np.array([np.cos(th), np.sin(th)])
        v = np.array([-u[1], u[0]])
        mid = ctr + u * rad * (1.5 + c["far"][1] / 10)
        seg = np.array([mid - v * rad, mid + v * rad * (1 + c["far"][2] / 60)])
        g = World([*w.walls, seg], w.txs, w.rxs)
        far = g.trace(lo, hi)
        old = {k: v_ for k, v_ in far.items() if all(i < n for i in k[2])}
        for k in judged:
            stats[0] += 1
            ensure((k in base) == (k in old), "adding a wall far away, %s, changes path %s", seg.tolist(), k)
    return Res(stats[1] > 0 or ("extra" in c["views"] and any(k[2] for k in base)), (*c["views"], f"walls={n}", f"valid={min(6, len(base))}"), stats[0])


SUBS = [Sub("views", cases, check, 260, 4000, "a valid reflected path is compared", weight=80)]
