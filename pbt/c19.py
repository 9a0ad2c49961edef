"""C19: extents, centre, locations and sampling grids are exact."""

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import RIS, FermatPath, ImagePath, MinPath, Path, Point, Ray, Vertex, Wall
from differt2d.scene import Scene

from . import gen
from .core import Res, Sub, ensure
from .lib import A, J, f32, obj, pt

LOCS = {"N": (0, 1), "E": (1, 0), "S": (0, -1), "W": (-1, 0), "C": (0, 0), "NE": (1, 1), "NW": (-1, 1), "SE": (1, -1), "SW": (-1, -1)}
PATHS = {"Path": Path, "ImagePath": ImagePath, "FermatPath": FermatPath, "MinPath": MinPath}
# Few shapes per shard: each one is compiled
PLANS = [
    ["Point", "Vertex", "Ray", "Wall", "RIS"],
    ["Path:2", "ImagePath:3", "FermatPath:4", "MinPath:7"],
    ["Scene:1,1,3", "Scene:0,0,1"],
    ["Scene:2,1,0", "Scene:1,0,0", "Scene:0,3,0"],
    ["Scene:1,1,6", "Scene:3,0,2"],
    ["Scene:0,1,4", "Wall", "Path:20"],
    ["Scene:1,2,2", "Scene:0,0,5", "Ray"],
    ["Scene:5,5,1", "RIS", "ImagePath:2"],
]
GRIDS = [[[], {}], [[2], {}], [[3, 5], {}], [[], {"m": 4, "n": 2}], [[], {"n": 3}], [[1, 2], {}], [[7], {"n": 1}], [[], {"m": 11}]]


def cases(shard):
    plan = PLANS[shard % 8]
    # k / 10 makes the corners inexact, so that sums and means round
    sty = st.sampled_from(["fine", "unit", "lattice", "wide", "big", "tiny"])

    @st.composite
    def build(draw):
        what = draw(st.sampled_from(plan))
        s = draw(sty)
        c = {"e": gen.exp_of(s), "what": what, "thirds": draw(st.booleans())}
        kind, _, rest = what.partition(":")
        if kind == "Scene":
            a, b, n = map(int, rest.split(","))
            c["tx"] = [draw(gen.point(s)) for _ in range(a)]
            c["rx"] = [draw(gen.point(s)) for _ in range(b)]
            # The kind of each object is part of the plan
            c["objs"] = []
            for i in range(n):
                k = "WRV"[(i + shard) % 3] if n > 2 else "W"
                if k == "V":
                    c["objs"].append(["V", draw(gen.point(s))])
                else:
                    seg = [draw(gen.point(s)), draw(gen.point(s))]
                    c["objs"].append([k, seg] + ([draw(st.integers(-2048, 2048))] if k == "R" else []))
        else:
            n = {"Point": 1, "Vertex": 1, "Ray": 2, "Wall": 2, "RIS": 2}.get(kind) or int(rest)
            c["points"] = [draw(gen.point(s)) for _ in range(n)]
        c["loc"] = draw(st.permutations(sorted(LOCS)))[:3]
        c["grid"] = draw(st.sampled_from([GRIDS[shard % 8], GRIDS[(shard + 3) % 8]]))
        return c

    return build()


def build(c):
    """The object, and all its points."""
    scale = np.float32(1 / 3) if c["thirds"] else np.float32(1)

    def P(p):
        return (f32(p, c["e"]) * scale).astype(np.float32)

    kind, _, rest = c["what"].partition(":")
    if kind == "Scene":
        ps = []
        nodes = {}
        for k, pre in (("tx", "t"), ("rx", "r")):
            nodes[k] = {f"{pre}{i}": Point(xy=J(P(p))) for i, p in enumerate(c[k])}
            ps += [P(p) for p in c[k]]
        objs = []
        for o in c["objs"]:
            a = P(o[1])
            ps += [a] if o[0] == "V" else list(a)
            objs.append(Vertex(xy=J(a)) if o[0] == "V" else Wall(xys=J(a)) if o[0] == "W" else RIS(xys=J(a), phi=J(o[2] / 1024)))
        return Scene(transmitters=nodes["tx"], receivers=nodes["rx"], objects=objs), np.array(ps)
    a = P(c["points"])
    if kind in ("Point", "Vertex"):
        return {"Point": Point, "Vertex": Vertex}[kind](xy=J(a[0])), a
    if kind in PATHS:
        return PATHS[kind](xys=J(a)), a
    return {"Ray": Ray, "Wall": Wall, "RIS": RIS}[kind](xys=J(a)), a


def check(c):
    it, ps = build(c)
    lo, hi = ps.min(axis=0), ps.max(axis=0)
    what = c["what"]
    box = np.asarray(it.bounding_box())
    ensure(box.shape == (2, 2) and np.array_equal(box, [lo, hi]), "%s: the bounding box is %s instead of %s", what, box.tolist(), [lo.tolist(), hi.tolist()])
    if what == "Ray":  # it has no centre, locations nor grid
        return Res(bool(np.all(hi > lo)), (what,), 1)
    lo, hi = lo.astype(float), hi.astype(float)
    mid = (lo + hi) / 2
    tol = 2.0**-22 * max(np.abs(lo).max(), np.abs(hi).max())
    ensure(np.abs(A(it.center()) - mid).max() <= tol, "%s: the centre is %s instead of %s", what, it.center(), mid)
    for loc in c["loc"]:
        want = np.array([{-1: lo[k], 0: mid[k], 1: hi[k]}[LOCS[loc][k]] for k in range(2)])
        got = A(it.get_location(loc))
        exact = np.array([v != 0 for v in LOCS[loc]])
        ensure(got.shape == (2,) and np.abs(got - want).max() <= tol and np.array_equal(got[exact], want[exact]), "%s: location %s is %s instead of %s", what, loc, got, want)
    args, kw = c["grid"]
    m = args[0] if args else kw.get("m", 50)
    n = args[1] if len(args) > 1 else kw.get("n", m)
    X, Y = it.grid(*args, **kw)
    X, Y = A(X), A(Y)
    ensure(X.shape == Y.shape == (n, m), "%s: grid(%s, %s) has shapes %s and %s", what, args, kw, X.shape, Y.shape)
    tol *= 2
    for G, k, num in ((X, 0, m), (Y, 1, n)):
        if num == 1:
            ensure(np.all((G >= lo[k] - tol) & (G <= hi[k] + tol)), "%s: the grid leaves the box", what)
            want = G
        else:
            v = lo[k] + (hi[k] - lo[k]) * np.arange(num) / (num - 1)
            want = np.broadcast_to(v if k == 0 else v[:, None], (n, m))
        ensure(np.abs(G - want).max() <= tol, "%s: grid(%s, %s) is %s, expected %s, in the box %s", what, args, kw, G.tolist(), want.tolist(), box.tolist())
        ensure(np.all(G == (G[:1] if k == 0 else G[:, :1])), "%s: the grid is not regular along the other axis", what)
    return Res(bool(np.all(hi > lo)), (what, f"{m}x{n}"), 3 + len(c["loc"]) + X.size)


SUBS = [Sub("extents", cases, check, 1200, 30000, "a box of positive area", weight=20)]
