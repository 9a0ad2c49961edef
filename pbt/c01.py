"""C01: image-method paths are the specular reflection paths."""

import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import ImagePath, Point, Vertex, Wall

from . import gen, ref
from .core import Res, Sub, ensure
from .lib import A, J, f32, key

EPS = ref.EPS


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["free", "room", "room", "specular", "specular", "specular"]))
    s = draw(gen.style("lattice8", "fine", "unit", "wide", "tiny"))
    e, m = gen.STYLES[s]
    n = draw(st.integers(0, 5))
    c = {"e": e, "kind": kind, "key": draw(gen.keys())}
    if kind == "specular":
        # Built by following a ray: reflect its direction at walls put across it
        n = max(1, min(n, 4))
        c["e"] = e = 12
        p = [draw(st.integers(-(1 << 12), 1 << 12)) for _ in range(2)]
        ang = draw(gen.spread(0, 6283)) / 1000.0
        c["tx"], ws = p, []
        x = np.array(p, dtype=float)
        u = np.array([np.cos(ang), np.sin(ang)])
        for _ in range(n):
            L = draw(st.integers(1 << 9, 1 << 12))
            x = x + L * u
            th = draw(gen.spread(200, 2900)) / 1000.0  # angle from ray to wall
            ct, sn = np.cos(th), np.sin(th)
            t = np.array([ct * u[0] - sn * u[1], sn * u[0] + ct * u[1]])
            l0, l1 = draw(st.integers(1 << 7, 1 << 11)), draw(st.integers(1 << 7, 1 << 11))
            w = [np.round(x - l0 * t).astype(int).tolist(), np.round(x + l1 * t).astype(int).tolist()]
            ws.append(w[::-1] if draw(st.booleans()) else w)
            u = 2 * np.dot(u, t) * t - u
        c["ws"] = ws
        x = x + draw(st.integers(1 << 9, 1 << 12)) * u
        c["rx"] = np.round(x).astype(int).tolist()
        return c
    c["tx"], c["rx"] = draw(gen.point(s)), draw(gen.point(s))
    base = draw(gen.room(s)) if kind == "room" else [draw(gen.segment(s)) for _ in range(max(1, n))]
    idx = draw(st.lists(st.integers(0, len(base) - 1), min_size=n, max_size=n))
    c["ws"] = [base[i][::-1] if draw(st.booleans()) else base[i] for i in idx]
    return c


def trace(tx, ws, rx, **kw):
    p = ImagePath.from_tx_objects_rx(tx, ws, rx, **kw)
    ensure(type(p) is ImagePath, "an ImagePath is expected, got %s", type(p).__name__)
    return p


def check(c):
    e = c["e"]
    tx, rx = f32(c["tx"], e), f32(c["rx"], e)
    xs = [f32(w, e) for w in c["ws"]]
    ws = [Wall(xys=J(x)) for x in xs]
    k = len(ws)
    p = trace(Point(xy=J(tx)), ws, Point(xy=J(rx)))
    got, loss = np.asarray(p.xys), np.asarray(p.loss)
    what = f"tx={tx.tolist()} walls={[x.tolist() for x in xs]} rx={rx.tolist()}"
    ensure(got.shape == (k + 2, 2) and loss.shape == (), "%s: shapes %s, %s", what, got.shape, loss.shape)
    ensure(np.array_equal(got[0], tx) and np.array_equal(got[-1], rx), "%s: ends at %s and %s", what, got[0], got[-1])
    ensure(np.all(np.isfinite(got)) and np.isfinite(loss) and loss >= 0, "%s: points %s loss %s", what, got.tolist(), loss)
    n = 4
    # Raw coordinates, any key, another kind of point: the same path
    for q in (trace(J(tx), ws, J(rx), key=key(c["key"])), trace(Vertex(xy=J(tx)), tuple(ws), J(rx), key=None)):
        ensure(np.allclose(np.asarray(q.xys), got, rtol=1e-6, atol=1e-6) and np.allclose(np.asarray(q.loss), loss, rtol=1e-4, atol=1e-6), "%s: key or kind of end points changed the path to %s", what, np.asarray(q.xys).tolist())
        n += 1
    if k == 0:
        ensure(loss == 0, "direct path with loss %s", loss)
        return Res(True, ("order 0",), n)
    os = [("W", x.astype(np.float64)) for x in xs]
    t = ref.Traced(tx, os, rx)
    g = got.astype(np.float64)
    if not t.ok:
        return Res(False, ("ill-conditioned", c["kind"]), n)
    tol = t.err
    ensure(np.all(np.abs(g - t.pts) <= tol), "%s: points %s, unfolding gives %s (tolerance %s)", what, g.tolist(), t.pts.tolist(), tol)
    for i, (x, q) in enumerate(zip(xs, g[1:-1])):
        off = abs(ref.cross(x[1].astype(np.float64) - x[0], q - x[0])) / np.hypot(*(x[1].astype(np.float64) - x[0]))
        ensure(off <= 2 * tol, "%s: point %s is %s away from the line of wall %s", what, i, off, x.tolist())
    n += 2
    # The loss is the sum of the interaction errors at the returned points
    legs = np.hypot(*np.diff(g, axis=0).T)
    if legs.min() > 1e-3 * t.scale:
        d = sum(24 * EPS * (1 + t.scale / legs[i] + t.scale / legs[i + 1]) for i in range(k))
        want = ref.path_loss(os, g)
        ensure(abs(float(loss) - want) <= 2 * np.sqrt(want * k) * d + d * d + 1e-9, "%s: loss %s, interaction errors add up to %s", what, loss, want)
        n += 1
    if t.loss_hi < 1e-3:
        # Specular: its length is the distance to the last image
        want = float(np.hypot(*(rx - t.last_image)))
        ensure(abs(float(p.length()) - want) <= 8 * tol * (k + 1) + 1e-5 * want, "%s: length %s, last image at %s", what, p.length(), want)
        ensure(loss <= 2e-3, "%s: specular but loss %s", what, loss)
        n += 2
    elif t.loss_lo > 0.05:
        ensure(loss > 0.02, "%s: not specular (%s) but loss %s", what, t.loss, loss)
        n += 1
    # Orientation of walls
    q = trace(J(tx), [Wall(xys=J(x[::-1])) for x in xs], J(rx))
    ensure(np.all(np.abs(A(q.xys) - g) <= 2 * tol), "%s: reversing the walls moves the points to %s", what, A(q.xys).tolist())
    # Reciprocity
    q = trace(J(rx), ws[::-1], J(tx))
    t2 = ref.Traced(rx, os[::-1], tx)
    if t2.ok:
        ensure(np.all(np.abs(A(q.xys)[::-1] - g) <= t2.err + tol), "%s: exchanged, the points are %s instead of %s", what, A(q.xys)[::-1].tolist(), g.tolist())
        n += 1
    spec = "specular" if t.loss_hi < 1e-3 else ("not specular" if t.loss_lo > 0.05 else "between")
    return Res(True, (f"order {k}", spec, c["kind"]), n + 1)


SUBS = [Sub("image_path", case(), check, 2400, 50000, "order 0, or reflected and well conditioned", weight=2)]
