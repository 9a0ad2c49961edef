"""Independent reference computations in 64-bit floats (no JAX, no library code).

A verdict is True, False or None, None meaning "within rounding error of a
threshold": such verdicts are not judged.
"""

import itertools

import numpy as np

EPS = float(np.finfo(np.float32).eps)
SLACK = 1e-6  # what a truth value or a loss may be off by
SEG_TOL = 0.005  # documented default of segments_intersect


# --- three-valued logic -------------------------------------------------------


def t_and(*xs):
    if any(x is False for x in xs):
        return False
    return None if any(x is None for x in xs) else True


def t_or(*xs):
    if any(x is True for x in xs):
        return True
    return None if any(x is None for x in xs) else False


def t_not(x):
    return None if x is None else not x


def ge(x, y, m):
    """x >= y up to a margin m."""
    d = x - y
    if abs(d) <= m:
        return None
    return bool(d > 0)


# --- segments -----------------------------------------------------------------


def cross(u, v):
    return u[0] * v[1] - u[1] * v[0]


def segment_bounds(p1, p2, p3, p4, extra=0.0):
    """Numerators and denominator of both parameters, with bounds on what a 32-bit
    evaluation can be off by: (an, bn, den, err_an, err_bn, err_den, a, b).

    p1 + alpha (p2 - p1) = p3 + beta (p4 - p3); inputs are known up to `extra`.
    """
    p1, p2, p3, p4 = (np.asarray(p, dtype=np.float64) for p in (p1, p2, p3, p4))
    a, b, c = p2 - p1, p4 - p3, p3 - p1
    den = cross(a, b)
    an, bn = cross(c, b), cross(c, a)
    # Inputs are exact; each difference and product is rounded once or twice.
    mag = max(np.abs(p1).max(), np.abs(p2).max(), np.abs(p3).max(), np.abs(p4).max(), 1e-30)
    da = 2 * EPS * mag + 2 * extra  # error of a coordinate difference (a patched wall is rounded too)
    sa, sb, sc = (np.abs(v).sum() for v in (a, b, c))
    err_den = 4 * EPS * (abs(a[0] * b[1]) + abs(a[1] * b[0])) + da * (sa + sb)
    err_an = 4 * EPS * (abs(c[0] * b[1]) + abs(c[1] * b[0])) + da * (sc + sb)
    err_bn = 4 * EPS * (abs(c[0] * a[1]) + abs(c[1] * a[0])) + da * (sc + sa)
    return an, bn, den, err_an, err_bn, err_den, a, b


def is_f32(*xs):
    for x in xs:
        x = np.asarray(x, dtype=np.float64)
        if not np.all(x.astype(np.float32).astype(np.float64) == x):
            return False
    return True


def small_products(a, b):
    return is_f32(a, b, a[0] * b[1], a[1] * b[0])


def segments_cross(p1, p2, p3, p4, tol=SEG_TOL, slack=1.0, extra=0.0):
    an, bn, den, ean, ebn, ed, a, b = segment_bounds(p1, p2, p3, p4, extra)
    if den == 0.0 and extra == 0.0 and small_products(a, b):
        return False  # exactly parallel, also in 32 bits
    for num, e in ((an, ean), (bn, ebn)):
        # Certainly out of range, however small or null the denominator is
        if abs(num) - slack * e > (1.0 + tol + 0.01) * (abs(den) + slack * ed):
            return False
    if abs(den) <= 4 * ed:
        return None
    out = True
    for num, e in ((an, ean), (bn, ebn)):
        t = num / den
        m = slack * ((e + abs(t) * ed) / (abs(den) - ed) + 2 * EPS * abs(t)) + EPS
        out = t_and(out, ge(t, -tol, m), ge(1 + tol, t, m))
    return out


def wall_crossed(w, p, q, patch=0.0, tol=SEG_TOL, extra=0.0):
    w = np.asarray(w, dtype=np.float64)
    t = w[1] - w[0]
    return segments_cross(w[0] - patch * t, w[1] + patch * t, p, q, tol, 2.0, extra)


# --- walls --------------------------------------------------------------------


def unit(v):
    v = np.asarray(v, dtype=np.float64)
    n = np.hypot(v[0], v[1])
    return v if n == 0.0 else v / n


def normal(w):
    t = np.asarray(w[1], dtype=np.float64) - np.asarray(w[0], dtype=np.float64)
    return unit([t[1], -t[0]])


def image(w, p):
    p = np.asarray(p, dtype=np.float64)
    w = np.asarray(w, dtype=np.float64)
    n = normal(w)
    return p - 2.0 * np.dot(p - w[0], n) * n


def param(w, p):
    w = np.asarray(w, dtype=np.float64)
    t = w[1] - w[0]
    tt = np.dot(t, t)
    return float(np.dot(t, np.asarray(p, dtype=np.float64) - w[0]) / (tt if tt else 1.0))


def param_err(w, p):
    w = np.asarray(w, dtype=np.float64)
    p = np.asarray(p, dtype=np.float64)
    t = w[1] - w[0]
    n = max(np.hypot(*t), 1e-30)
    mag = max(np.abs(w).max(), np.abs(p).max())
    o = np.hypot(*(p - w[0]))
    return float(8 * EPS * (mag * (n + o) / (n * n) + o / n) + EPS)


def wall_error(w, pts):
    """Interaction error of a wall, from angles (not the library's formula)."""
    a, b, c = (np.asarray(p, dtype=np.float64) for p in pts)
    n = normal(w)
    t = np.array([-n[1], n[0]])
    i, r = unit(b - a), unit(c - b)
    # Specular reflection keeps the tangential component and flips the normal one
    e_t = np.dot(r, t) - np.dot(i, t)
    e_n = np.dot(r, n) + np.dot(i, n)
    return float(e_t**2 + e_n**2)


def ris_error(w, phi, pts):
    """Squared distance between unit vectors at the outgoing and the constant angle."""
    _, b, c = (np.asarray(p, dtype=np.float64) for p in pts)
    n = normal(w)
    r = unit(c - b)
    s, co = cross(-r, n), float(np.dot(-r, n))
    return float((s - np.sin(phi)) ** 2 + (co - np.cos(phi)) ** 2)


def obj_error(o, pts):
    """o = (kind, xys[, phi])."""
    if o[0] == "W":
        return wall_error(o[1], pts)
    if o[0] == "R":
        return ris_error(o[1], o[2], pts)
    return 0.0


# --- paths --------------------------------------------------------------------


def candidates(n, lo, hi, keep=None):
    """All admissible index sequences, as a dict order -> set (built by product)."""
    idx = [i for i in range(n) if keep is None or i in keep]
    out = {}
    for k in range(lo, hi + 1):
        out[k] = {
            c
            for c in itertools.product(idx, repeat=k)
            if all(a != b for a, b in zip(c, c[1:]))
        }
    return out


def image_path(tx, ws, rx, noise=lambda: 0.0):
    """Unfolded path through the mirror images; None where a leg is parallel to its wall.

    `noise` stands for the rounding of every intermediate point."""
    imgs = [np.asarray(tx, dtype=np.float64)]
    for w in ws:
        imgs.append(image(w, imgs[-1]) + noise())
    pts = [np.asarray(rx, dtype=np.float64)]
    for w, im in zip(reversed(ws), reversed(imgs[1:])):
        q = pts[0]
        n = normal(w)
        d0, d1 = np.dot(im - w[0], n), np.dot(q - w[0], n)
        if d0 == d1:
            return None, imgs
        s = d0 / (d0 - d1)
        pts.insert(0, im + s * (q - im) + noise())
    pts.insert(0, np.asarray(tx, dtype=np.float64))
    return np.array(pts), imgs


def path_loss(os, pts):
    return sum(obj_error(o, pts[i : i + 3]) for i, o in enumerate(os))


def length(pts):
    d = np.diff(np.asarray(pts, dtype=np.float64), axis=0)
    return float(np.hypot(d[:, 0], d[:, 1]).sum())


def on_objects(pts, os, extra=0.0):
    out = True
    for i, o in enumerate(os):
        if o[0] == "V":
            continue
        w = o[1]
        x, y = w[1] - w[0], np.asarray(pts[i + 1], dtype=np.float64) - w[0]
        dot, tt = float(x @ y), float(x @ x)
        if extra == 0.0 and dot == 0.0 and is_f32(x * y):
            continue  # exactly at the origin: contained
        if extra == 0.0 and dot == tt and is_f32(x * y, x * x, tt) and np.frexp(tt)[0] == 0.5:
            continue  # exactly at the destination: contained
        s = dot / tt
        m = param_err(w, pts[i + 1]) + 2 * extra / np.sqrt(tt)
        out = t_and(out, ge(s, 0.0, m), ge(1.0, s, m))
    return out


def obstructed(pts, os, cand, patch=0.0, extra=0.0):
    """Some leg crosses an object other than those it starts or ends on."""
    own = [None, *cand, None]
    out = False
    for i in range(len(pts) - 1):
        for j, o in enumerate(os):
            if o[0] == "V" or j in (own[i], own[i + 1]):
                continue
            # A leg between the two nodes is exact
            ex = 0.0 if len(pts) == 2 else extra
            out = t_or(out, wall_crossed(o[1], pts[i], pts[i + 1], patch, extra=ex))
    return out


# Fixed, arbitrary signs used to perturb inputs
_SIGNS = np.where(np.sin(np.arange(1, 4097) ** 2 * 0.7391) > 0, 1.0, -1.0)


class Traced:
    """Reference image path with an estimate of how well it is conditioned."""

    def __init__(self, tx, os, rx):
        """os: the interacting objects, in order, as (kind, xys[, phi])."""
        tx, rx = np.asarray(tx, dtype=np.float64), np.asarray(rx, dtype=np.float64)
        ws = [o[1] for o in os]
        self.pts, imgs = image_path(tx, ws, rx)
        self.last_image = imgs[-1]
        self.ok = self.pts is not None
        if not os:
            self.err, self.loss, self.loss_lo, self.loss_hi = 0.0, 0.0, 0.0, 0.0
            return
        scale = max(np.abs(np.asarray(imgs)).max(), np.abs(rx).max(), *(np.abs(w).max() for w in ws))
        self.scale = scale
        if not self.ok:
            return
        d = 4 * EPS * scale
        self.loss = path_loss(os, self.pts)
        dev, losses, k = 0.0, [self.loss], 0

        def sg(n):
            nonlocal k
            k += n
            return _SIGNS[(k - n) % 4000 : (k - n) % 4000 + n]

        for _ in range(4):
            # Each image is perturbed too: rounding happens at every step
            t2, r2 = tx + d * sg(2), rx + d * sg(2)
            w2 = [w + d * sg(4).reshape(2, 2) for w in ws]
            p2, _ = image_path(t2, w2, r2, lambda: d * sg(2))
            if p2 is None:
                self.ok = False
                return
            dev = max(dev, np.abs(p2 - self.pts).max())
            o2 = [(o[0], w, *o[2:]) for o, w in zip(os, w2)]
            losses.append(path_loss(o2, p2))
        self.err = 6 * dev + 4 * EPS * scale
        self.ok = bool(self.err < 2e-3 * scale)
        lo, hi = min(losses), max(losses)
        w = 4 * (hi - lo) + SLACK
        self.loss_lo, self.loss_hi = max(0.0, lo - w), hi + w

    def on(self, os):
        return on_objects(self.pts, os, self.err) if self.ok else None

    def crossed(self, os, cand, patch=0.0):
        return obstructed(self.pts, os, cand, patch, self.err) if self.ok else None

    def small(self, tol):
        if not self.ok:
            return None
        if self.loss_hi < tol:
            return True
        return False if self.loss_lo > tol else None

    def valid(self, os, inter, cand, tol=1e-2, patch=0.0):
        return t_and(self.small(tol), self.on(inter), t_not(self.crossed(os, cand, patch)))


# --- approximate (fuzzy) verdicts, as intervals ---------------------------------


def act_hard(x, alpha):
    return np.minimum(np.maximum(alpha * x + 3.0, 0.0), 6.0) / 6.0


def act_sigmoid(x, alpha):
    z = np.clip(alpha * x, -700, 700)
    return 1.0 / (1.0 + np.exp(-z))


def act_tanh(x, alpha):
    return 0.5 + 0.5 * np.tanh(alpha * x)


ACTS = {"hard": act_hard, "sigmoid": act_sigmoid, "tanh": act_tanh}


class Soft:
    """Interval-valued fuzzy logic: every result is (lowest, highest)."""

    def __init__(self, fname, alpha):
        self.f, self.alpha = ACTS[fname], float(alpha)

    def pos(self, x, m):
        """Activation of x, x being known up to m."""
        m = m + 2 * EPS * abs(x)
        return float(self.f(x - m, self.alpha)) - SLACK, float(self.f(x + m, self.alpha)) + SLACK

    @staticmethod
    def land(*xs):
        return min(x[0] for x in xs), min(x[1] for x in xs)

    @staticmethod
    def lor(*xs):
        return max(x[0] for x in xs), max(x[1] for x in xs)

    @staticmethod
    def lnot(x):
        return 1.0 - x[1], 1.0 - x[0]

    def between(self, num, en, den, ed, tol):
        """-tol <= num / den <= 1 + tol."""
        if abs(den) > 4 * ed:
            t = num / den
            m = (en + abs(t) * ed) / (abs(den) - ed) + 2 * EPS * abs(t) + EPS
            return self.land(self.pos(t + tol, m), self.pos(1.0 + tol - t, m))
        # The quotient may have any sign, but is at least this large
        big = max(0.0, abs(num) - en) / (abs(den) + ed) * (1 - 1e-5)
        if big > 1.0 + tol:
            return 0.0 - SLACK, self.pos(-(big - 1.0 - tol), 0.0)[1]
        return 0.0, 1.0

    def segments(self, p1, p2, p3, p4, tol=SEG_TOL, slack=1.0, extra=0.0):
        an, bn, den, ean, ebn, ed, a, b = segment_bounds(p1, p2, p3, p4, extra)
        if den == 0.0 and extra == 0.0 and small_products(a, b):
            return 0.0, SLACK
        x = self.between(an, slack * ean, den, slack * ed, tol)
        y = self.between(bn, slack * ebn, den, slack * ed, tol)
        return self.land(x, y)

    def crossed(self, w, p, q, patch=0.0, extra=0.0):
        w = np.asarray(w, dtype=np.float64)
        t = w[1] - w[0]
        return self.segments(w[0] - patch * t, w[1] + patch * t, p, q, SEG_TOL, 2.0, extra)

    def contains(self, s, m=0.0):
        return self.land(self.pos(s, m), self.pos(1.0 - s, m))

    def on(self, pts, os, extra=0.0):
        out = (1.0, 1.0)
        for i, o in enumerate(os):
            if o[0] == "V":
                continue
            w = o[1]
            x = w[1] - w[0]
            s = param(w, pts[i + 1])
            m = param_err(w, pts[i + 1]) + 2 * extra / np.hypot(*x)
            out = self.land(out, self.contains(s, m))
        return out

    def obstructed(self, pts, os, cand, patch=0.0, extra=0.0):
        own = [None, *cand, None]
        out = (0.0, 0.0)
        for i in range(len(pts) - 1):
            for j, o in enumerate(os):
                if o[0] == "V" or j in (own[i], own[i + 1]):
                    continue
                ex = 0.0 if len(pts) == 2 else extra
                out = self.lor(out, self.crossed(o[1], pts[i], pts[i + 1], patch, ex))
        return out

    def small(self, lo, hi, tol):
        m = SLACK * (1 + hi)
        return self.pos(tol - hi, m)[0], self.pos(tol - lo, m)[1]

    def valid(self, t, os, inter, cand, tol=1e-2, patch=0.0):
        """Validity of a reference path (Traced)."""
        if not t.ok:
            return 0.0, 1.0
        return self.land(
            self.on(t.pts, inter, t.err),
            self.lnot(self.obstructed(t.pts, os, cand, patch, t.err)),
            self.small(t.loss_lo, t.loss_hi, tol),
        )
