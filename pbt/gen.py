"""Strategies for plain-data (JSON) cases.

Every coordinate is an integer `i` standing for i / 2**e, hence exactly a 32-bit
float, shrinkable, and easily made coincident, aligned or symmetric.
"""

from hypothesis import strategies as st

# style -> (exponent, magnitude of the integers)
STYLES = {
    "fine": (16, 1 << 16),  # generic positions in [-1, 1]
    "unit": (16, 1 << 16),  # generic positions in [0, 1]
    "lattice": (2, 4),  # multiples of 1/4 in [-1, 1]: alignments, coincidences
    "lattice8": (3, 12),
    "wide": (8, 1 << 14),  # positions in [-64, 64]
    "big": (2, 1 << 12),  # positions in [-1024, 1024]
    "tiny": (27, 1 << 13),  # positions in [-6e-5, 6e-5]
}


def style(*names):
    return st.sampled_from(names or tuple(STYLES))


def spread(lo, hi):
    """Integers in [lo, hi], without Hypothesis' strong preference for small ones.

    Drawn as a quotient and a remainder by 256, each of which is close to uniform.
    """
    if hi - lo < 256:
        return st.integers(lo, hi)
    k = (hi - lo) // 256
    return st.tuples(st.integers(-k, k), st.integers(0, 255)).map(
        lambda t: min(hi, max(lo, (0 if lo <= 0 <= hi else lo) + 256 * t[0] + t[1]))
        if lo < 0
        else min(hi, lo + 256 * abs(t[0]) + t[1])
    )


def coord(sty):
    e, m = STYLES[sty]
    if m <= 64:
        return st.integers(-m, m)
    # Whole range, most of it generic; a few round values for alignments
    if sty == "unit":
        wide, few = spread(0, m), st.integers(0, 8).map(lambda k: k * (m // 8))
    else:
        k = m // 256
        wide = st.tuples(st.integers(-k, k - 1), st.integers(0, 255)).map(lambda t: 256 * t[0] + t[1])
        few = st.integers(-8, 8).map(lambda k: k * (m // 8))
    return st.one_of(wide, wide, wide, wide, wide, few)


def point(sty):
    c = coord(sty)
    return st.tuples(c, c).map(list)


@st.composite
def segment(draw, sty, min_len=0.0):
    """A wall as [[x0, y0], [x1, y1]], of non-zero length."""
    p = draw(point(sty))
    kind = draw(st.integers(0, 5))
    q = draw(point(sty))
    if kind == 0:
        q = [q[0], p[1]]
    elif kind == 1:
        q = [p[0], q[1]]
    if q == p:
        e, m = STYLES[sty]
        q = [p[0] + max(1, m // 4), p[1]]
    if min_len:
        e, m = STYLES[sty]
        need = min_len * m
        if (q[0] - p[0]) ** 2 + (q[1] - p[1]) ** 2 < need * need:
            d = int(need) + 1
            q = [p[0] + (d if q[0] >= p[0] else -d), q[1]]
    return [p, q]


def exp_of(sty):
    return STYLES[sty][0]


@st.composite
def case_of(draw, builder, *styles):
    """Draws a style and lets `builder(draw, style)` fill a dict."""
    s = draw(style(*styles))
    c = builder(draw, s)
    c["e"] = exp_of(s)
    c["style"] = s
    return c


def room(sty):
    """The four walls of an axis-aligned room, as a list of segments."""

    @st.composite
    def build(draw):
        e, m = STYLES[sty]
        lo = 0 if sty == "unit" else -m
        x0 = draw(st.integers(lo, (lo + m) // 2 - 1))
        y0 = draw(st.integers(lo, (lo + m) // 2 - 1))
        x1 = draw(st.integers((lo + m) // 2 + 1, m))
        y1 = draw(st.integers((lo + m) // 2 + 1, m))
        ps = [[x0, y0], [x1, y0], [x1, y1], [x0, y1]]
        walls = [[ps[k], ps[(k + 1) % 4]] for k in range(4)]
        flip = draw(st.integers(0, 15))
        return [w[::-1] if flip >> k & 1 else w for k, w in enumerate(walls)]

    return build()


@st.composite
def walls(draw, sty, lo=0, hi=6, min_len=0.0):
    """A list of walls: free ones, rooms, polylines, parallel and repeated walls."""
    kind = draw(st.sampled_from(["free", "free", "room", "room", "poly", "parallel"]))
    n = draw(st.integers(lo, hi))
    out = []
    if kind == "room" and hi >= 4:
        out = draw(room(sty))
    elif kind == "poly" and n >= 2:
        ps = [draw(point(sty))]
        for _ in range(n):
            q = draw(point(sty))
            if q == ps[-1]:
                q = [q[0] + max(1, STYLES[sty][1] // 4), q[1]]
            ps.append(q)
        out = [[a, b] for a, b in zip(ps, ps[1:])]
    elif kind == "parallel" and n >= 2:
        w = draw(segment(sty, min_len))
        out = [w]
        for _ in range(n - 1):
            d = draw(point(sty))
            w2 = [[a[0] + d[0], a[1] + d[1]] for a in w]
            out.append(w2[::-1] if draw(st.booleans()) else w2)
    while len(out) < n:
        out.append(draw(segment(sty, min_len)))
    return out[: max(hi, lo)]


def keys():
    return st.integers(0, 2**31 - 1)


names = st.text("abcdefgxyz_ABÀé 0123456789", min_size=1, max_size=6)


def node_names(lo, hi):
    """Distinct node names."""
    return st.lists(
        names.filter(lambda s: s != "self"), min_size=lo, max_size=hi, unique=True
    )
