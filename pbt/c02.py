"""C02: a path is declared valid exactly when the three requirements hold."""

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from differt2d.geometry import FermatPath, ImagePath, MinPath, Path

from . import gen, ref
from .core import Res, Sub, ensure
from .lib import J, PHI, f32, objs

# Kinds of the scene's objects; few per worker, as each is compiled separately
PATTERNS = [
    ["W", "WWWW"],
    ["WW", "WRVW"],
    ["WWW", "RRW"],
    ["WWWWW", "VWV"],
    ["RW", "WWWWWWWWWWWW"],
    ["VV", "WVWRW"],
    ["R", "WWV"],
    ["WRR", "WWWWWWWW"],
]
TOLS = [None, 0.25, 0.01, 1.0, 1e-3]
PATCHES = [None, 0.0, 0.25, -0.25]


def cases(shard, few=False):
    pats = PATTERNS[shard % 8]
    if few:
        pats = [p for p in pats if len(p) < 6][-1:]

    @st.composite
    def case(draw):
        pat = draw(st.sampled_from(pats))
        s = draw(gen.style("lattice8", "lattice8", "fine", "wide", "tiny"))
        e, m = gen.STYLES[s]
        e += 3  # so that eighths of a wall are representable
        os, segs = [], []
        for k in pat:
            if k == "V":
                p = draw(gen.point(s))
                os.append(["V", [8 * v for v in p]])
                segs.append([p, p])
                continue
            w = draw(gen.segment(s))
            if segs and draw(st.integers(0, 3)) == 0:
                # attached to the end of another object
                j = draw(st.integers(0, len(segs) - 1))
                d = [w[1][i] - w[0][i] for i in (0, 1)]
                w = [segs[j][1], [segs[j][1][0] + d[0], segs[j][1][1] + d[1]]]
            segs.append(w)
            os.append([k, [[8 * v for v in q] for q in w]] + ([draw(gen.spread(-3000, 3000))] if k == "R" else []))
        order = draw(st.sampled_from([0, 1, 1, 2] if len(pat) > 5 else [0, 1, 2, 3, 4, 5] if shard % 8 == 3 else [0, 1, 1, 2, 2, 3]))
        cand = []
        for _ in range(order):
            j = draw(st.integers(0, len(pat) - 1))
            if cand and cand[-1] == j:
                j = (j + 1) % len(pat)
            cand.append(j)
        ps = [[8 * v for v in draw(gen.point(s))]]
        for j in cand:
            w = segs[j]
            t = draw(st.sampled_from([4, 4, 3, 1, 7, 0, 8, -1, 9, 5]))
            q = [8 * w[0][i] + t * (w[1][i] - w[0][i]) for i in (0, 1)]
            if draw(st.integers(0, 7)) == 0:
                q = [8 * v for v in draw(gen.point(s))]
            ps.append(q)
        ps.append([8 * v for v in draw(gen.point(s))])
        if order and draw(st.integers(0, 4)) == 0:
            # end at the far side of some object, so that the last leg crosses it
            j = draw(st.integers(0, len(pat) - 1))
            mid = [4 * (segs[j][0][i] + segs[j][1][i]) for i in (0, 1)]
            ps[-1] = [2 * mid[i] - ps[-2][i] for i in (0, 1)]
        tol = draw(st.sampled_from(TOLS))
        t = 0.01 if tol is None else tol
        loss = draw(st.sampled_from([0.0, 0.0, 0.0, t / 2, "eq", "below", "above", 2 * t, 5.0]))
        return {
            "e": e,
            "objs": os,
            "cand": cand,
            "ps": ps,
            "tol": tol,
            "loss": loss,
            "patch": draw(st.sampled_from(PATCHES)),
            "cls": shard % 4,
            # Python floats are compiled in: one worker only
            "arr": shard % 8 != 2 or draw(st.booleans()),
        }

    return case()


def ref_obj(o, e):
    x = f32(o[1], e).astype(np.float64)
    return (o[0], x, *[v / PHI for v in o[2:]])


def check(c):
    e = c["e"]
    os = objs(c["objs"], e)
    ro = [ref_obj(o, e) for o in c["objs"]]
    x = f32(c["ps"], e)
    tol = np.float32(0.01 if c["tol"] is None else c["tol"])
    loss = {"eq": tol, "below": np.nextafter(tol, np.float32(0)), "above": np.nextafter(tol, np.float32(9))}.get(c["loss"], c["loss"])
    loss = np.float32(loss)
    cand = c["cand"]
    inter, rinter = [os[j] for j in cand], [ro[j] for j in cand]
    cls = [Path, ImagePath, FermatPath, MinPath][c["cls"]]
    p = cls(xys=J(x), loss=J(loss))
    jc = jnp.asarray(cand, dtype=jnp.int32)
    patch = 0.0 if c["patch"] is None else c["patch"]
    kp = {} if c["patch"] is None else {"patch": jnp.asarray(patch, dtype=jnp.float32) if c["arr"] else patch}
    kt = {} if c["tol"] is None else {"tol": jnp.asarray(tol) if c["arr"] else float(c["tol"])}
    on = ref.on_objects(x, rinter)
    ob = ref.obstructed(x.astype(np.float64), ro, cand, patch)
    small = bool(loss < tol)
    want = ref.t_and(on, ref.t_not(ob), small)
    what = f"objects={c['objs']} / 2^{e} points={x.tolist()} candidate={cand} loss={loss!r} {kt} {kp}"
    n = 0
    got = {}
    for name, f, w in (
        ("on_objects", lambda: p.on_objects(inter, approx=False), on),
        ("intersects_with_objects", lambda: p.intersects_with_objects(os, jc, approx=False, **kp), ob),
        ("is_valid", lambda: p.is_valid(os, jc, inter, approx=False, **kt, **kp), want),
    ):
        r = np.asarray(f())
        ensure(r.dtype == bool and r.shape == (), "%s: %s must be one boolean, got %s %s", what, name, r.dtype, r.shape)
        if w is not None:
            ensure(bool(r) == w, "%s: %s is %s, expected %s", what, name, r, w)
            n += 1
        got[name] = bool(r)
    ensure(got["is_valid"] == (got["on_objects"] and not got["intersects_with_objects"] and small), "%s: valid is %s but the parts are %s, small=%s", what, got["is_valid"], got, small)
    bad = [k for k, v in (("off", on is False), ("obstructed", ob is True), ("lossy", not small)) if v]
    label = "valid" if want else ("undecided" if want is None else ("only " + bad[0] if len(bad) == 1 else "several"))
    return Res(want is not None and len(cand) > 0, (label, f"order {len(cand)}", "mixed" if len({o[0] for o in c["objs"]}) > 1 else "same kind"), n + 1)


SUBS = [Sub("verdict", cases, check, 2400, 60000, "at least one interaction and a decided verdict", weight=4)]
