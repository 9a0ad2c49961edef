"""Turns plain-data cases into objects of the library under test."""

import numpy as np


def f32(v, e):
    """Integers (nested lists) to a float32 array of v / 2**e."""
    a = np.asarray(v, dtype=np.float64) / float(2.0**e)
    r = a.astype(np.float32)
    assert np.all(r.astype(np.float64) == a), (v, e)
    return r


def f64(v, e):
    return np.asarray(v, dtype=np.float64) / float(2.0**e)


def J(a):
    import jax.numpy as jnp

    return jnp.asarray(a, dtype=jnp.float32)


def pt(p, e, cls=None):
    from differt2d.geometry import Point

    return (cls or Point)(xy=J(f32(p, e)))


def wall(w, e, cls=None):
    from differt2d.geometry import Wall

    return (cls or Wall)(xys=J(f32(w, e)))


PHI = 1024.0  # surface angles are k / 1024


def obj(o, e):
    """An object from ["W", seg], ["R", seg, phi] or ["V", point]."""
    from differt2d.geometry import RIS, Vertex, Wall

    if o[0] == "W":
        return Wall(xys=J(f32(o[1], e)))
    if o[0] == "R":
        return RIS(xys=J(f32(o[1], e)), phi=J(np.float32(o[2] / PHI)))
    if o[0] == "V":
        return Vertex(xy=J(f32(o[1], e)))
    raise AssertionError(o)


def objs(os, e):
    return [obj(o, e) for o in os]


def scene(txs, rxs, objects):
    """txs, rxs: lists of (name, Point); objects: list."""
    from differt2d.scene import Scene

    return Scene(transmitters=dict(txs), receivers=dict(rxs), objects=objects)


def A(x):
    """A library array as float64."""
    return np.asarray(x, dtype=np.float64)


def key(k):
    import jax

    return jax.random.PRNGKey(k)


def same_bits(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)
