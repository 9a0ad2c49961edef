"""Functions given to the accumulations, and their value computed with NumPy."""

import jax.numpy as jnp
import numpy as np

from .lib import A

# Each function is a sum of terms; a case lists the terms' coefficients.
TERMS = ("one", "len", "tx", "rx", "mid", "obj", "count", "power")


def value(co, tx, rx, path, objects, *args, **kwargs):
    """Library side: uses everything it is given."""
    out = jnp.array(0.0)
    xys = path.xys
    if co[0]:
        out = out + co[0]
    if co[1]:
        out = out + co[1] * path.length()
    if co[2]:
        out = out + co[2] * (tx.xy[0] - 2.0 * tx.xy[1])
    if co[3]:
        out = out + co[3] * (rx.xy[1] + 0.5 * rx.xy[0])
    if co[4] and xys.shape[0] > 2:
        out = out + co[4] * jnp.tanh(xys[1, 0] + 2.0 * xys[-2, 1])
    for i, o in enumerate(objects):
        if co[5]:
            w = o.xys if hasattr(o, "xys") else jnp.stack([o.xy, o.xy])
            out = out + co[5] * (i + 1) * (w[0, 0] + 3.0 * w[1, 1])
    if co[6]:
        out = out + co[6] * len(objects)
    for k, a in enumerate(args):
        out = out + (k + 1) * a
    out = out + kwargs.get("off", 0.0)
    return out * kwargs.get("mul", 1.0)


def make(co, kind="plain"):
    """A function of (transmitter, receiver, path, objects, *args, **kwargs)."""

    def fun(tx, rx, path, objects, *args, **kwargs):
        return value(co, tx, rx, path, objects, *args, **kwargs)

    return fun


def expected(co, tx, rx, xys, ros, args=(), kwargs=None):
    """NumPy side: ros are reference objects (kind, coordinates, ...)."""
    kwargs = kwargs or {}
    xys = A(xys)
    out = float(co[0])
    d = np.diff(xys, axis=0)
    out += co[1] * np.hypot(d[:, 0], d[:, 1]).sum()
    out += co[2] * (tx[0] - 2.0 * tx[1])
    out += co[3] * (rx[1] + 0.5 * rx[0])
    if len(xys) > 2:
        out += co[4] * np.tanh(xys[1, 0] + 2.0 * xys[-2, 1])
    for i, o in enumerate(ros):
        w = np.asarray(o[1])
        w = np.stack([w, w]) if w.ndim == 1 else w
        out += co[5] * (i + 1) * (w[0, 0] + 3.0 * w[1, 1])
    out += co[6] * len(ros)
    for k, a in enumerate(args):
        out += (k + 1) * a
    out += kwargs.get("off", 0.0)
    return out * kwargs.get("mul", 1.0)
