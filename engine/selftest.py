"""The encoding is tried on concrete inputs: both copies of a module must agree."""

import numpy as np
import z3

from . import npshim, sym
from .world import World


def main():
    ctx = sym.SymCtx()
    ctx.start([])
    x = ctx.real("x", 0, 2)
    y = ctx.real("y", 0, 2)
    a = npshim.SArr([[x, y], [1.0, 2.0]])
    d = npshim.NP.linalg.det(a)
    assert (ctx.nf(sym.to_real_term(d)) - ctx.nf(sym.to_real_term(x * 2.0 - y))).n.is_zero()
    s, c = ctx.sincos(ctx.angle("t", -1, 1))
    assert (ctx.nf(sym.to_real_term(s * s + c * c)) - ctx.nf(z3.RealVal(1))).n.is_zero()
    sym.CTX[0] = None
    from . import rot

    for v in ([0.1, 0.2, -0.3], [3.0, 0.2, 0.1], [0, 0, 0]):
        R = rot.exp(v)
        assert np.allclose(R.dot(R.T), np.eye(3)) and np.allclose(rot.log(R), v)
    for symbolic in (True, False):
        w = World(symbolic)
        with w:
            g = w.mod("geo")
            p = g.topocentric_from_lla(47.0, 9.0, 400.0, 46.9, 8.9, 300.0)
            q = g.lla_from_topocentric(*p, 46.9, 8.9, 300.0)
            assert np.allclose([float(v) for v in q], [47.0, 9.0, 400.0])
    print("selftest ok")
    return 0
