"""Builders for the code under test (public API only)."""

import numpy as np
from refellips import (
    RI,
    Cauchy,
    Sellmeier,
    Lorentz,
    Gauss,
    TaucLorentz,
    SlabSE,
    MixedSlabSE,
    StructureSE,
    ReflectModelSE,
    ObjectiveSE,
    DataSE,
    load_material,
    materials,
)
from refellips.structureSE import overall_ri, ScattererSE, ComponentSE
from refellips.reflect_modelSE import coh_tmm, Delta_Psi_TMM



def nk(c):
    c = complex(c)
    return RI((c.real, c.imag))


def objective_ok(ctx, ds, want, refl, msg, **d):
    """the dataset, used in an objective, is compared in its own convention"""
    from mc import ref

    want = np.asarray(want, float)
    for t in (30.0, 140.0):  # predictions on both sides of 180
        m = ReflectModelSE(stack(1.0, [(1.5, 10 * t)], 3.8 + 0.02j))
        r = ObjectiveSE(m, ds).residuals()
        psi, delta = ref.psi_delta([1.0, 1.5, 3.8 + 0.02j], [0, t, 0], want[1], want[0])
        if refl:
            delta = ref.reflect(delta)
        w = np.r_[psi - want[2], ref.circ(delta, want[3])]
        ctx.check(r.shape == w.shape and bool(np.all(np.abs(r - w) < 1e-5)), msg, got=r, want=w, **d)


def stack(front, layers, back, **kw):
    """layers: [(n, thick_A, rough_A)]"""
    s = StructureSE(**kw)
    s |= nk(front)()
    for n, t, *r in layers:
        s |= nk(n)(t, r[0] if r else 0)
    s |= nk(back)()
    return s
