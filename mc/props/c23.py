"""C23: refractive-index profile."""
import itertools

import numpy as np

from mc import ref
from mc.sut import *

ID = "C23"
BOUNDS = {
    "quick": "0..3 interior layers from 4 kinds (incl. solvated, zero thickness, absorbing) x "
    "roughness {0, 3, 12} per interface x {forward, reversed} x {explicit, backing} solvent x "
    "media with thickness and roughness entries of their own (ignored) on one roughness pattern in two x "
    "layers of 0.03, 0.6, 6000 and 25000 A (1..2 layers); 5..8, 12 and 25 layers x 4 sequences x 3 roughness patterns; every alignment -n..n-2 (and two refused ones on each side) x 6 forms of position request",
    "thorough": "as quick with 6 layer kinds and 0..4 layers (roughness patterns of period 3 for 4 layers)",
}
ASSUMPTIONS = ["positions exactly at a sharp interface are not compared"]
BLOCK = 8

#        n (at 600 nm)   thick  vfsolv
KINDS = [(1.46, 40.0123456789, 0.0), (1.6 + 0.2j, 150.0, 0.0), (1.9, 25.503333333, 0.4), (2.3 + 0j, 0.0, 0.0), (0.2 + 3.0j, 10.0, 0.1), (1.333, 300.0, 0.0),
         # extremes
         (1.5, 0.6, 0.0), (1.7 + 0.1j, 0.03, 0.3), (1.45, 6000.0, 0.0), (2.0, 25000.0, 0.2)]
ROUGH = [0.0, 3.0, 12.0]


def cases(tier):
    q = tier == "quick"
    kinds = range(4 if q else 6)
    for n in range(0, 4):
        for ks in itertools.product(kinds, repeat=n):
            yield [list(ks), "all"]
    if not q:
        for ks in itertools.product(range(6), repeat=4):
            yield [list(ks), "period"]
    for n in range(1, 3 if q else 4):
        for ks in itertools.product((6, 7, 8, 9, 1), repeat=n):
            yield [list(ks), "sparse"]
    for n in (5, 6, 7, 8, 12, 25):
        for a in range(4):
            yield [[(a + i + i // 3) % 4 for i in range(n)], "sparse"]
    yield ["refuse"]


def table(ks, rough, rev, solv):
    """reference slab table: n (real part), thickness, roughness on top"""
    front, back = 1.0, 3.9 + 0.02j
    ns = [front] + [KINDS[k][0] for k in ks] + [back]
    th = [0.0] + [KINDS[k][1] for k in ks] + [0.0]
    vf = [0.0] + [KINDS[k][2] for k in ks] + [0.0]
    rg = [0.0] + list(rough)
    if rev:
        ns, th, vf = ns[::-1], th[::-1], vf[::-1]
        rg = [0.0] + list(rough)[::-1]
    s = 1.36 if solv else ns[-1]
    n = []
    for i, (a, f) in enumerate(zip(ns, vf)):
        n.append(complex(ref.mix("linear", a, s, f, 1 / 3)) if f > 0 and 0 < i < len(ns) - 1 else complex(a))
    return np.real(n), np.array(th), np.array(rg)


def value(z, n, th, rg):
    dist = np.cumsum(th[:-1])
    out = np.full(np.shape(z), n[0], float)
    ok = np.ones(np.shape(z), bool)
    for i in range(len(n) - 1):
        out = out + (n[i + 1] - n[i]) * ref.erf_step(z, dist[i], rg[i + 1])
        if rg[i + 1] == 0:
            ok &= np.abs(z - dist[i]) > 1e-7
    return out, ok


def run(case, ctx):
    if case[0] == "refuse":
        return refuse(ctx)
    ks, mode = case
    m = len(ks) + 1
    if mode == "all":
        roughs = itertools.product(ROUGH, repeat=m)
    elif mode == "sparse":
        roughs = [tuple(ROUGH[(i * a + b) % 3] for i in range(m)) for a, b in ((0, 0), (0, 1), (1, 2))]
    else:
        roughs = [tuple(ROUGH[(i * a + b) % 3] for i in range(m)) for a in (1, 2) for b in range(3)]
    for rough in roughs:
        for rev, solv in itertools.product((False, True), repeat=2):
            if not solv and not any(KINDS[k][2] for k in ks) and rough[0] == 3.0:
                continue
            s = StructureSE(solvent=nk(1.36) if solv else None, reverse_structure=rev, wavelength=600.0)
            odd = (int(sum(rough)) + len(ks)) % 2  # thickness entries of the media mean nothing
            s |= nk(1.0)(57.0, 4.0) if odd else nk(1.0)()
            for k, r in zip(ks, rough):
                n, t, f = KINDS[k]
                s |= nk(n)(t, r, vfsolv=f)
            s |= nk(3.9 + 0.02j)(31.5 * odd, rough[-1])
            one(ctx, s, *table(ks, rough, rev, solv), dict(layers=ks, rough=rough, reversed=rev, solvent=solv, media_thickness=odd))


def one(ctx, s, n, th, rg, d):
    dist = np.cumsum(th[:-1])
    total = dist[-1]
    N = len(n)
    before = s.slabs()
    z0 = None
    zs = [
        ("default", dict()), ("fine", dict(max_delta_z=0.11)), ("coarse", dict(max_delta_z=50.0)),
        ("array", dict(z=np.linspace(-60.3, total + 61.7, 57))), ("desc", dict(z=np.linspace(total + 20.1, -30.2, 7))),
        ("one", dict(z=np.array([total / 2 + 0.123]))),
    ]
    if N > 3:
        zs = zs[:1] + zs[3:5]
    if N == 3 and total < 400:
        zs += [("finer", dict(max_delta_z=0.03)), ("finest", dict(max_delta_z=0.004))]
    for name, kw in zs:
        e = dict(d, positions=name)
        z, v = s.ri_profile(**kw)
        z, v = np.asarray(z, float), np.asarray(v, float)
        want, ok = value(z, n, th, rg)
        ctx.check(z.shape == v.shape == want.shape, "shape", got=[z.shape, v.shape], **e)
        ctx.check(bool(np.all(np.abs(v - want)[ok] < 1e-9)), "profile", got=v[ok][:5], want=want[ok][:5], **e)
        if "z" in kw:
            ctx.equal(z, kw["z"], "requested positions", **e)
        else:
            ctx.check(bool(np.all(np.diff(z) > 0)) and z[0] < 0 and z[-1] > total, "covers all interfaces", got=[z[0], z[-1]], **e)
            if name.startswith("fine"):
                ctx.check(np.max(np.diff(z)) <= kw["max_delta_z"] + 1e-9, "spacing", got=np.max(np.diff(z)), **e)
            if max(rg) == 0:
                ctx.close([v[0], v[-1]], [n[0], n[-1]], "ends of the profile", rtol=1e-9, **e)
            # a thick layer shows its own index in its middle
            for i in range(1, N - 1):
                mid = dist[i - 1] + th[i] / 2
                if th[i] / 2 > 6 * max(rg[i], rg[i + 1]) and all(
                    abs(dist[j] - mid) > 6 * rg[j + 1] for j in range(N - 1)
                ) and th[i] > 1:
                    k = int(np.argmin(np.abs(z - mid)))
                    if abs(z[k] - mid) < th[i] / 8:
                        ctx.check(abs(v[k] - n[i]) < 1e-6, "index of a thick layer", got=v[k], want=n[i], layer=i, **e)
        if name == "default":
            z0, v0 = z, v
        ctx.step()
    # alignment: interface k (between slab k and k+1) at zero
    for al in list(range(-N, N - 1)) + ["int64"]:
        a = np.int64(0) if al == "int64" else al
        k = a if a >= 0 else max(N - 1 + a, 0)
        za, va = s.ri_profile(align=a)
        ctx.close(za, z0 - dist[k], "alignment", rtol=0, atol=1e-9, align=int(a), **d)
        ok0 = value(z0, n, th, rg)[1]
        ctx.close(np.asarray(va)[ok0], v0[ok0], "alignment changed the values", rtol=0, atol=1e-9, align=int(a), **d)
        zz = np.array([-3.3, 5.5, 77.7])
        zb, vb = s.ri_profile(z=zz, align=a)
        want, ok = value(zz, n, th, rg)
        ctx.close(zb, zz - dist[k], "alignment with positions", rtol=0, atol=1e-9, align=int(a), **d)
        ctx.check(bool(np.all(np.abs(vb - want)[ok] < 1e-9)), "values with positions and alignment", align=int(a), got=vb, want=want, **d)
        ctx.equal(zz, np.array([-3.3, 5.5, 77.7]), "caller's positions changed", **d)
        ctx.step()
    for al in (N - 1, N, -N - 1, N + 5):
        ctx.raises(lambda: s.ri_profile(align=al), "alignment out of range", align=al, **d)
    ctx.equal(s.slabs(), before, "profile changed the structure", **d)
    ctx.trace()
    ctx.state(repr(d))
    ctx.outcome(np.round(v0[::50], 4).tobytes())


def refuse(ctx):
    mk = lambda: nk(1.5)
    bad = {
        "empty": StructureSE(), "one": StructureSE([mk()(10)]), "mixed front": StructureSE([MixedSlabSE(10, mk(), mk(), 0.5, 0), mk()()]),
        "mixed back": StructureSE([mk()(), MixedSlabSE(10, mk(), mk(), 0.5, 0)]),
    }
    for name, s in bad.items():
        for kw in (dict(), dict(z=np.array([1.0])), dict(align=-1)):
            ctx.raises(lambda: s.ri_profile(**kw), "structure without both media", kind=name, kw=list(kw))
            ctx.state((name, tuple(kw)))
    ctx.trace()
