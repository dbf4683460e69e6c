"""C02: optical invariances, physical ranges, unit scaling."""
import itertools

import numpy as np

from mc import ref
from mc.sut import *

ID = "C02"
BOUNDS = {
    "quick": "every stack of 3 frontings x <=2 layers (9 kinds) x 4 backings; "
    "every single transformation at every position: zero-thickness layer "
    "(6 kinds), split (4 ratios), media-adjacent layer (2), 10 scale factors (1e-6 to 1e5), "
    "roughness pattern, 6 offsets, reflection; 12 optical points; stacks of 3..10, 13, 17, 24 and 40 layers (3 sequences)",
    "thorough": "as quick with <=3 layers and every ordered pair of "
    "transformations on <=1-layer stacks",
}
ASSUMPTIONS = [
    "comparisons through (cos 2Psi, sin 2Psi cos Delta, sin 2Psi sin Delta) to "
    "1e-7 + 1e-11/|r|, points without reflection outside the domain",
]

FRONT = [1.0, 1.33, 2.0]
BACK = [3.85 + 0.02j, 1.46, 0.18 + 3.4j, 1.0]
LAYERS = [
    (1.46, 20.0), (1.46, 1000.0), (2.4, 300.0), (1.5 + 0.05j, 5000.0),
    (0.18 + 3.4j, 150.0), (0.18 + 3.4j, 5000.0), (1.0, 800.0), (1.0, 3e4),
    (3.85 + 0.02j, 90.0),
]
PTS = np.array([(w, a) for w in (400.0, 658.0) for a in (0.0, 33.0, 52.0, 60.0, 70.0, 80.0)])
ZERO = [1.0, 1.46, 2.4, 0.18 + 3.4j, "mixed", "solvated"]
SCALES = [1e-6, 1e-3, 0.1, 1 / 3, 0.5, 1.5, 2.0, 10.0, 1234.5678, 1e5]
OFFSETS = [-400.0, -10.0, 0.0, 5.5, 180.0, 360.0]


def slabs_of(front, layers, back):
    """list of (kind, n, thick, rough)"""
    return [("m", front, 0.0, 0.0)] + [("m", n, t, 0.0) for n, t in layers] + [("m", back, 0.0, 0.0)]


def build(spec, offset=0.0):
    s = StructureSE()
    for kind, n, t, r in spec:
        if kind == "m":
            s |= nk(n)(t, r)
        elif kind == "mixed":
            s |= MixedSlabSE(t, nk(1.46), nk(2.4), 0.4, r)
        elif kind == "solvated":
            s |= nk(2.4)(t, r, vfsolv=0.35)
    return ReflectModelSE(s, delta_offset=offset)


def transforms(spec):
    """all single transformations that must leave the optics unchanged"""
    n = len(spec)
    for pos in range(1, n) if n < 7 else sorted({1, 2, n // 2, n - 2, n - 1}):
        for z in ZERO:
            new = ("m", z, 0.0, 0.0) if not isinstance(z, str) else (z, None, 0.0, 0.0)
            yield ("zero", pos, z), spec[:pos] + [new] + spec[pos:]
    for pos in range(1, n - 1) if n < 7 else sorted({1, 2, n // 2, n - 2}):
        k, nn, t, r = spec[pos]
        for fr in (0.3, 1 / 3, 0.5, 1.0):
            yield ("split", pos, fr), spec[:pos] + [(k, nn, t * fr, r), (k, nn, t * (1 - fr), r)] + spec[pos + 1 :]
    for t in (37.0, 2500.0):
        yield ("front", t), [spec[0], ("m", complex(spec[0][1]).real, t, 0.0)] + spec[1:]
        yield ("back", t), spec[:-1] + [("m", spec[-1][1], t, 0.0), spec[-1]]
    yield ("rough", 1), [(k, nn, t, 7.0 + i) for i, (k, nn, t, r) in enumerate(spec)]
    yield ("rough", 2), [(k, nn, t, 300.0) for k, nn, t, r in spec]


def same(ctx, a, b, amp, msg, **detail):
    ga, gb = ref.stokes_from(*a), ref.stokes_from(*b)
    live = amp > 1e-6
    with np.errstate(all="ignore"):
        tol = 2e-7 + 2e-11 / amp
        err = np.max(np.abs(ga - gb), axis=0)
    bad = live & ~(err <= tol)
    ctx.check(not bad.any(), msg, first=a, second=b, **detail)


def cases(tier):
    depth = 2 if tier == "quick" else 3
    for k in range(depth + 1):
        for f in range(len(FRONT)):
            for idx in itertools.product(range(len(LAYERS)), repeat=k):
                yield ["stack", f, list(idx)]
    for n in (3, 4, 5, 6, 7, 8, 9, 10, 13, 17, 24, 40):
        for v in range(3):
            yield ["stack", v, [(v + 3 * i + i // 4) % 4 for i in range(n)]]
    if tier == "thorough":
        for f in range(len(FRONT)):
            for idx in [()] + [(i,) for i in range(len(LAYERS))]:
                yield ["pairs", f, list(idx)]


def run(case, ctx):
    kind, fi, idx = case
    f = FRONT[fi]
    for b in BACK:
        layers = [LAYERS[i] for i in idx]
        spec = slabs_of(f, layers, b)
        detail = dict(stack=[f, layers, b])
        base = build(spec)(PTS)
        rs, rp = ref.amplitudes(
            [s[1] for s in spec], [s[2] / 10 for s in spec], PTS[:, 1], PTS[:, 0]
        )
        amp = np.hypot(np.abs(rs), np.abs(rp))
        live = amp > 1e-6
        ctx.skip(int((~live).sum()))
        ctx.state((fi, tuple(idx), b))
        if kind == "pairs":
            for n1, s1 in transforms(spec):
                for n2, s2 in transforms(s1):
                    got = build(s2)(PTS)
                    ctx.step(2)
                    ctx.trace()
                    same(ctx, got, base, amp, "invariance broken", transformation=[n1, n2], **detail)
            continue
        psi, delta = base
        ctx.outcome((round(float(psi[3]), 4), round(float(delta[3]), 3)))
        ctx.check(bool(np.all((psi[live] >= 0) & (psi[live] <= 90))), "Psi outside [0, 90]", psi=psi, **detail)
        ctx.check(
            bool(np.all((delta[live] >= 0) & (delta[live] <= 360))), "Delta outside [0, 360]", delta=delta, **detail
        )
        nrm = live & (PTS[:, 1] == 0)
        ctx.check(bool(np.all(np.abs(psi[nrm] - 45) < 1e-5)), "Psi at normal incidence", psi=psi, **detail)
        ctx.check(bool(np.all(ref.circ(delta[nrm], 180) < 1e-5)), "Delta at normal incidence", delta=delta, **detail)
        for name, sp in transforms(spec):
            got = build(sp)(PTS)
            ctx.step()
            ctx.trace()
            same(ctx, got, base, amp, "invariance broken", transformation=name, **detail)
        for sc in SCALES:
            sp = [(k, n, t * sc, r) for k, n, t, r in spec]
            got = build(sp)(PTS * [sc, 1.0])
            ctx.step()
            ctx.trace()
            same(ctx, got, base, amp, "scaling broken", factor=sc, **detail)
        # offset and reflected convention
        for off in OFFSETS:
            p2, d2 = build(spec, off)(PTS)
            ctx.step()
            ctx.trace()
            ctx.close(p2[live], psi[live], "offset changed Psi", atol=1e-9, offset=off, **detail)
            ctx.close(d2[live], delta[live] + off, "offset not added to Delta", atol=1e-9, offset=off, **detail)
            # an objective whose data use the reflected convention compares
            # with reflected predictions: residuals of perfect data vanish
            data = DataSE((PTS[live, 0], PTS[live, 1], psi[live], ref.reflect(delta[live]) + off))
            if off == 0:
                data = DataSE(
                    (PTS[live, 0], PTS[live, 1], psi[live], delta[live]), reflect_delta=True
                )
                if live.any():
                    res = ObjectiveSE(build(spec), data).residuals()
                    ctx.close(res, np.zeros_like(res), "reflected convention", atol=1e-6, **detail)
            w = 658.0
            sel = PTS[:, 0] == w
            tab = np.array([[t, complex(n).real, complex(n).imag, r] for k, n, t, r in spec])
            p3, d3 = Delta_Psi_TMM(PTS[sel, 1], tab, w, off, reflect_delta=True)
            lv = live[sel]
            ctx.close(p3[lv], psi[sel][lv], "Psi with reflection", atol=1e-9, **detail)
            ctx.close(
                d3[lv], ref.reflect(delta[sel][lv]) + off, "reflected Delta plus offset", atol=1e-9, offset=off, **detail
            )
