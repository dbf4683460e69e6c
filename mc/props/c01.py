"""C01: Psi/Delta equal the exact Maxwell solution for any stack."""
import itertools

import numpy as np

from mc import ref
from mc.sut import *

ID = "C01"
BOUNDS = {
    "quick": "every stack fronting(5) x <=2 layers from 12 materials x 6 "
    "thicknesses (0..0.3 mm) x backing(7); every 3-layer stack over 15 layer "
    "kinds x 3 frontings x 3 backings; periodic stacks of 1..64 layers; all "
    "pairs of dispersive layers; each at 6..228 optical points; every one-layer "
    "stack of 8 frontings x 18 materials (n 0.9..10, k 0..12) x 18 thicknesses "
    "(0.01 A..1 mm) x 12 backings at 384 points (120 nm..30 um, 0.3..89.9 deg); 9 frontings/backings x "
    "5 angles x 2 wavelengths with the film that extinguishes s or p light, at 10 "
    "relative detunings, and bare interfaces around the Brewster angle; 12 pairs of "
    "media x 3 films at 16 distances (1e-7..3 deg) either side of the critical angle",
    "thorough": "as quick with every 3-layer stack over 40 layer kinds, every "
    "4-layer stack over 10 layer kinds, periodic stacks of 1..128 layers",
}
ASSUMPTIONS = [
    "oracle: Airy recursion with the decaying/forward root in every layer "
    "(mc/ref.py), independent of the transfer-matrix code",
    "compared through (cos 2Psi, sin 2Psi cos Delta, sin 2Psi sin Delta) to "
    "1e-7; points where |rs|,|rp| < 1e-6 are outside the domain",
    "at most 8 opaque layers per stack (matrix products overflow beyond ~20)",
]
BLOCK = 1

MAT = [
    1.0, 1.33, 1.46, 2.4, 1.2, 1.5 + 1e-6j, 1.5 + 0.01j, 3.85 + 0.02j,
    5.0 + 3.0j, 0.18 + 3.4j, 0.05 + 4.2j, 1.0 + 1.0j,
]
THICK = [250.0, 0.0, 3.0, 1300.0, 2e4, 3e6]
FRONT = [1.0, 1.33, 1.5, 2.4, 1.46 + 0.2j]
BACK = [3.85 + 0.02j, 1.0, 1.33, 1.46, 0.18 + 3.4j, 2.4, 1.2]
LAYERS = list(itertools.product(MAT, THICK))
L15 = list(
    itertools.product([1.0, 1.46, 2.4, 0.18 + 3.4j, 3.85 + 0.02j], [30.0, 700.0, 2e4])
)
L40 = list(
    itertools.product(
        [1.0, 1.33, 1.46, 2.4, 1.5 + 0.01j, 3.85 + 0.02j, 0.18 + 3.4j, 1.0 + 1j],
        [0.0, 30.0, 250.0, 1300.0, 2e4],
    )
)
L10 = list(
    itertools.product([1.0, 1.46, 2.4, 0.18 + 3.4j, 3.85 + 0.02j], [30.0, 1300.0])
)

GRID = np.array(
    [
        (w, a)
        for w in (193.0, 250.0, 300.0, 400.0, 532.5, 658.0, 750.0, 900.0, 1000.0,
                  1500.0, 1700.0, 2500.0)
        for a in (0.0, 1e-3, 5.0, 15.0, 30.0, 40.0, 41.5, 45.0, 50.0, 55.0, 60.0,
                  62.5, 65.0, 70.0, 75.0, 80.0, 85.0, 89.0, 89.99)
    ]
)
SMALL = np.array(
    [(w, a) for w in (300.0, 658.0) for a in (0.0, 20.0, 35.0, 44.0, 57.0, 65.0, 75.0, 88.0)]
)
TINY = np.array(
    [(w, a) for w in (658.0,) for a in (0.0, 30.0, 44.0, 57.0, 65.0, 75.0)]
)

# wide menus of unremarkable values
XMAT = MAT + [0.9, 1.2 + 7.3j, 0.03 + 12.0j, 10.0, 1.5 + 1e-9j, 1.5 + 1e-3j]
XTHICK = [0.01, 0.07, 0.3, 0.9, 1.7, 5.3, 11.1, 37.3, 77.7, 133.3, 444.4, 999.9, 5432.1, 12345.6, 77777.7, 4.4e5, 2.2e6, 1e7]
XFRONT = FRONT + [1.7, 1.2 + 7.3j, 0.18 + 3.4j]
XBACK = BACK + [1.2 + 7.3j, 0.03 + 12.0j, 0.9, 4.1 + 5.4j, 1.5 + 1e-6j]
XGRID = np.array(
    [
        (w, a)
        for w in (121.6, 157.1, 193.37, 248.3, 355.1, 441.6, 488.1, 514.53, 546.07, 589.3, 632.81639428, 1064.2, 1550.3, 3391.2,
                  10591.1, 30000.7)
        for a in (0.3, 2.2, 7.7, 23.4, 33.3, 37.1, 47.7, 51.2, 53.9, 58.8, 61.73829461, 63.3, 66.6, 68.9, 71.3, 73.7, 77.2, 79.9,
                  82.4, 86.6, 87.7, 88.8, 89.5, 89.9)
    ]
)


def check_stack(ctx, f, layers, b, pts, tag):
    s = stack(f, layers, b)
    m = ReflectModelSE(s)
    psi, delta = m(pts)
    n = [f] + [l[0] for l in layers] + [b]
    d = [0.0] + [l[1] / 10 for l in layers] + [0.0]
    ctx.step(len(layers) + 2)
    ctx.trace()
    ctx.state((f, tuple(map(tuple, layers)), b))
    ref.compare_psi_delta(
        ctx, psi, delta, n, d, pts[:, 1], pts[:, 0],
        "Psi/Delta differ from the exact solution", stack=[f, layers, b], stage=tag,
    )
    ctx.outcome((round(float(psi[-1]), 3), round(float(delta[-1]), 2)))


DISP = {
    "const": (lambda: RI((1.7, 0.05)), lambda w: np.full(w.shape, 1.7 + 0.05j)),
    "cauchy": (lambda: Cauchy(1.45, 0.004, 1e-4), lambda w: ref.cauchy((1.45, 0.004, 1e-4), w)),
    "sellmeier": (
        lambda: Sellmeier(1.1, 0.095, 0.011, Einf=1.05),
        lambda w: np.sqrt(ref.sellmeier_eps((1.1, 0.095, 0.011, 1.05), w)),
    ),
    "lorentz": (
        lambda: Lorentz([4.0, 8.0], [0.3, 0.6], [2.2, 5.0], Einf=1.6),
        lambda w: np.sqrt(ref.lorentz_eps([(4.0, 0.3, 2.2), (8.0, 0.6, 5.0)], 1.6, ref.HC / w)),
    ),
    "tauclorentz": (
        lambda: TaucLorentz([60.0, 10.0], [2.5, 1.0], [3.8, 5.0], 1.7, Einf=1.3),
        lambda w: np.sqrt(
            ref.tl_eps([(60.0, 2.5, 3.8), (10.0, 1.0, 5.0)], 1.7, 1.3, ref.HC / w)
        ),
    ),
    "table": (
        lambda: RI((np.array([0.3, 0.5, 0.9]), np.array([1.4, 1.6, 1.5]), np.array([0.3, 0.1, 0.0]))),
        lambda w: np.interp(w, [300, 500, 900], [1.4, 1.6, 1.5])
        + 1j * np.interp(w, [300, 500, 900], [0.3, 0.1, 0.0]),
    ),
}
DNAMES = list(DISP)


def tuned(f, b, aoi, wav):
    """Stacks that reflect (almost) no s or no p light: Psi near 90 or 0."""
    be = f * np.sin(np.deg2rad(aoi))
    q0, q2 = np.sqrt(f**2 - be**2), np.sqrt(b**2 - be**2)
    out = []
    n1 = np.sqrt(q0 * q2 + be**2)
    out.append((n1, wav / 4 / np.sqrt(n1**2 - be**2)))
    g2 = q0 / f**2 * q2 / b**2
    disc = 1 - 4 * g2 * be**2
    if disc > 0:
        for sg in (1, -1):
            n1 = np.sqrt((1 + sg * np.sqrt(disc)) / 2 / g2)
            if n1 > be + 0.05:
                out.append((n1, wav / 4 / np.sqrt(n1**2 - be**2)))
    return out


def cases(tier):
    # 0 and 1 layer, full optical grid
    for fi in range(len(FRONT)):
        for bi in range(len(BACK)):
            yield ["d01", fi, bi]
    for k in range(1, 65 if tier == "quick" else 129):
        yield ["long", k]
    for a in DNAMES:
        for b in DNAMES:
            yield ["disp", a, b]
    yield ["direct"]
    for f in (1.0, 1.33, 1.7):
        for b in (1.46, 2.4, 3.85):
            yield ["tuned", f, b]
    for f in (1.33, 1.5, 2.4, 3.4):
        for b in (1.0, 1.2, 1.31):
            yield ["critical", f, b]
    for fi in range(len(XFRONT)):
        for bi in range(len(XBACK)):
            yield ["wide", fi, bi]
    for fi in range(len(FRONT)):
        for i in range(len(LAYERS)):
            yield ["d2", fi, i]
    for fi in (0, 2, 3):
        for i in range(len(L15)):
            for j in range(len(L15)):
                yield ["d3", fi, i, j]
    if tier == "thorough":
        for fi in (0, 2, 3):
            for i in range(len(L40)):
                for j in range(len(L40)):
                    yield ["d3t", fi, i, j]
        for fi in (0, 2):
            for i in range(len(L10)):
                for j in range(len(L10)):
                    yield ["d4", fi, i, j]


def run(case, ctx):
    kind = case[0]
    if kind == "d01":
        f, b = FRONT[case[1]], BACK[case[2]]
        check_stack(ctx, f, [], b, GRID, kind)
        for l in LAYERS:
            check_stack(ctx, f, [l], b, GRID, kind)
    elif kind == "wide":
        f, b = XFRONT[case[1]], XBACK[case[2]]
        check_stack(ctx, f, [], b, XGRID, kind)
        for l in itertools.product(XMAT, XTHICK):
            check_stack(ctx, f, [l], b, XGRID, kind)
    elif kind == "tuned":
        f, b = case[1:]
        br = np.degrees(np.arctan(b / f))
        pts = np.array([(500.0, br + e) for e in (-3.0, -0.3, -0.03, -3e-3, 3e-3, 0.03, 0.3, 3.0) if br + e < 90])
        check_stack(ctx, f, [], b, pts, kind)
        check_stack(ctx, f, [(f, 1234.5)], b, pts, kind)
        for aoi in (5.0, 35.0, 55.0, 70.0, 80.0):
            for wav in (333.3, 632.8):
                for n1, d in tuned(f, b, aoi, wav):
                    for e in (-0.1, -1e-2, -1e-3, -1e-4, -1e-5, 1e-5, 1e-4, 1e-3, 1e-2, 0.1):
                        check_stack(ctx, f, [(n1, d * 10 * (1 + e))], b, np.array([(wav, aoi)]), kind)
    elif kind == "critical":
        # either side of the onset of total reflection, bare and through films
        f, b = case[1:]
        ac = np.degrees(np.arcsin(b / f))
        e = np.array([1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 1.0, 3.0])
        pts = np.array([(w, a) for w in (405.0, 632.8) for a in ac + np.r_[-e[::-1], e] if a < 90])
        for layers in ([], [(1.46, 333.0)], [(b, 2000.0)], [(b, 2e5)], [(0.18 + 3.4j, 450.0)], [(2.1, 700.0), (b, 300.0)]):
            check_stack(ctx, f, layers, b, pts, kind)
        # the onset inside a film, with another medium behind it
        check_stack(ctx, f, [(b, 3000.0)], 3.85 + 0.02j, pts, kind)
        check_stack(ctx, f, [(b, 3000.0)], f, pts, kind)
    elif kind == "d2":
        f, l1 = FRONT[case[1]], LAYERS[case[2]]
        backs = BACK if ctx.tier == "thorough" else BACK[:4]
        for l2 in LAYERS:
            for b in backs:
                check_stack(ctx, f, [l1, l2], b, SMALL, kind)
    elif kind in ("d3", "d3t"):
        A = L15 if kind == "d3" else L40
        f = FRONT[case[1]]
        for l3 in A:
            for b in BACK[:3]:
                check_stack(ctx, f, [A[case[2]], A[case[3]], l3], b, TINY, kind)
    elif kind == "d4":
        f = FRONT[case[1]]
        for l3 in L10:
            for l4 in L10:
                for b in BACK[:2]:
                    check_stack(ctx, f, [L10[case[2]], L10[case[3]], l3, l4], b, TINY, kind)
    elif kind == "long":
        k = case[1]
        for cell in (
            [(1.46, 900.0), (2.4, 600.0)],
            [(1.38, 100.0), (1.5 + 0.001j, 40.0), (2.1, 77.0)],
            [(1.5, 10.0)],
            [(3.85 + 0.02j, 12.0), (1.46, 20.0)],
        ):
            layers = [cell[i % len(cell)] for i in range(k)]
            for f, b in ((1.0, 3.85 + 0.02j), (1.5, 1.0), (1.33, 0.18 + 3.4j)):
                check_stack(ctx, f, layers, b, TINY, kind)
        # opaque layers anywhere in the stack
        if k <= 8:
            for pos in range(k):
                layers = [(1.46, 300.0)] * k
                layers[pos] = (0.18 + 3.4j, 1e5)
                check_stack(ctx, 1.0, layers, 3.85 + 0.02j, SMALL, kind)
                layers[: pos + 1] = [(1.0 + 1.0j, 2e5)] * (pos + 1)
                check_stack(ctx, 1.5, layers, 1.0, SMALL, kind)
    elif kind == "disp":
        a, b = case[1:]
        wavs = np.array([240.0, 310.0, 400.0, 475.0, 532.0, 633.0, 800.0, 990.0])
        pts = np.array([(w, t) for w in wavs for t in (10.0, 50.0, 65.0, 75.0)])
        w = pts[:, 0]
        for back in ("const", b):
            s = RI((1.0, 0.0))() | DISP[a][0]()(321) | DISP[b][0]()(1234) | DISP[back][0]()()
            psi, delta = ReflectModelSE(s)(pts)
            n = np.array([np.ones_like(w), DISP[a][1](w), DISP[b][1](w), DISP[back][1](w)])
            ctx.state((a, b, back))
            ctx.step(4)
            ctx.trace()
            ref.compare_psi_delta(
                ctx, psi, delta, n, [0, 32.1, 123.4, 0], pts[:, 1], w,
                "dispersive stack", materials=[a, b, back],
            )
    elif kind == "direct":
        # the two published functions agree with the exact solution too
        for f, b in itertools.product(FRONT[:4], BACK):
            for layers in [[]] + [[l] for l in LAYERS]:
                n = np.array([f] + [l[0] for l in layers] + [b], complex)
                d = [np.inf] + [l[1] / 10 for l in layers] + [np.inf]
                aoi = SMALL[:8, 1]
                r = coh_tmm(n, d, np.deg2rad(aoi), 658.0)
                rs, rp = ref.amplitudes(n, d, aoi, 658.0)
                ctx.step()
                ctx.trace()
                ctx.state(("direct", f, b, tuple(layers)))
                ctx.close(r["r_s"], rs, "coh_tmm r_s", rtol=1e-8, atol=1e-8, stack=[f, layers, b])
                ctx.close(r["r_p"], rp, "coh_tmm r_p", rtol=1e-8, atol=1e-8, stack=[f, layers, b])
                tab = np.array([[0, f, 0.7, 0]] + [[l[1], complex(l[0]).real, complex(l[0]).imag, 5.0] for l in layers]
                               + [[0, complex(b).real, complex(b).imag, 9.0]], float)
                keep = tab.copy()
                psi, delta = Delta_Psi_TMM(aoi, tab, 658.0, 0.0)
                ctx.equal(tab, keep, "Delta_Psi_TMM changed its input")
                ref.compare_psi_delta(ctx, psi, delta, n, d, aoi, 658.0, "Delta_Psi_TMM", stack=[f, layers, b])
    else:
        raise ValueError(kind)
