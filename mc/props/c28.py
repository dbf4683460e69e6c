"""C28: complex reflection and transmission amplitudes of coh_tmm."""
import itertools

import numpy as np

from mc import ref
from mc.sut import *

ID = "C28"
BOUNDS = {
    "quick": "every stack of 5 frontings (one absorbing, with the complex angle) x <=3 layers (10 kinds) x 6 "
    "backings, stacks of 3..6, 9, 14 and 30 layers (2 sequences), 8 angles x 3 wavelengths; 5 frontings x 14 materials x 10 thicknesses (0.001 nm..1 mm) x 7 backings at 40 points (120 nm..30 um, 0..89.9 deg); each against "
    "the exact solution (r_s, r_p, t_s, t_p), energy balance of both polarisations, the stack traversed "
    "backwards (reciprocity); 18 ways to pass the same points (scalars, lists, arrays, columns, grids, "
    "integers, read-only, ends 0/inf/finite); refused complex n0 sin(theta)",
    "thorough": "as quick with <=4 layers",
}
ASSUMPTIONS = [
    "amplitudes compared to 1e-9 + 1e-9/min|kz| absolutely (transmission through opaque layers below 1e-13 is "
    "zero for every purpose)",
]
FRONT = [1.0, 1.33, 2.0, 1.52, 1.33 + 0.02j]
BACK = [3.85 + 0.02j, 1.46, 0.18 + 3.4j, 1.0, 2.0, 1.5 + 1e-6j]
LAYERS = [
    (1.46, 20.0), (1.46, 102.0), (2.4, 33.0), (1.5 + 0.05j, 500.0), (0.18 + 3.4j, 15.0),
    (0.18 + 3.4j, 3000.0), (1.0, 80.0), (1.0, 4000.0), (3.85 + 0.02j, 9.0), (2.0, 0.0),
]
ANG = [0.0, 10.0, 33.0, 45.0, 52.0, 60.0, 70.0, 88.0]
WAV = [300.0, 546.1, 1700.0]
# a wider net of single layers
XMAT = [0.9, 1.0003, 1.2, 1.46, 1.999, 4.0, 10.0, 1.46 + 1e-7j, 1.46 + 1e-3j, 2.0 + 0.4j, 0.05 + 1.9j, 1.4 + 7.5j, 5.0 + 5.0j, 3.0 + 12.0j]
XTHICK = [0.001, 0.3, 1.0, 7.77, 50.0, 123.456, 1000.0, 4321.0, 2e4, 1e6]
XFRONT = [1.0, 1.0003, 1.333, 1.9, 3.5]
XBACK = [1.0, 1.46, 3.5, 1.5 + 0.01j, 0.05 + 3.0j, 4.0 + 0.03j, 10.0 + 10.0j]
XPTS = [(w, t) for w in (120.0, 193.0, 632.8, 3000.0, 30000.0) for t in (0.0, 0.01, 5.0, 41.0, 56.3, 75.0, 89.0, 89.9)]
KEYS = ["r_s", "r_p", "t_s", "t_p"]


def exact(n, d, s, wav):
    """Airy recursion from the back; s = n0 sin(theta) (real), all (P,)"""
    n = np.asarray(n, complex)[:, None] + np.zeros_like(s)
    q = ref.kz_forward(n, s)
    k0 = 2 * np.pi / wav
    out = {}
    for pol in "sp":
        a, b = q[:-1], q[1:]
        m, l = n[:-1], n[1:]
        if pol == "s":
            r = (a - b) / (a + b)
            t = 2 * a / (a + b)
        else:
            den = l**2 * a + m**2 * b
            r = (l**2 * a - m**2 * b) / den
            t = 2 * m * l * a / den
        R, T = r[-1], t[-1]
        for j in range(n.shape[0] - 2, 0, -1):
            ph = np.exp(1j * k0 * q[j] * d[j])
            div = 1 + r[j - 1] * R * ph**2
            T = t[j - 1] * ph * T / div
            R = (r[j - 1] + R * ph**2) / div
        out["r_" + pol], out["t_" + pol] = R, T
    return out, q


def cases(tier):
    yield ["forms"]
    yield ["refuse"]
    for k in range(4 if tier == "quick" else 5):
        for f in range(len(FRONT)):
            for idx in itertools.product(range(len(LAYERS)), repeat=k):
                yield ["stack", f, list(idx)]
    for f in range(len(XFRONT)):
        for i in range(len(XMAT)):
            yield ["wide", f, i]
    for n in (3, 4, 5, 6, 9, 14, 30):
        for v in range(2):
            yield ["stack", v, [(v + 3 * i + i // 4) % 4 for i in range(n)]]


def angles(n0, pts=None):
    a = np.array(pts or [(w, t) for w in WAV for t in ANG])
    s = abs(n0) * np.sin(np.deg2rad(a[:, 1]))
    if complex(n0).imag:
        th = np.lib.scimath.arcsin(s / n0)
    else:
        th = np.deg2rad(a[:, 1])
        s = complex(n0).real * np.sin(th)
    return th, s, a[:, 0]


def run(case, ctx):
    if case[0] == "forms":
        return forms(ctx)
    if case[0] == "refuse":
        return refuse(ctx)
    kind, fi, idx = case
    if kind == "wide":
        for t in XTHICK:
            for b in XBACK:
                stack_case(ctx, (fi, idx, t), XFRONT[fi], [(XMAT[idx], t)], b, XPTS)
        return
    for b in BACK:
        stack_case(ctx, (fi, tuple(idx)), FRONT[fi], [LAYERS[i] for i in idx], b, None)


def stack_case(ctx, key, n0, layers, b, pts):
    n = np.array([n0] + [l[0] for l in layers] + [b], complex)
    d = np.array([np.inf] + [l[1] for l in layers] + [np.inf])
    th, s, w = angles(n0, pts)
    want, q = exact(n, d, s, w)
    with np.errstate(all="ignore"):
        got = coh_tmm(n, d, th, w)
    detail = dict(n=n, d=d)
    ctx.state((key, b))
    ctx.step()
    ctx.trace(len(s))
    qm = np.maximum(np.min(np.abs(q), axis=0), 1e-9)
    tol = 1e-9 + 1e-9 / qm
    # sliding along a boundary (kz -> 0 in some medium): the limit itself is not decided
    live = qm > 1e-6
    ctx.skip(int((~live).sum()))
    ctx.check(set(KEYS) <= set(got), "amplitudes returned", got=list(got))
    for k in KEYS:
        g = np.asarray(got[k])
        ctx.check(g.shape == s.shape, "one amplitude per point", key=k, got=g.shape, **detail)
        bad = live & ~(np.abs(g - want[k]) <= tol * (1 + np.abs(want[k])))
        ctx.check(not bad.any(), f"{k} differs from the exact solution", got=g, want=want[k],
                  at=np.nonzero(bad)[0], theta=th, wavelength=w, **detail)
    ctx.outcome(tuple(np.round(np.r_[[want[k][2] for k in KEYS]], 6)))
    # energy: what is neither reflected nor transmitted is absorbed
    if not complex(n0).imag:
        q0, qf = q[0], q[-1]
        Ts = np.abs(got["t_s"]) ** 2 * qf.real / q0.real
        Tp = np.abs(got["t_p"]) ** 2 * (b * np.conj(qf / b)).real / q0.real
        for pol, T in (("s", Ts), ("p", Tp)):
            tot = np.abs(got["r_" + pol]) ** 2 + T
            e = 1e-7 / qm
            ctx.check(bool(np.all(tot[live] <= (1 + e)[live])), f"more light leaves than enters ({pol})", total=tot, **detail)
            if not np.any(n.imag):
                ctx.check(bool(np.all(np.abs(tot - 1)[live] <= e[live])), f"energy lost in a lossless stack ({pol})", total=tot, **detail)
    # backwards at the same n sin(theta): reciprocity, whatever lies between
    if not complex(n0).imag:
        thb = np.lib.scimath.arcsin(s / b)
        back = (np.abs(s / b) < 0.999) & live
        if back.any():
            with np.errstate(all="ignore"):
                rev = coh_tmm(n[::-1], d[::-1], thb[back], w[back])
            ctx.step()
            for pol in "sp":
                lhs = np.asarray(rev["t_" + pol]) * q[0][back]
                rhs = np.asarray(got["t_" + pol])[back] * q[-1][back]
                ctx.check(bool(np.all(np.abs(lhs - rhs) <= 1e-8 * (1 + np.abs(rhs)) / qm[back])), f"transmission depends on the direction ({pol})",
                          forward=rhs, backward=lhs, **detail)


def forms(ctx):
    stacks = [
        ([1.0, 1.46, 3.85 + 0.02j], [np.inf, 100.0, np.inf]),
        ([1.0, 2.0, 3.0], [0.0, 55.0, 0.0]),
        ([1.33, 2.4], [0, 0]),
        ([1.52, 0.18 + 3.4j, 1.46, 1.0], [np.inf, 30.0, 120.0, np.inf]),
    ]
    for n, d in stacks:
        an, wn = 60.0, 500.0
        grids = {
            "scalars": (np.deg2rad(an), wn),
            "zero-d": (np.array(np.deg2rad(an)), np.array(wn)),
            "one": (np.deg2rad([an]), np.array([wn])),
            "angle array": (np.deg2rad(ANG), wn),
            "angle list": (list(np.deg2rad(ANG)), wn),
            "angle tuple": (tuple(np.deg2rad(ANG)), wn),
            "wavelength array": (np.deg2rad(an), np.array(WAV)),
            "wavelength list": (np.deg2rad(an), WAV),
            "integer wavelengths": (np.deg2rad(an), np.array([300, 546, 1700])),
            "integer angle": (1, 500),
            "fine wavelengths": (np.deg2rad(an), np.array([500.0, 500.2, 500.21, 500.7])),
            "fine angles": (np.deg2rad([60.0, 60.0001, 60.01, 59.99]), 500.0),
            "equal points": (np.deg2rad([60.0, 60.0, 10.0, 60.0]), np.array([500.0, 600.0, 500.0, 500.0])),
            "both": (np.deg2rad(ANG[:3]), np.array(WAV)),
            "grid": (np.deg2rad(ANG)[:, None], np.array(WAV)[None, :]),
            "grid transposed": (np.deg2rad(ANG)[None, :], np.array(WAV)[:, None]),
            "empty": (np.zeros(0), 500.0),
            "complex angles": (np.deg2rad(ANG).astype(complex), 500.0),
        }
        for name, (th, w) in grids.items():
            for ends in (None, 0.0, np.inf, 77.0):
                for form in ("list", "array", "tuple", "read-only"):
                    dd = list(d)
                    if ends is not None:
                        dd[0] = dd[-1] = ends
                    nn, de = list(n), list(dd)
                    if form == "tuple":
                        nn, de = tuple(n), tuple(dd)
                    elif form != "list":
                        nn, de = np.array(n), np.array(dd)
                        if form == "read-only":
                            nn.flags.writeable = de.flags.writeable = False
                    t2, w2 = th, w
                    if form == "read-only":
                        t2, w2 = np.array(th), np.array(w)
                        t2.flags.writeable = w2.flags.writeable = False
                    keep = [np.array(x, copy=True) for x in (nn, de, t2, w2)]
                    with np.errstate(all="ignore"):
                        got = coh_tmm(nn, de, t2, w2)
                    ctx.step()
                    ctx.trace()
                    ctx.state((name, ends, form, len(n)))
                    for x, y in zip((nn, de, t2, w2), keep):
                        ctx.check(np.array_equal(np.asarray(x), y), "an argument was modified", form=[name, ends, form])
                    bt, bw = np.broadcast_arrays(np.asarray(th), np.asarray(w, float))
                    bt, bw = np.ravel(bt), np.ravel(bw)
                    want, _ = exact(n, d, np.real(n[0] * np.sin(bt)), bw)
                    for k in KEYS:
                        ctx.close(np.ravel(got[k]), want[k], "amplitudes of the same points", atol=1e-9, key=k,
                                  form=[name, ends, form], n=n)


def refuse(ctx):
    # intensity must not vary along the surface
    for n0, th in [(1.33 + 0.02j, 0.5), (1.0 + 1e-3j, 1.2), (1.0, 0.5 + 0.1j)]:
        for k in range(3):
            ths = np.array([0.0] * k + [th])
            ctx.state((n0, th, k))
            ctx.step()
            ctx.trace()
            ctx.raises(lambda: coh_tmm([n0, 1.5, 3.8], [0, 10.0, 0], ths, 500.0), "complex n0 sin(theta)", n0=n0, theta=th)
