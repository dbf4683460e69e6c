"""C08: dispersion models follow their formulas."""
import itertools

import numpy as np

from mc import ref
from mc.sut import *

ID = "C08"
BOUNDS = {
    "quick": "Cauchy 5x4x4 and 72 small/many-digit ones, Sellmeier 4x4x3x4 + 72, Lorentz/Gauss/Tauc-Lorentz "
    "1..2 oscillators over parameter grids (incl. band gap = photon energy and "
    "C up to 1.9999 En), each at 54 wavelengths of 0.12..10.6 um as scalar, 1-element, integer "
    "and long array, with and without default wavelength, before and after "
    "every single-parameter change; absorption of 12 narrow (0.03..0.09 eV) Gauss oscillators at 9 energies across the line",
    "thorough": "as quick with finer parameter grids, 1..3 oscillators and 181 wavelengths",
}
ASSUMPTIONS = [
    "oracle: formulas of mc/ref.py (Tauc-Lorentz: Jellison-Modine closed form "
    "without band-gap singularity; Gauss: Dawson function)",
    "Gauss real part is compared within the error bound of a Hilbert transform "
    "on a +-20 eV grid of 2048 points",
    "Sellmeier parameters with positive dielectric function",
]

WAVQ = sorted({120.0, 157.6, 2600.0, 3390.0, 5300.0, 10600.0, 193.0, 248.0, 266.5, 300.0, 337.1, 365.0, 404.7, 435.8, 486.1, 500.0, 532.0, 546.1, 587.6, 589.3, 600.0, 632.8,
               658.0, 700.0, 755.5, 800.0, 850.0, 905.0, 1000.0, 1064.0, 1310.0, 1550.0, 1700.0, 2000.0}
              | {ref.HC / e for e in (0.22, 0.31, 0.45, 0.8, 1.0, 1.5, 1.7, 2.0, 2.1, 2.5, 3.0, 3.2, 3.5, 4.0, 4.2, 4.5, 5.0, 5.5, 6.0, 6.4)})
WAVT = sorted(set(WAVQ) | {200.0 + 11.5 * i for i in range(136)})


def wavs(tier):
    return np.array(WAVQ if tier == "quick" else WAVT)


def cases(tier):
    t = tier != "quick"
    for A, B, C in itertools.product(
        [1.0, 1.33, 1.45, 2.1, 3.5], [0.0, 0.003, 0.02, -0.01], [0.0, 1e-4, 2e-3, -1e-4]
    ):
        yield ["cauchy", [A, B, C]]
    # small and large coefficients
    for x, y in itertools.product((1e-9, -1e-7, 1e-6, 3e-5, -1e-5, 0.2), (1e-9, -1e-8, 1e-7, 9e-7, -3e-6, 0.01)):
        yield ["cauchy", [1.5, x, y]]
        yield ["cauchy", [2.7182818284, 0.0123456789 + x, y]]
        yield ["sellmeier", [1.1 + x, 0.0987654321, y, 1.3]]
        yield ["sellmeier", [abs(x), 0.09, abs(y) / 10, 2.2]]
    for a in (1e-6, 1e-4, 1e-2):
        yield ["lorentz", [[a, 0.2, 2.9]], 1.4]
        yield ["lorentz", [[a, 1e-3, 2.9], [4.0, 0.5, 5.0]], 1.4]
        yield ["lorentz", [[2.0, a, 2.9], [4.0, 0.5, 5.0]], 1.4]
        yield ["gauss", [[a, 0.4, 2.9], [4.0, 0.5, 5.0]], 1.4]
        yield ["gauss", [[a, 0.4, 2.9]], 1.4]
        yield ["tl", [[100 * a, 1.2, 2.9]], 1.4, 0.9]
        yield ["tl", [[100 * a, 1.2, 2.9], [50.0, 2.0, 4.5]], 1.4, a]
    for B, En in itertools.product((0.03, 0.05, 0.07, 0.09), (1.7, 3.3, 5.1)):
        yield ["narrow", B, En]
    for Am, En, P, Ei in itertools.product([0.5, 1.1, 2.0, 4.0], [0.0, 0.05, 0.1, 0.15], [0.0, 0.01, 0.11], [0.0, 1.0, 1.5, 3.0]):
        yield ["sellmeier", [Am, En, P, Ei]]
    lor = list(itertools.product([0.0, 1.0, 12.0], [0.0, 0.05, 0.5, 3.0], [0.7, 2.13, 3.9, 6.6]))
    gau = list(itertools.product([0.0, 1.0, 5.0], [0.1, 0.3, 0.8, 2.0], [1.5, 2.5, 4.2, 6.5]))
    tl = [
        (A, c * En, En)
        for A, c, En in itertools.product([1.0, 40.0, 150.0], [0.05, 0.5, 1.2, 1.45, 1.9, 1.99, 1.9999], [2.6, 3.6, 5.0])
    ]
    for kind, osc in (("lorentz", lor), ("gauss", gau)):
        for o in osc:
            for einf in (1.0, 2.5, 0.0):
                yield [kind, [list(o)], einf]
        pairs = itertools.combinations(osc, 2) if t else zip(osc, osc[7:] + osc[:7])
        for pair in pairs:
            yield [kind, [list(o) for o in pair], 1.7]
        tri = zip(osc, osc[5:] + osc[:5], osc[11:] + osc[:11])
        for tr in list(tri)[:: 1 if t else 4]:
            yield [kind, [list(o) for o in tr], 1.7]
    for Eg in (0.0, 0.2, 0.3, 0.5, 1.0, 1.5, 2.1, 2.5):
        for o in tl:
            yield ["tl", [list(o)], 1.0, Eg]
            yield ["tl", [list(o)], 0.0, Eg]
        pairs = itertools.combinations(tl, 2) if t else zip(tl, tl[5:] + tl[:5])
        for pair in pairs:
            yield ["tl", [list(o) for o in pair], 2.2, Eg]
        for tr in list(zip(tl, tl[5:] + tl[:5], tl[11:] + tl[:11]))[:: 1 if t else 6]:
            yield ["tl", [list(o) for o in tr], 2.2, Eg]


def build(kind, p, wavelength=None):
    kw = {} if wavelength is None else dict(wavelength=wavelength)
    if kind == "cauchy":
        return Cauchy(*p[0], **kw)
    if kind == "sellmeier":
        Am, En, P, Ei = p[0]
        return Sellmeier(Am, En, P, Einf=Ei, **kw)
    a, b, c = (list(x) for x in zip(*p[0]))
    if len(a) == 1:
        a, b, c = a[0], b[0], c[0]
    if kind == "lorentz":
        return Lorentz(a, b, c, Einf=p[1], **kw)
    if kind == "gauss":
        return Gauss(a, b, c, Einf=p[1], **kw)
    return TaucLorentz(a, b, c, p[2], Einf=p[1], **kw)


def refeps(kind, p, w):
    """reference dielectric function and tolerance at wavelengths w (nm)"""
    w = np.asarray(w, float)
    E = ref.HC / w
    if kind == "cauchy":
        e = ref.cauchy(p[0], w) ** 2
        return e, 1e-10 * np.abs(e) + 1e-12
    if kind == "sellmeier":
        e = ref.sellmeier_eps(p[0], w)
        scale = np.abs(p[0][3]) + np.abs(e)
        return e, 1e-9 * scale
    if kind == "lorentz":
        e = ref.lorentz_eps(p[0], p[1], E)
        # conditioning next to an undamped resonance
        c = sum(np.abs(A) * (En**2 + E**2) / np.abs(En**2 - E**2 - 1j * B * E) ** 2 for A, B, En in p[0])
        return e, 1e-9 * np.abs(e) + 1e-13 * c + 1e-12
    if kind == "gauss":
        e = ref.gauss_eps(p[0], p[1], E)
        tol = 1e-6
        h = 40 / 2047
        for A, B, En in p[0]:
            s = B / 2 / np.sqrt(np.log(2))
            # interpolation and periodicity of the transform
            tol = tol + abs(A) * (2.5 * h**2 / 8 * 2 / s**2 + 1.6 * s * np.sqrt(np.pi) * 2 * En * (np.pi / 40) ** 2 / 3 / np.pi
                                  + 3 * np.exp(-(((20 - En) / s) ** 2)))
        return e, tol
    e = ref.tl_eps(p[0], p[2], p[1], E)
    return e, 1e-7 * (1 + np.abs(e))


def compare(ctx, got, e, tol, msg, **d):
    """n + ik against the reference dielectric function"""
    got = np.asarray(got)
    ctx.check(got.shape == e.shape, msg + ": shape", got=got.shape, want=e.shape, **d)
    bad = ~(np.abs(got**2 - e) <= tol)
    if bad.any():
        i = int(np.argmax(bad))
        g, w = got.reshape(-1)[i], np.asarray(e).reshape(-1)[i]
        ctx.fail(msg, point=i, got=g, want=complex(np.sqrt(w)), got_eps=g**2, want_eps=w, **d)
    ctx.check(bool(np.all(got.real >= 0)) and bool(np.all(got.imag >= -np.sqrt(tol))), msg + ": branch of the root", got=got, **d)


def params(m, kind, p):
    """[(parameter object, setter into the record, new value)]"""
    out = []
    if kind == "cauchy":
        for i, nm in enumerate("ABC"):
            out.append((getattr(m, nm), ("flat", i), p[0][i] + 0.01))
        return out
    if kind == "sellmeier":
        for i, nm in enumerate(["Am", "En", "P", "Einf"]):
            out.append((getattr(m, nm), ("flat", i), p[0][i] + [0.3, 0.01, 0.002, 0.4][i]))
        return out
    names = ["Am", "C" if kind == "tl" else "Br", "En"]
    for k in range(len(p[0])):
        for i, nm in enumerate(names):
            out.append((getattr(m, nm)[k], ("osc", k, i), p[0][k][i] * 1.05 + (0.0 if kind == "tl" else 0.07)))
    out.append((m.Einf, ("einf",), p[1] + 0.6))
    if kind == "tl":
        out.append((m.Eg, ("eg",), p[2] + 0.05))
    return out


def updated(p, where, v):
    q = [[list(o) if isinstance(o, list) else o for o in p[0]]] + list(p[1:])
    if where[0] == "flat":
        q[0][where[1]] = v
    elif where[0] == "osc":
        q[0][where[1]][where[2]] = v
    elif where[0] == "einf":
        q[1] = v
    else:
        q[2] = v
    return q


def valid(kind, p, w):
    if kind == "cauchy":
        return ref.cauchy(p[0], w).real > 0.3
    if kind == "sellmeier":
        e = ref.sellmeier_eps(p[0], w)
        return (e.real > 0.05) & (np.abs(w / 1000 - p[0][1]) > 1e-3)
    if kind == "lorentz":
        E = ref.HC / w
        ok = np.ones(w.shape, bool)
        for A, B, En in p[0]:
            ok &= (B > 0) | (np.abs(E - En) > 1e-3)
        return ok
    return np.ones(w.shape, bool)


def run_narrow(ctx, B, En):
    """the absorption of a narrow Gauss line, within the error of a linear interpolation on the energy grid"""
    s = B / 2 / np.sqrt(np.log(2))
    E = En + B * np.array([-1.5, -1.0, -0.6, -0.3, 0.0, 0.3, 0.6, 1.0, 1.5])
    for A in (0.7, 4.0):
        for other in ([], [(1.3, 1.1, 4.2)]):
            osc = [(A, B, En)] + other
            m = build("gauss", [[list(o) for o in osc], 1.6])
            want = ref.gauss_eps(osc, 1.6, E).imag
            tol = 1.1 * (40 / 2047) ** 2 / 8 * sum(2 * a / (b / 2) ** 2 * np.log(2) for a, b, _ in osc) + 1e-6
            for how, got in (("dielectric function", m.epsilon(E)), ("index", m.complex(ref.HC / E) ** 2)):
                ctx.check(bool(np.all(np.abs(np.imag(got) - want) <= tol)), "absorption of a narrow line", got=np.imag(got), want=want,
                          tolerance=tol, how=how, oscillators=osc)
            ctx.step()
            ctx.state(("narrow", A, B, En, len(other)))
    ctx.trace()


def run(case, ctx):
    if case[0] == "narrow":
        return run_narrow(ctx, *case[1:])
    kind, p = case[0], case[1:]
    w = wavs(ctx.tier)
    if kind == "tl":
        w = np.unique(np.r_[w, [ref.HC / x for x in [p[2]] + [o[2] for o in p[0]] if x > 0.1]])
    ok = valid(kind, p, w)
    ctx.skip(int((~ok).sum()))
    w = w[ok]
    if w.size == 0:
        return
    d = dict(kind=kind, parameters=p)
    m = build(kind, p)
    e, tol = refeps(kind, p, w)
    tol = np.broadcast_to(tol, e.shape)
    compare(ctx, m.complex(w), e, tol, "array of wavelengths", **d)
    # scalars, one element, integers, python floats
    for i in range(0, len(w), 1 if ctx.tier == "thorough" else 3):
        g = m.complex(float(w[i]))
        ctx.check(np.ndim(g) == 0, "scalar wavelength gives a scalar", **d)
        compare(ctx, g, e[i], tol[i], "scalar wavelength", wavelength=w[i], **d)
        compare(ctx, m.complex(w[i : i + 1]), e[i : i + 1], tol[i : i + 1], "one-element array", wavelength=w[i], **d)
    wi = np.array([400, 633, 1000])
    wi = wi[valid(kind, p, wi.astype(float))]
    if wi.size:
        ei, ti = refeps(kind, p, wi)
        compare(ctx, m.complex(wi), ei, np.broadcast_to(ti, ei.shape), "integer wavelengths", **d)
        for dt in (np.int32, np.int16, np.uint16):
            compare(ctx, m.complex(wi.astype(dt)), ei, np.broadcast_to(ti, ei.shape), "wavelengths of type " + np.dtype(dt).name, **d)
            compare(ctx, m.complex(dt(wi[0])), ei[0], np.broadcast_to(ti, ei.shape)[0], "wavelength of type " + np.dtype(dt).name, **d)
        compare(ctx, m.complex(int(wi[0])), ei[0], np.broadcast_to(ti, ei.shape)[0], "integer wavelength", **d)
    # long arrays
    if ctx.tier != "quick" or len(p[0]) == 3 or p[0][0] in (1.33, 1.1, [1.0, 0.8, 2.5], [40.0, 1.8, 3.6]):
        for n in (1000, 4100, 10007):
            i = (np.arange(n) * 31) % len(w)
            compare(ctx, m.complex(w[i]), e[i], tol[i], "long array of wavelengths", n=n, **d)
    # reversed order: element by element
    compare(ctx, m.complex(w[::-1]), e[::-1], tol[::-1], "descending wavelengths", **d)
    # dielectric function = square of the index
    if hasattr(m, "epsilon"):
        arg = w if kind == "sellmeier" else ref.HC / w
        g = m.epsilon(arg)
        bad = ~(np.abs(g - e) <= tol)
        ctx.check(not bad.any(), "dielectric function", got=g, want=e, **d)
        n2 = m.complex(w) ** 2
        ctx.check(bool(np.all(np.abs(g - n2) <= 1e-9 * (1 + np.abs(g)) + (2 * tol if kind == "lorentz" else 0))),
                  "index is not the square root of the dielectric function", **d)
        if kind == "tl" and p[2] > 0:
            # the photon energy equal to the gap, bit for bit
            for en in (p[2], np.nextafter(p[2], 9), np.nextafter(p[2], 0)):
                g = m.epsilon(en)
                x = ref.tl_eps(p[0], p[2], p[1], en)
                ctx.check(bool(abs(g - x) <= 1e-7 * (1 + abs(x))), "at the band gap", energy=en, got=g, want=complex(x), **d)
                g = m.epsilon(np.array([en, 2.0]))
                ctx.check(bool(abs(g[0] - x) <= 1e-7 * (1 + abs(x))), "at the band gap, array", energy=en, **d)
    # default wavelength
    for dw in (None, 500.0, 905.0):
        m2 = build(kind, p, dw)
        x = 658.0 if dw is None else dw
        if not valid(kind, p, np.array([x]))[0]:
            continue
        ed, td = refeps(kind, p, np.array([x]))
        td = np.broadcast_to(td, ed.shape)
        compare(ctx, m2.complex(None), ed[0], td[0], "default wavelength", default=dw, **d)
        compare(ctx, complex(m2), ed[0], td[0], "complex() of a material", default=dw, **d)
        compare(ctx, m2.complex(w[-1]), e[-1], tol[-1], "explicit wavelength overrides the default", default=dw, **d)
        compare(ctx, m2.complex(None), ed[0], td[0], "default wavelength after another", default=dw, **d)
        m2.wavelength = 750.0
        if valid(kind, p, np.array([750.0]))[0]:
            ed, td = refeps(kind, p, np.array([750.0]))
            compare(ctx, m2.complex(None), ed[0], np.broadcast_to(td, ed.shape)[0], "changed default wavelength", **d)
    # every parameter, changed one after the other
    q = p
    for par, where, v in params(m, kind, p):
        par.value = v
        q = updated(q, where, v)
        if kind == "tl" and not all(o[1] < 2 * o[2] and o[2] > q[2] for o in q[0]):
            break
        okq = valid(kind, q, w)
        eq, tq = refeps(kind, q, w[okq])
        compare(ctx, m.complex(w[okq]), eq, np.broadcast_to(tq, eq.shape), "after changing a parameter", changed=where, value=v, **d)
        ctx.step()
    ctx.trace(len(w))
    ctx.step(len(w))
    for x in w:
        ctx.state((kind, repr(p), float(x)))
    ctx.outcome((kind, tuple(np.round(e[:4], 5))))
