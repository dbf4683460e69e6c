"""C10: oscillators superpose, are passive and Kramers-Kronig consistent."""
import itertools

import numpy as np
from refnx.analysis import Parameter, Parameters

from mc import ref
from mc.sut import *

ID = "C10"
BOUNDS = {
    "quick": "every multiset of 1..3 oscillators (repeats and equal energies included) from a menu of 7 per model (amplitudes 0, 0.004 and up), in "
    "every order, 4..20, 32, 50 and 100 different oscillators in 3 orders, in 6 parameter forms, for 3 models x 3 offsets x 2 gaps; "
    "absorption >= 0 on 160 energies; Kramers-Kronig integral at 9 energies "
    "for every single oscillator of the menu",
    "thorough": "multisets of 1..4 oscillators from a menu of 10",
}
ASSUMPTIONS = [
    "amplitudes, broadenings >= 0; Tauc-Lorentz with C < 2 En, En > Eg",
    "Kramers-Kronig integral evaluated numerically on the implementation's own "
    "absorption (tolerance 2 % of the oscillator's strength for Gauss)",
]

MENU = {
    "lorentz": [(4.0, 0.3, 2.2), (9.0, 1.1, 4.4), (0.0, 0.5, 3.0), (2.0, 2.5, 1.1), (15.0, 0.02, 6.0), (1.0, 0.8, 2.2), (0.004, 0.2, 3.3),
                (6.0, 4.0, 5.0), (0.3, 0.1, 0.9), (30.0, 1.0, 8.0)],
    "gauss": [(2.0, 0.5, 2.2), (5.0, 1.1, 4.4), (0.0, 0.5, 3.0), (1.0, 2.0, 3.1), (3.0, 0.3, 6.0), (0.7, 0.8, 2.2), (0.004, 0.6, 3.3),
              (4.0, 1.6, 6.8), (0.3, 0.4, 1.4), (2.5, 0.9, 3.6)],
    "tl": [(40.0, 1.0, 3.2), (110.0, 2.5, 4.4), (0.0, 0.5, 3.0), (20.0, 6.0, 3.5), (60.0, 0.4, 6.0), (15.0, 4.6, 3.2), (0.004, 0.7, 3.3),
           (80.0, 7.0, 5.0), (5.0, 0.9, 2.5), (150.0, 3.0, 8.0)],
}
FORMS = ["lists", "params", "tuples", "arrays", "mixed", "parametersobj"]
E_GRID = np.r_[np.linspace(0.1, 8.0, 160)]


def cases(tier):
    nm = 7 if tier == "quick" else 10
    kmax = 3 if tier == "quick" else 4
    for kind in MENU:
        for einf, eg in itertools.product((1.0, 2.7, 0.0), (0.6, 1.9) if kind == "tl" else (0,)):
            for k in range(1, kmax + 1):
                for c in itertools.combinations_with_replacement(range(nm), k):
                    yield ["sum", kind, list(c), einf, eg]
        for i in range(10):
            for eg in (0.0, 0.6, 1.9) if kind == "tl" else (0,):
                yield ["kk", kind, i, eg]
        for n in list(range(4, 21)) + [32, 50, 100]:
            yield ["many", kind, n]
    yield ["reject"]


def make(kind, a, b, c, einf, eg):
    if kind == "lorentz":
        return Lorentz(a, b, c, Einf=einf)
    if kind == "gauss":
        return Gauss(a, b, c, Einf=einf)
    return TaucLorentz(a, b, c, eg, Einf=einf)


def dress(form, xs):
    """one sequence of numbers in the given form"""
    if form == "lists":
        return list(xs)
    if form == "params":
        return [Parameter(x) for x in xs]
    if form == "tuples":
        return tuple(xs)
    if form == "arrays":
        return np.array(xs)
    if form == "mixed":
        return [Parameter(x) if i % 2 else x for i, x in enumerate(xs)]
    return Parameters([Parameter(x) for x in xs])


def build(kind, osc, einf, eg, form):
    a, b, c = zip(*osc)
    if form == "scalar":
        return make(kind, a[0], b[0], c[0], einf, eg)
    if form == "scalarpar":
        return make(kind, Parameter(a[0]), Parameter(b[0]), Parameter(c[0]), Parameter(einf), Parameter(eg))
    if form == "params":
        einf, eg = Parameter(einf), Parameter(eg)
    return make(kind, dress(form, a), dress(form, b), dress(form, c), einf, eg)


def run_many(ctx, kind, n):
    """n different oscillators, forwards, backwards and interleaved"""
    base = MENU[kind]
    osc = [(a + 0.37 * k, b + 0.01 * (k // 3), c + 0.03 * k) for k in range(n) for a, b, c in [base[k % len(base)]]]
    E, einf, eg = E_GRID, 1.3, 0.7
    parts = [build(kind, [o], einf, eg, "scalar").epsilon(E) - einf for o in osc]
    total = einf + sum(parts)
    scale = 1e-9 * (1 + sum(np.abs(p) for p in parts))
    for order in (range(n), range(n - 1, -1, -1), list(range(0, n, 2)) + list(range(1, n, 2))):
        for form in ("lists", "params", "parametersobj"):
            m = build(kind, [osc[i] for i in order], einf, eg, form)
            ctx.check(bool(np.all(np.abs(m.epsilon(E) - total) <= scale)), "many oscillators do not superpose", kind=kind, n=n, form=form)
            ctx.check(len(m.parameters.flattened()) == 3 * n + (2 if kind == "tl" else 1), "number of parameters", kind=kind, n=n, form=form)
            ctx.step()
            ctx.trace()
    ctx.state(("many", kind, n))


def run_sum(ctx, kind, idx, einf, eg):
    osc = [MENU[kind][i] for i in idx]
    E = E_GRID
    if kind == "tl":
        E = np.unique(np.r_[E, eg])
    d = dict(kind=kind, oscillators=osc, einf=einf, gap=eg)
    parts = [build(kind, [o], einf, eg, "scalar").epsilon(E) - einf for o in osc]
    total = einf + sum(parts)
    scale = 1e-10 * (1 + sum(np.abs(p) for p in parts))
    for perm in sorted({tuple(p) for p in itertools.permutations(range(len(osc)))}):
        m = build(kind, [osc[i] for i in perm], einf, eg, "lists")
        g = m.epsilon(E)
        ctx.step()
        ctx.trace()
        ctx.state((kind, tuple(idx), perm, einf, eg))
        ctx.check(g.shape == E.shape and bool(np.all(np.abs(g - total) <= scale)), "oscillators do not superpose",
                  order=perm, got=g[:5], want=total[:5], **d)
    for form in FORMS + (["scalar", "scalarpar"] if len(osc) == 1 else []):
        m = build(kind, osc, einf, eg, form)
        g = m.epsilon(E)
        ctx.check(bool(np.all(np.abs(g - total) <= scale)), "depends on how parameters are supplied", form=form, **d)
        n = m.complex(ref.HC / E)
        ctx.check(bool(np.all(np.abs(n**2 - total) <= 10 * scale + 1e-6 * np.abs(total))), "index", form=form, **d)
        ctx.check(bool(np.all(n.imag >= -1e-12)), "negative extinction coefficient", form=form, **d)
        # the order of the parameters: amplitudes, broadenings, energies
        flat = [float(p) for p in m.parameters.flattened()]
        want = [x for col in zip(*osc) for x in col]
        ctx.check(all(any(abs(w - f) < 1e-15 for f in flat) for w in want + [einf]), "a parameter is missing", got=flat, **d)
        ctx.check(len(flat) == 3 * len(osc) + (2 if kind == "tl" else 1), "number of parameters", got=flat, **d)
        ctx.step()
    # parameter objects stay shared: changing one takes effect
    if len(osc) > 1:
        pa = [Parameter(o[0]) for o in osc]
        m = make(kind, pa, [o[1] for o in osc], [o[2] for o in osc], einf, eg)
        pa[-1].value = osc[-1][0] + 1.0
        o2 = osc[:-1] + [(osc[-1][0] + 1.0,) + tuple(osc[-1][1:])]
        w2 = einf + sum(build(kind, [o], einf, eg, "scalar").epsilon(E) - einf for o in o2)
        ctx.check(bool(np.all(np.abs(m.epsilon(E) - w2) <= 2 * scale)), "a shared amplitude parameter is not used", **d)
        # one Parameter object used by two oscillators
        sh = Parameter(osc[0][1])
        m = make(kind, [o[0] for o in osc], [sh] * len(osc), [o[2] for o in osc], einf, eg)
        if kind != "tl" or all(osc[0][1] < 2 * o[2] for o in osc):
            w3 = einf + sum(build(kind, [(o[0], osc[0][1], o[2])], einf, eg, "scalar").epsilon(E) - einf for o in osc)
            ctx.check(bool(np.all(np.abs(m.epsilon(E) - w3) <= 3e-10 * (1 + np.abs(w3)))), "shared broadening", **d)
    ctx.check(bool(np.all(total.imag >= -1e-12)), "negative absorption", **d)
    if kind == "tl":
        below = E <= eg
        ctx.check(bool(np.all(total.imag[below] == 0)), "absorption below the gap", **d)
        if any(o[0] > 0 for o in osc):
            ctx.check(bool(np.all(total.imag[E > eg + 0.01] > 0)), "no absorption above the gap", **d)
    ctx.outcome((kind, round(float(total[10].real), 6)))


def run_kk(ctx, kind, i, eg):
    o = MENU[kind][i]
    m = build(kind, [o], 1.0, eg, "scalar")
    d = dict(kind=kind, oscillator=o, gap=eg)
    # principal value of 2/pi int x e2(x) / (x^2 - E^2) dx with the singularity
    # removed by subtracting e2(E) E (its transform vanishes over [0, inf))
    from scipy.integrate import quad

    top = 19.9 if kind == "gauss" else 4000.0
    eps = m.epsilon
    for E in (0.7, 1.2, 1.85, 2.4, 3.1, 3.9, 4.6, 5.3, 6.1):
        e = complex(eps(E))
        e2E = e.imag

        def f(x):
            if abs(x - E) < 1e-9:
                x = E + 1e-9
            return (x * complex(eps(x)).imag - E * e2E) / (x * x - E * E)

        if kind == "gauss":
            xs = np.linspace(1e-6, top, 200001)
            xs = xs[np.abs(xs - E) > 1e-7]
            v = np.asarray(eps(xs)).imag
            y = (xs * v - E * e2E) / (xs**2 - E**2)
            val = float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(xs)))
        else:
            # substitution-free composite grid: dense around features
            pts = sorted({1e-6, eg, E, o[2], 10.0, 30.0, 100.0, 400.0, top} - {0.0})
            val = 0.0
            for a, b in zip(pts, pts[1:]):
                # Gauss-Legendre on graded subintervals towards both ends
                t = np.r_[0.0, np.geomspace(1e-9, 0.5, 40)]
                knots = np.unique(np.r_[a + (b - a) * t, b - (b - a) * t])
                # resolve sharp resonances
                w = max(o[1], 1e-3)
                extra = o[2] + w * np.linspace(-12, 12, 97)
                knots = np.unique(np.r_[knots, extra[(extra > a) & (extra < b)]])
                gx, gw = np.polynomial.legendre.leggauss(8)
                h = np.diff(knots) / 2
                c = (knots[1:] + knots[:-1]) / 2
                xx = (c[:, None] + h[:, None] * gx).ravel()
                ww = (h[:, None] * gw).ravel()
                v = np.asarray(eps(xx)).imag
                with np.errstate(all="ignore"):
                    y = (xx * v - E * e2E) / (xx**2 - E**2)
                y = np.where(np.isfinite(y), y, 0)
                val += float(np.sum(y * ww))
        # tail of the subtracted term: -E e2 int_top^inf dx/(x^2-E^2)
        val += -E * e2E * np.arctanh(E / top) / E
        got = e.real - 1.0
        want = 2 / np.pi * val
        A, B, En = o
        if kind == "gauss":
            s = B / 2 / np.sqrt(np.log(2))
            tol = 0.002 + A * (0.006 / s**2 * 0.05 + 2.0 * s * 1.78 * 2 * En * 0.00617 / 3 / np.pi)
        else:
            tol = 2e-4 * (1 + abs(want)) + 2e-4 * abs(e)
        ctx.check(abs(got - want) <= tol, "real part is not the Kramers-Kronig transform of the absorption",
                  energy=E, got=got, want=want, tolerance=tol, **d)
        ctx.step()
        ctx.trace()
        ctx.state((kind, i, eg, E))
    # sum rule: e1 -> offset at high energy where the model extends
    if kind != "gauss":
        g = complex(eps(3000.0))
        ctx.check(abs(g - 1.0) < 1e-3, "high-energy limit is not the offset", got=g, **d)


def run_reject(ctx):
    for kind in MENU:
        for la, lb, lc in itertools.product((1, 2, 3), repeat=3):
            if la == lb == lc:
                continue
            ctx.raises(lambda: make(kind, [1.0] * la, [0.5] * lb, [3.0] * lc, 1.0, 1.0), "oscillator lists of different length",
                       exc=ValueError, kind=kind, lengths=[la, lb, lc])
            ctx.step()
    ctx.trace()
    ctx.state("reject")


def run(case, ctx):
    if case[0] == "sum":
        run_sum(ctx, *case[1:])
    elif case[0] == "many":
        run_many(ctx, *case[1:])
    elif case[0] == "kk":
        run_kk(ctx, *case[1:])
    else:
        run_reject(ctx)
