"""C06: effective-medium mixing laws."""
import itertools

import numpy as np

from mc import ref
from mc.sut import *

ID = "C06"
BOUNDS = {
    "quick": "all ordered pairs of 14 passive media x 14 volume fractions x 14 "
    "depolarisation factors x 3 mixing rules, through the mixing function "
    "(scalars and arrays), mixed slabs and solvated structures; pairs that differ by 1e-2 to 1e-6",
    "thorough": "all ordered pairs of 22 passive media x 33 volume fractions x "
    "23 depolarisation factors x 3 mixing rules, same routes",
}
ASSUMPTIONS = [
    "oracle: the documented equations solved independently; the physical "
    "Bruggeman root is the one whose phase lies between those of the "
    "constituents (unique for passive media)",
    "metals have n > 0 (the exactly lossless metal/dielectric resonance has "
    "no finite or no unique solution)",
]

MEDIA = [
    1.0, 1.333, 1.46, 2.4, 1.5 + 0.001j, 1.7 + 0.2j, 2.0 + 1.0j, 3.9 + 0.02j,
    0.2 + 3.4j, 0.05 + 4.1j, 1.4 + 7.6j, 3.0 + 3.0j, 0.6 + 0.4j, 5.2 + 1e-5j,
]
MORE = [1.0003, 1.335, 0.95, 1.0 + 1.0j, 0.13 + 1.9j, 2.9 + 6.0j, 1.05 + 0.3j, 10.0 + 0.5j]
FR = [0.0, 1e-6, 0.05, 0.1, 0.25, 1 / 3, 0.5, 2 / 3, 0.75, 0.9, 0.95, 0.99876543, 1 - 1e-6, 1.0]
DP = [0.0, 1e-9, 1e-6, 1e-3, 0.1, 0.2, 1 / 3, 0.5, 0.7, 0.9, 0.999, 1 - 1e-6, 1 - 1e-9, 1.0]
RULES = ["linear", "maxwell-garnett", "bruggeman"]


def space(tier):
    if tier == "quick":
        return MEDIA, FR, DP
    fr = sorted(set(FR) | {i / 20 for i in range(21)} | {1e-3, 0.999, 1e-9, 1 - 1e-9})
    dp = sorted(set(DP) | {i / 16 for i in range(17)})
    return MEDIA + MORE, fr, dp


def cases(tier):
    m, _, _ = space(tier)
    yield ["reject"]
    yield ["arrays"]
    yield ["resonance"]
    for i in range(len(m)):
        yield ["close", i]
    for i, j in itertools.product(range(len(m)), repeat=2):
        yield ["pair", i, j]


def mixed_slab(a, b, f, rule, L):
    s = StructureSE(ema=rule, depolarisation_factor=L)
    s |= nk(1.0)
    s |= MixedSlabSE(50.0, nk(a), nk(b), f, 0)
    s |= nk(3.0)
    r = s.slabs()[1]
    return complex(r[1], r[2])


def solvated(a, b, f, rule, L):
    s = StructureSE(ema=rule, depolarisation_factor=L, solvent=nk(b))
    s |= nk(1.0)
    s |= nk(a)(50.0, 0, vfsolv=f)
    s |= nk(3.0)
    r = s.slabs()[1]
    return complex(r[1], r[2])


def run_pair(ctx, a, b, fr, dp):
    same = a == b
    for rule in RULES:
        for L in dp:
            dd = dict(a=a, b=b, rule=rule, depolarisation=L)
            want = np.array([complex(ref.mix(rule, complex(a), complex(b), f, L)) for f in fr])
            got = np.array([
                complex(overall_ri(complex(a), complex(b), vf_B=f, ema=rule, depolarisation_factor=L)) for f in fr
            ])
            ctx.step(len(fr))
            ctx.trace(len(fr))
            d = dict(dd, fractions=fr, got=got, want=want)
            ctx.check(bool(np.all(np.isfinite(got))), "mixed index is not finite", **d)
            ctx.check(bool(np.all(got.real >= -1e-12)), "negative n", **d)
            ctx.check(bool(np.all(got.imag >= -1e-9)), "negative k", **d)
            # epsilon is what is mixed: compare it, relative to the constituents
            sc = max(abs(a), abs(b)) ** 2
            scl = np.maximum(np.abs(want) ** 2, 1e-9 * sc)
            bad = ~(np.abs(got**2 - want**2) <= 1e-7 * scl)
            ctx.check(not bad.any(), "the mixing equation is not satisfied", **d)
            ctx.close(got[0], complex(a), "fraction 0 is not the first material", rtol=1e-7, **dd)
            ctx.close(got[-1], complex(b), "fraction 1 is not the second material", rtol=1e-7, **dd)
            if same:
                ctx.close(got, np.full(len(fr), complex(a)), "a material mixed with itself changes", rtol=1e-7, **dd)
            for i, f in enumerate(fr):
                ctx.state((a, b, rule, L, f))
            # other routes to the same numbers
            g2 = np.array([mixed_slab(a, b, f, rule, L) for f in fr[:: 3 if ctx.tier == "quick" else 1]])
            ctx.close(g2, want[:: 3 if ctx.tier == "quick" else 1], "mixed slab", rtol=1e-6, atol=1e-9 * sc, **dd)
            g3 = np.array([solvated(a, b, f, rule, L) for f in fr[:: 3 if ctx.tier == "quick" else 1]])
            ctx.close(g3, want[:: 3 if ctx.tier == "quick" else 1], "solvated slab", rtol=1e-6, atol=1e-9 * sc, **dd)
            # arrays: over the first material, and over the fraction
            ga = overall_ri(np.full(len(fr), complex(a)), complex(b), vf_B=np.array(fr), ema=rule, depolarisation_factor=L)
            ctx.close(ga, got, "array argument", rtol=1e-9, atol=1e-12, **dd)
            if rule != "maxwell-garnett":
                gs = np.array([
                    complex(overall_ri(complex(b), complex(a), vf_B=1 - f, ema=rule, depolarisation_factor=L)) for f in fr
                ])
                bad = ~(np.abs(got**2 - gs**2) <= 1e-7 * scl)
                ctx.check(not bad.any(), "exchange of the materials", exchanged=gs, **d)
            ctx.outcome((rule, tuple(np.round(got, 6))))


def run_arrays(ctx, m, fr, dp):
    """element by element, real dtype and python-number arguments"""
    A = np.array([complex(x) for x in m])
    for rule, L in itertools.product(RULES, dp):
        for f in fr:
            for b in m:
                got = overall_ri(A, complex(b), vf_B=f, ema=rule, depolarisation_factor=L)
                one = np.array([complex(overall_ri(x, complex(b), vf_B=f, ema=rule, depolarisation_factor=L)) for x in A])
                ctx.step(len(m))
                ctx.trace()
                ctx.close(got, one, "arrays do not mix element by element", rtol=1e-9, atol=1e-12, b=b, f=f, rule=rule, L=L)
        # plain real numbers
        for a, b in itertools.product([1.0, 1.33, 1.5, 2.4], repeat=2):
            for f in fr:
                g = overall_ri(a, b, vf_B=f, ema=rule, depolarisation_factor=L)
                w = ref.mix(rule, complex(a), complex(b), f, L)
                ctx.close(complex(g), complex(w), "real arguments", rtol=1e-7, atol=1e-10, a=a, b=b, f=f, rule=rule, L=L)
    # the default arguments
    ctx.close(overall_ri(1.5 + 0j, 2.0 + 1j), 1.5 + 0j, "default fraction", rtol=1e-9)
    ctx.close(complex(overall_ri(1.5 + 0j, 2.0 + 1j, vf_B=0.3)), ref.linear(1.5, 2 + 1j, 0.3), "default rule")
    for r in ("maxwell-garnett", "bruggeman"):
        ctx.close(complex(overall_ri(1.5 + 0j, 2.0 + 1j, vf_B=0.3, ema=r)), ref.mix(r, 1.5 + 0j, 2 + 1j, 0.3, 1 / 3),
                  "default depolarisation factor", rtol=1e-9)
    # whole slab tables through a structure: many layers, each its own fraction
    for rule, L in itertools.product(RULES, dp):
        for solv in m[:8]:
            s = StructureSE(ema=rule, depolarisation_factor=L, solvent=nk(solv))
            s |= nk(1.0)
            spec = [(x, f) for x in m for f in fr[::3]]
            for k, (x, f) in enumerate(spec):
                s |= nk(x)(10.0 + k, 1.0, vfsolv=f)
            s |= nk(3.0)
            tab = s.slabs()
            w = np.array([complex(ref.mix(rule, complex(x), complex(solv), f, L)) for x, f in spec])
            ctx.step(len(spec))
            ctx.trace()
            ctx.close(tab[1:-1, 1] + 1j * tab[1:-1, 2], w, "layers of one structure", rtol=1e-6, atol=1e-7, rule=rule, L=L, solv=solv)


def run_reject(ctx):
    for bad in ("", "Linear", "bruggemann", "maxwell_garnett", "looyenga", None, 1):
        for f in (0.0, 0.3, 1.0):
            ctx.raises(lambda: overall_ri(1.5 + 0j, 2.0 + 0j, vf_B=f, ema=bad), "unknown mixing rule", rule=repr(bad))
            ctx.raises(lambda: mixed_slab(1.5, 2.0, f, bad, 0.3), "unknown mixing rule in a mixed slab", rule=repr(bad))
        ctx.raises(lambda: solvated(1.5, 2.0, 0.4, bad, 0.3), "unknown mixing rule in a structure", rule=repr(bad))
        ctx.step(3)
    for L in (-0.1, 1.1, 2, -1):
        ctx.raises(lambda: StructureSE(depolarisation_factor=L), "depolarisation factor outside [0, 1]", L=L)
    ctx.trace()
    ctx.state("reject")


def run_resonance(ctx):
    """Maxwell-Garnett inclusions close to their resonance (large but finite indices)"""
    for a, L, f, loss in itertools.product((1.0, 1.33, 2.4), (0.1, 1 / 3, 0.7, 1.0), (0.0, 1e-3, 0.1, 0.5, 0.9), (0.3, 1e-2, 1e-4, 1e-6)):
        b = np.sqrt(complex(a * a * (1 - 1 / (L * (1 - f))), loss))
        want = complex(ref.mix("maxwell-garnett", complex(a), b, f, L))
        d = dict(a=a, b=b, depolarisation=L, fraction=f, want=want)
        for got in (complex(overall_ri(complex(a), b, vf_B=f, ema="maxwell-garnett", depolarisation_factor=L)),
                    mixed_slab(a, b, f, "maxwell-garnett", L), solvated(a, b, f, "maxwell-garnett", L)):
            ctx.check(abs(got**2 - want**2) <= 1e-5 * abs(want) ** 2, "the mixing equation is not satisfied near a resonance", got=got, **d)
        ctx.step(3)
        ctx.trace()
        ctx.state((a, L, f, loss))


def run_close(ctx, a):
    """two nearly equal materials: the error is compared with their difference"""
    for rel, rule, L in itertools.product((1e-2, 1e-3, 1e-4, 1e-5, 1e-6, -1e-3, -1e-5, 1e-4j, 1e-6j), RULES, (0.0, 0.1, 1 / 3, 0.5, 0.9, 1.0)):
        a = complex(a)
        b = a * (1 + rel) if isinstance(rel, float) else a + rel
        tol = 1e-3 * abs(b * b - a * a)
        for f in (0.0, 1e-3, 0.25, 1 / 3, 0.5, 0.77, 0.999, 1.0):
            want = complex(ref.mix(rule, a, b, f, L)) ** 2
            d = dict(a=a, b=b, rule=rule, depolarisation=L, fraction=f)
            for got in (complex(overall_ri(a, b, vf_B=f, ema=rule, depolarisation_factor=L)), mixed_slab(a, b, f, rule, L),
                        solvated(a, b, f, rule, L)):
                ctx.check(abs(got**2 - want) <= tol, "two nearly equal materials are not mixed", got=got**2, want=want, **d)
            ctx.step(3)
            ctx.trace()
        ctx.state(("close", a, rel, rule, L))


def run(case, ctx):
    m, fr, dp = space(ctx.tier)
    if case[0] == "reject":
        run_reject(ctx)
    elif case[0] == "resonance":
        run_resonance(ctx)
    elif case[0] == "close":
        run_close(ctx, m[case[1]])
    elif case[0] == "arrays":
        run_arrays(ctx, m, fr, dp if ctx.tier == "quick" else dp[::2])
    else:
        run_pair(ctx, m[case[1]], m[case[2]], fr, dp)
