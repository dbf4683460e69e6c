"""C24: graded interfaces and contraction."""
import itertools

import numpy as np
from refnx.reflect import Erf, Exponential, Linear, Sinusoidal, Step, Tanh

from refnx.reflect._reflect import _contract_by_area

from mc import ref
from mc.sut import *

ID = "C24"
BOUNDS = {
    "quick": "graded: 1..2 interior layers from 4 kinds x every assignment of {default, 6 interface functions} "
    "to the interfaces (at least one non-default) x roughness {0, 1.5, 4} per interface pattern x {forward, "
    "reversed} x {no, explicit} solvent; zero roughness: every assignment x 3 stacks against the sharp stack; "
    "contraction: 8 values x {sharp, graded} stacks of 0..3 layers x {forward, reversed}; every history of <=3 out of 10 edits "
    "(layers, roughness, interfaces, contraction, reversal, reads) of one contracted structure, from 4 starts",
    "thorough": "as quick with 3 interior layers and all roughness combinations",
}
ASSUMPTIONS = [
    "slices of 0.5 A, spanning 5 A + 8 roughnesses beyond the outer interfaces (refnx micro-slabs)",
    "zero roughness: interfaces lie on the slice grid, so the sharp stack is reached to within one slice per "
    "interface (exact slices are compared as well); an absorbing fronting medium counts only inside the slices",
    "contraction may merge slices into the fronting medium within the contraction value (refnx contraction)",
]
BLOCK = 4

PTS = np.array([(450.0, 60.0), (658.0, 72.0), (800.0, 45.0)])
KINDS = [(1.46, 12.0, 0.0), (1.9 + 0.1j, 20.5, 0.3), (0.25 + 2.9j, 8.0, 0.0), (1.7, 3.0, 0.6)]
FUN = {"erf": Erf, "lin": Linear, "exp": Exponential, "tanh": Tanh, "sin": Sinusoidal, "step": Step}
NAMES = [None] + list(FUN)


def f_ref(kind, z, loc, s):
    x = np.asarray(z, float) - loc
    if s == 0:
        return np.where(x >= 0, 1.0, 0.0)
    if kind in (None, "erf"):
        return ref.erf_step(z, loc, s)
    if kind == "lin":
        return np.clip(0.5 + x / (2 * np.sqrt(3) * s), 0, 1)
    if kind == "exp":
        return np.where(x > 0, 1 - 0.5 * np.exp(-np.sqrt(2) * np.abs(x) / s), 0.5 * np.exp(-np.sqrt(2) * np.abs(x) / s))
    if kind == "tanh":
        return 0.5 * (1 + np.tanh(np.sqrt(2 / np.pi) * x / s))
    if kind == "sin":
        g = np.pi / np.sqrt(np.pi**2 - 8)
        return np.where(x <= -g * s, 0.0, np.where(x >= g * s, 1.0, 0.5 + 0.5 * np.sin(np.pi * x / g / 2 / s)))
    return np.where(x <= -s, 0.0, np.where(x >= s, 1.0, 0.5))


def make(ks, ifs, rough, rev=False, solv=False, contract=0):
    s = StructureSE(solvent=nk(1.36) if solv else None, reverse_structure=rev, wavelength=600.0)
    s |= nk(1.0)()
    for k, f, r in zip(ks, ifs, rough):
        n, t, v = KINDS[k]
        lay = nk(n)(t, r, vfsolv=v)
        lay.interfaces = None if f is None else FUN[f]()
        s |= lay
    b = nk(3.9 + 0.02j)(0, rough[-1])
    b.interfaces = None if ifs[-1] is None else FUN[ifs[-1]]()
    s |= b
    s.contract = contract
    return s


def layers_of(ks, rev, solv):
    ns = [1.0 + 0j] + [complex(KINDS[k][0]) for k in ks] + [3.9 + 0.02j]
    vf = [0.0] + [KINDS[k][2] for k in ks] + [0.0]
    s = 1.36 if solv else (ns[0] if rev else ns[-1])
    n = [complex(ref.mix("linear", a, s, f, 1 / 3)) if f > 0 else a for a, f in zip(ns, vf)]
    return np.array(n), np.array([0.0] + [KINDS[k][1] for k in ks] + [0.0])


def slices(ks, ifs, rough, rev, solv):
    n, th = layers_of(ks, rev, solv)
    dist = np.cumsum(th[:-1])
    z0 = -5.0 - 8 * rough[0]
    z1 = 5.0 + dist[-1] + 8 * rough[-1]
    z = np.linspace(z0, z1, int((z1 - z0) / 0.5 + 1))
    v = np.full(z.shape, n[0], complex)
    for i in range(len(n) - 1):
        v = v + (n[i + 1] - n[i]) * f_ref(ifs[i], z, dist[i], rough[i])
    v[0], v[-1] = n[0], n[-1]
    dz = z[1] - z[0]
    if rev:
        v = v[::-1]
    return v, dz


def response(s):
    return ReflectModelSE(s)(PTS)


def agree(ctx, got, want, msg, tol=1e-6, **d):
    p, q = got
    dq = np.abs((q - want[1] + 180) % 360 - 180)
    tp, tq = np.broadcast_to(tol, 2)
    ctx.check(
        bool(np.all(np.isfinite(p)) and np.all(np.isfinite(q)) and np.all(np.abs(p - want[0]) < tp) and np.all(dq < tq)),
        msg, got=got, want=want, **d,
    )


def cases(tier):
    q = tier == "quick"
    for nl in (1, 2) if q else (1, 2, 3):
        for ks in itertools.product(range(4), repeat=nl):
            if nl == 3 and len(set(ks)) < 2:
                continue
            for i0 in NAMES:
                yield ["graded", list(ks), i0]
    for ks in ([0], [1], [3], [2, 0], [1, 3], [0, 1, 2], [3, 3, 1]):
        yield ["zero", ks]
    for nl in range(0, 4):
        for ks in itertools.product(range(4), repeat=nl):
            yield ["contract", list(ks)]
    for start in range(4):
        for first in itertools.product(range(len(EDITS)), repeat=2):
            yield ["live", start, list(first)]


PATTERNS = [(1.5,), (4.0,), (0.0, 4.0), (4.0, 0.0), (1.5, 4.0, 0.0)]


def run(case, ctx):
    if case[0] == "graded":
        _, ks, i0 = case
        m = len(ks) + 1
        if m == 4 or (m == 3 and ctx.tier == "quick"):
            # other interfaces: all the same or all different
            rest = [r for r in itertools.product(NAMES, repeat=m - 1)]
            rest = [r for j, r in enumerate(rest) if m < 4 or len(set(r)) in (1, m - 1)]
        else:
            rest = list(itertools.product(NAMES, repeat=m - 1))
        roughs = [tuple((p * m)[:m]) for p in PATTERNS]
        if ctx.tier != "quick" and m <= 3:
            roughs = list(itertools.product((0.0, 1.5, 4.0), repeat=m))
        for r in rest:
            ifs = (i0,) + tuple(r)
            if all(f is None for f in ifs):
                continue
            for j, rough in enumerate(roughs):
                combos = [(False, False), (True, False), (False, True), (True, True)]
                if m >= 3 and ctx.tier == "quick":
                    # all four combinations over the roughness patterns
                    combos = [combos[(j + NAMES.index(ifs[-1])) % 4]]
                for rev, solv in combos:
                    graded(ctx, ks, ifs, rough, rev, solv)
    elif case[0] == "zero":
        _, ks = case
        m = len(ks) + 1
        for ifs in itertools.product(NAMES, repeat=m) if m < 4 else [(a, b, a, b) for a in NAMES for b in NAMES]:
            if all(f is None for f in ifs):
                continue
            for rev, solv in itertools.product((False, True), repeat=2):
                s = make(ks, ifs, [0.0] * m, rev, solv)
                n, th = layers_of(ks, rev, solv)
                if rev:
                    n, th = n[::-1], th[::-1]
                # 5 A of either medium belong to the slices (matters when the fronting medium absorbs)
                n = np.r_[n[:1], n, n[-1:]]
                th = np.r_[0.0, 5.0, th[1:-1], 5.0, 0.0]
                want = ref.psi_delta(n, th / 10, PTS[:, 1], PTS[:, 0])
                # each interface sits on the slice grid: at most one slice (0.5 A) away
                tol = np.full(2, 1e-6)
                for i in range(m):
                    for h in (-0.5, 0.5):
                        t2 = th.copy()
                        t2[i + 1] += h
                        t2[i + 2] -= h
                        w2 = ref.psi_delta(n, t2 / 10, PTS[:, 1], PTS[:, 0])
                        tol = tol + [np.max(np.abs(w2[0] - want[0])), np.max(ref.circ(w2[1], want[1]))]
                agree(ctx, response(s), want, "zero roughness differs from the sharp stack", tol=tol, layers=ks, interfaces=ifs, reversed=rev, solvent=solv)
                graded(ctx, ks, ifs, (0.0,) * m, rev, solv)
                ctx.step()
                ctx.trace()
                ctx.state(("zero", tuple(ks), ifs, rev, solv))
    elif case[0] == "live":
        live(ctx, *case[1:])
    else:
        contraction(ctx, case[1])


def graded(ctx, ks, ifs, rough, rev, solv):
    d = dict(layers=ks, interfaces=ifs, rough=rough, reversed=rev, solvent=solv)
    s = make(ks, ifs, rough, rev, solv)
    v, dz = slices(ks, ifs, rough, rev, solv)
    tab = s.slabs()
    s.wavelength = None  # each material is constant
    tab2 = s.slabs()
    ctx.check(tab2.shape == tab.shape and bool(np.all(tab2 == tab)), "slices without a wavelength", **d)
    ctx.check(tab.shape == (len(v), 5), "number of slices", got=tab.shape, want=len(v), **d)
    ctx.close(tab[:, 1] + 1j * tab[:, 2], v, "sliced index profile", rtol=1e-9, atol=1e-9, **d)
    ctx.check(bool(np.all(np.abs(tab[1:-1, 0] - dz) < 1e-9)), "slice thickness", got=tab[:3, 0], want=dz, **d)
    n0, n1 = (3.9 + 0.02j, 1.0) if rev else (1.0, 3.9 + 0.02j)
    ctx.check(complex(tab[0, 1], tab[0, 2]) == n0 and complex(tab[-1, 1], tab[-1, 2]) == n1, "end media", **d)
    want = ref.psi_delta(v, np.full(len(v), dz / 10), PTS[:, 1], PTS[:, 0])
    agree(ctx, response(s), want, "response of the graded profile", tol=1e-6, **d)
    ctx.step()
    ctx.trace()
    ctx.state(repr(d))
    ctx.outcome(np.round(np.r_[want], 3).tobytes())


EDITS = ["insert", "remove", "thin", "rough", "flat", "graded", "sharp", "more", "less", "reverse"]


def live(ctx, start, first):
    """one structure, read after every edit: always what a newly built one shows"""
    for last in range(len(EDITS)):
        q = dict(ks=[[0], [0, 1], [], [3, 2]][start], ifs=[None, "tanh"][start % 2], rough=[0.0, 1.5][start // 2], rev=False, c=[0.5, 2.0, 0.3, 6.0][start])
        t1 = {}

        def new():
            m = len(q["ks"]) + 1
            s = make(q["ks"], [q["ifs"]] * m, [q["rough"]] * m, q["rev"], True, q["c"])
            for i, t in t1.items():
                s[i].thick.value = t
            return s

        s = new()
        s.slabs()
        hist = []
        for e in first + [last]:
            n = EDITS[e]
            hist.append(n)
            if n == "insert":
                k = (len(q["ks"]) * 3 + 1) % 4
                nn, t, v = KINDS[k]
                lay = nk(nn)(t, q["rough"], vfsolv=v)
                lay.interfaces = None if q["ifs"] is None else FUN[q["ifs"]]()
                s.insert(len(s) - 1, lay)
                q["ks"] = q["ks"] + [k]
            elif n == "remove":
                if q["ks"]:
                    del s[len(s) - 2]
                    t1.pop(len(q["ks"]), None)
                    q["ks"] = q["ks"][:-1]
            elif n == "thin":
                if q["ks"]:
                    t1[1] = 0.2
                    s[1].thick.value = 0.2
            elif n in ("rough", "flat"):
                q["rough"] = 3.0 if n == "rough" else 0.0
                for lay in list(s)[1:]:
                    lay.rough.value = q["rough"]
            elif n in ("graded", "sharp"):
                q["ifs"] = "lin" if n == "graded" else None
                for lay in list(s)[1:]:
                    lay.interfaces = None if q["ifs"] is None else FUN["lin"]()
            elif n in ("more", "less"):
                s.contract = q["c"] = q["c"] * 3 if n == "more" else q["c"] / 4
            else:
                s.reverse_structure = q["rev"] = not q["rev"]
            ctx.step()
            d = dict(history=hist, start=start)
            w = new()
            ctx.close(s.slabs(), w.slabs(), "slab table of an edited contracted structure", rtol=1e-12, atol=1e-12, **d)
            agree(ctx, response(s), response(w), "response of an edited contracted structure", tol=1e-9, **d)
            ctx.check(s.contract == q["c"], "contraction setting", got=s.contract, want=q["c"], **d)
            s.wavelength = 600.0
            ctx.state(repr((q, t1)))
        ctx.trace()


def area(t):
    return np.sum(t[:, 0] * t[:, 1]), np.sum(t[:, 0] * t[:, 2])


def contraction(ctx, ks):
    m = len(ks) + 1
    for ifs in ([None] * m, ["tanh"] * m, ["lin"] + [None] * (m - 1)):
        for rough in ([0.0] * m, [1.5] * m, ([4.0, 0.0, 1.5, 0.0])[:m]):
            for rev in (False, True):
                base = make(ks, ifs, rough, rev, True)
                t0 = base.slabs()
                r0 = response(base)
                for c in (0, 1e-12, 0.01, 0.1, 0.5, 1.0, 5.0, 40.0):
                    d = dict(layers=ks, interfaces=ifs, rough=rough, reversed=rev, contract=c)
                    s = make(ks, ifs, rough, rev, True, contract=c)
                    t = s.slabs()
                    ctx.step()
                    ctx.state(repr(d))
                    if c == 0:
                        ctx.equal(t, t0, "contraction zero", **d)
                        agree(ctx, response(s), r0, "contraction zero", tol=1e-9, **d)
                        continue
                    ctx.check(t.shape[1] == 5 and 2 <= len(t) <= len(t0), "shape", got=t.shape, **d)
                    ctx.check(bool(np.all(np.isfinite(t))), "finite", **d)
                    ctx.close(t[[0, -1], 1:3], t0[[0, -1], 1:3], "end media", rtol=1e-12, **d)
                    ctx.check(abs(t[:, 0].sum() - t0[:, 0].sum()) < 1e-8, "total thickness", got=t[:, 0].sum(), want=t0[:, 0].sum(), **d)
                    a, a0 = area(t), area(t0)
                    ctx.check(all(abs(x - y) <= c + 1e-8 for x, y in zip(a, a0)), "area under the profile", got=a, want=a0, **d)
                    ctx.close(t, _contract_by_area(t0.copy(), c), "amount of contraction", rtol=1e-9, atol=1e-9, **d)
                    if c == 1e-12 and not rev:
                        # only equal neighbours are merged (into a transparent fronting medium)
                        agree(ctx, response(s), r0, "vanishing contraction", tol=1e-6, **d)
                    # the structure itself is untouched
                    s.contract = 0
                    ctx.equal(s.slabs(), t0, "contraction changed the structure", **d)
        ctx.trace()
