"""C07: the slab table: thickness, index at the wavelength, solvent mixing."""
import itertools

import numpy as np
from refnx.reflect import Tanh, Linear, Sinusoidal, Erf

from mc import ref
from mc.sut import *

ID = "C07"
BOUNDS = {
    "quick": "structures with 0..2 interior layers over 6 materials and mixed "
    "slabs x solvent fraction {0, 1e-6, 0.004, 0.3, 0.995, 1} x solvent {none, constant, "
    "dispersive, mixed default wavelength} x reversal x (rule, depolarisation) "
    "(5 combinations) x 5 ways of fixing the wavelength (and, with <2 interior layers, "
    "7 wavelengths that equal a material's own default) x media solvent "
    "fraction {0, 0.5}; graded interfaces on every layer subset",
    "thorough": "as quick with 0..3 interior layers and 9 rule/factor pairs",
}
ASSUMPTIONS = [
    "oracle: dispersion formulas and mixing equations of mc/ref.py",
    "layers are thicker than 20 roughnesses in the graded part",
]
BLOCK = 2

TAB = (np.array([0.3, 0.5, 0.7, 1.0]), np.array([1.9, 1.7, 1.65, 1.6]), np.array([0.3, 0.05, 0.0, 0.2]))


# name -> (constructor, reference index, default wavelength)
MATS = {
    "k": (lambda: RI((1.52, 0.02)), lambda w: 1.52 + 0.02j + 0 * w, 658.0),
    "ca": (lambda: Cauchy(1.41, 0.008, 0.0003, wavelength=480), lambda w: ref.cauchy((1.41, 0.008, 0.0003), w), 480.0),
    "tb": (
        lambda: RI(TAB, wavelength=550),
        lambda w: np.interp(w / 1000, TAB[0], TAB[1]) + 1j * np.interp(w / 1000, TAB[0], TAB[2]),
        550.0,
    ),
    "lo": (
        lambda: Lorentz([3.0, 5.0], [0.4, 0.9], [2.1, 5.0], Einf=1.8, wavelength=720),
        lambda w: np.sqrt(ref.lorentz_eps([(3.0, 0.4, 2.1), (5.0, 0.9, 5.0)], 1.8, ref.HC / w)),
        720.0,
    ),
    "se": (
        lambda: Sellmeier(1.1, 0.09, 0.01, Einf=1.2, wavelength=589),
        lambda w: np.sqrt(ref.sellmeier_eps((1.1, 0.09, 0.01, 1.2), w) + 0j),
        589.0,
    ),
    "au": (lambda: RI((0.18, 3.1)), lambda w: 0.18 + 3.1j + 0 * w, 658.0),
}
EMAS = [("linear", 1 / 3), ("bruggeman", 1 / 3), ("maxwell-garnett", 1 / 3), ("bruggeman", 0.8), ("maxwell-garnett", 0.0)]
EMAS_T = EMAS + [("bruggeman", 0.0), ("maxwell-garnett", 1.0), ("bruggeman", 1.0), ("linear", 0.9)]
WAVS = ["none", "ctor", "attr", "kwarg", "int"]
WVAL = {"none": None, "ctor": 431.0, "attr": 812.3456789, "kwarg": 377.123456789, "int": 600}
# wavelengths that some material or the solvent has as its own default
WOWN = {"k480": 480.0, "k550": 550, "k658": 658.0, "k720": 720.0, "a480": 480, "a720": 720.0, "c658": 658.0}
WVAL.update(WOWN)


def index(name, wav):
    _, f, dflt = MATS[name]
    return complex(f(dflt if wav is None else float(wav)))


# a layer: (material, vfsolv) or ("mix", A, B, vfB)
LAYERS = [(m, v) for m in MATS if m != "se" for v in (0, 0.3, 1)] + [("ca", 0.004), ("lo", 1e-6), ("k", 0.995)] + [("mix", "ca", "lo", 0.4), ("mix", "tb", "k", 1.0), ("mix", "se", "ca", 0.6), ("se", 0.2)]


def build_layer(spec, live, t, r, iface=None):
    if spec[0] == "mix":
        return MixedSlabSE(t, live[spec[1]], live[spec[2]], spec[3], r, interface=iface)
    sl = live[spec[0]](t, r, vfsolv=spec[1])
    if iface is not None:
        sl.interfaces = iface
    return sl


def ref_table(layers, thick, rough, wav, rule, L, solvent, rev):
    rows = []
    for spec, t, r in zip(layers, thick, rough):
        if spec[0] == "mix":
            n = complex(ref.mix(rule, index(spec[1], wav), index(spec[2], wav), spec[3], L))
            rows.append([t, n, r, 0.0])
        else:
            rows.append([t, index(spec[0], wav), r, spec[1]])
    if rev:
        rr = [0.0] + [rows[i][2] for i in range(len(rows) - 1, 0, -1)]
        rows = [list(x) for x in rows[::-1]]
        for x, r in zip(rows, rr):
            x[2] = r
    solv = rows[-1][1] if solvent is None else index(solvent, wav)
    for x in rows[1:-1]:
        if x[3] > 0:
            x[1] = complex(ref.mix(rule, x[1], solv, x[3], L))
    return np.array([[t, n.real, n.imag, r, v] for t, n, r, v in rows])


def cases(tier):
    nmax = 2 if tier == "quick" else 3
    for n in range(0, nmax + 1):
        lay = LAYERS if n < 3 else LAYERS[::2]
        for combo in itertools.product(range(len(lay)), repeat=n):
            yield ["table", [LAYERS.index(lay[i]) for i in combo]]
    for front, back in itertools.product(range(0, 15, 3), repeat=2):
        yield ["media", front, back]
    for mask in itertools.product([0, 1], repeat=4):
        if any(mask):
            for kind in range(4):
                yield ["graded", list(mask), kind]
    yield ["component"]


def make(layers, thick, rough, mode, rule, L, solvent, rev, ifaces=None):
    live = {k: v[0]() for k, v in MATS.items()}
    wav = WVAL[mode]
    kw = {}
    if mode in ("ctor", "int") or mode[0] == "c":
        kw["wavelength"] = wav
    s = StructureSE(
        ema=rule, depolarisation_factor=L, reverse_structure=rev,
        solvent=None if solvent is None else live[solvent], **kw
    )
    for i, (spec, t, r) in enumerate(zip(layers, thick, rough)):
        s |= build_layer(spec, live, t, r, ifaces[i] if ifaces else None)
    if mode == "attr" or mode in WOWN and mode[0] == "a":
        s.wavelength = wav
    return s, wav


def get(s, mode, wav):
    return s.slabs(wavelength=wav) if mode[0] == "k" else s.slabs()


def run_table(ctx, interior, media):
    layers = [media[0]] + interior + [media[1]]
    thick = [11.123456789 * i + 3.5 for i in range(len(layers))]
    # some layers are rougher than they are thick
    rough = [(1.5 + i) * (20.123456789 if i % 2 else 1) for i in range(len(layers))]
    emas = EMAS if ctx.tier == "quick" else EMAS_T
    mixes = any(l[0] == "mix" or l[1] for l in interior)
    solvents = [None, "k", "lo", "ca"] if mixes else [None, "lo"]
    for (rule, L), mode, solvent, rev in itertools.product(
        emas if mixes else emas[:2], WAVS + (list(WOWN) if len(interior) < 2 else []), solvents, (False, True)
    ):
        s, wav = make(layers, thick, rough, mode, rule, L, solvent, rev)
        want = ref_table(layers, thick, rough, wav, rule, L, solvent, rev)
        got = get(s, mode, wav)
        d = dict(layers=layers, rule=rule, L=L, wavelength=mode, solvent=solvent, reversed=rev)
        ctx.step()
        ctx.trace()
        ctx.state((tuple(layers), rule, L, mode, solvent, rev))
        ctx.close(got, want, "slab table", rtol=1e-8, atol=1e-9, **d)
        # asking again gives the same table
        ctx.close(get(s, mode, wav), want, "slab table, second call", rtol=1e-8, atol=1e-9, **d)
        ctx.outcome(np.round(want[:, 1:3], 6).tobytes())


def run_graded(ctx, mask, kind):
    ik = [Tanh, Linear, Sinusoidal, Erf][kind]
    interiors = [
        [("ca", 0.3), ("lo", 0.6), ("k", 0.0)], [("mix", "ca", "lo", 0.4), ("tb", 1.0), ("k", 0.25)],
    ]
    for interior, (rule, L), mode, solvent, rev in itertools.product(
        interiors, EMAS[:3], ("none", "ctor", "kwarg"), (None, "ca"), (False, True)
    ):
        layers = [("k", 0.0)] + interior + [("tb", 0.0)]
        thick = [0.0, 200.0, 150.0, 180.0, 0.0]
        rough = [0.0, 4.0, 3.0, 2.0, 5.0]
        ifaces = [None] + [ik() if b else None for b in mask]
        s, wav = make(layers, thick, rough, mode, rule, L, solvent, rev, ifaces)
        got = get(s, mode, wav)
        want = ref_table(layers, thick, rough, wav, rule, L, solvent, rev)
        d = dict(layers=layers, rule=rule, L=L, wavelength=mode, solvent=solvent, reversed=rev, mask=mask, kind=ik.__name__)
        ctx.step()
        ctx.trace()
        ctx.state((repr(layers), rule, L, mode, solvent, rev, tuple(mask), kind))
        n = got[:, 1] + 1j * got[:, 2]
        wn = want[:, 1] + 1j * want[:, 2]
        ctx.close(n[0], wn[0], "fronting medium of the graded stack", rtol=1e-5, **d)
        ctx.close(n[-1], wn[-1], "backing medium of the graded stack", rtol=1e-5, **d)
        z = np.cumsum(np.r_[0.0, got[1:-1, 0]])
        mid = (z[1:] + z[:-1]) / 2
        span = float(np.sum(thick))
        ctx.check(z[-1] >= span - 1e-6, "graded stack is thinner than its layers", got=z[-1], want=span, **d)
        # position of the first interface inside the sliced region
        w = want[1:-1]
        # centre of each layer: the nominal stack is centred consistently;
        # locate by matching the longest run of every index value
        for j, row in enumerate(w):
            nj = row[1] + 1j * row[2]
            close = np.abs(n[1:-1] - nj) < 1e-4 * abs(nj)
            flat = float(np.sum(got[1:-1, 0][close]))
            # all layers of this index together (media extend the sliced region)
            near = np.abs(wn - nj) < 1e-3 * abs(nj)
            tj = float(np.sum(want[1:-1, 0][near[1:-1]]))
            more = np.inf if near[0] or near[-1] else 1.3 * tj
            ctx.check(
                0.7 * tj < flat < more,
                "graded stack does not show the layer at its solvated index",
                layer=j, index=nj, expected_thickness=tj, found_thickness=flat, **d,
            )
        ctx.outcome((len(got), kind))


def run_component(ctx):
    live = {k: v[0]() for k, v in MATS.items()}
    for k in MATS:
        row = live[k](12.0, 3.0, vfsolv=0.25).slabs()
        n = index(k, None)
        ctx.close(row, [[12.0, n.real, n.imag, 3.0, 0.25]], "a slab on its own uses the default wavelength", material=k)
        for sl in (SlabSE(12.0, live[k], 3.0), live[k](12.0, 3.0), SlabSE(12.0, live[k], 3.0, name="x", interface=None)):
            ctx.close(sl.slabs(), [[12.0, n.real, n.imag, 3.0, 0.0]], "a slab is not solvated by default", material=k)
            s = nk(1.0)() | sl | nk(2.5)()
            ctx.close(s.slabs()[1], [12.0, n.real, n.imag, 3.0, 0.0], "a slab is not solvated by default", material=k)
    for a, b in itertools.product(MATS, repeat=2):
        for f in (0.0, 0.4, 1.0):
            row = MixedSlabSE(12.0, live[a], live[b], f, 3.0).slabs()
            n = complex(ref.mix("linear", index(a, None), index(b, None), f, 1 / 3))
            ctx.close(row, [[12.0, n.real, n.imag, 3.0, 0.0]], "a mixed slab on its own", a=a, b=b, f=f)
            ctx.step()
    ctx.trace()
    ctx.state("component")


def run(case, ctx):
    if case[0] == "table":
        run_table(ctx, [LAYERS[i] for i in case[1]], [("k", 0), ("tb", 0)])
        if len(case[1]) < 2:
            run_table(ctx, [LAYERS[i] for i in case[1]], [("lo", 0.5), ("ca", 0.5)])
            run_table(ctx, [LAYERS[i] for i in case[1]], [("ca", 0), ("au", 0.5)])
    elif case[0] == "media":
        # media taken from the layer list, including solvated ones
        run_table(ctx, [("ca", 0.3)], [LAYERS[case[1]], LAYERS[case[2] + 1]])
    elif case[0] == "graded":
        run_graded(ctx, case[1], case[2])
    else:
        run_component(ctx)
