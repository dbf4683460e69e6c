"""C30: user-defined materials and layers take part like the built-in ones."""
import copy
import itertools
import pickle

import numpy as np
from refnx.analysis import GlobalObjective, Parameter, Parameters, possibly_create_parameter
from refnx.reflect import Tanh, Linear, Sinusoidal

from mc import ref
from mc.sut import *

ID = "C30"
BOUNDS = {
    "quick": "structures of 0..3 interior items over an alphabet of 14 (6 user material classes "
    "as layers and as parts of mixtures, user layers of 1, 2, 3, 5 rows and of no row, built-in "
    "slabs) x user or built-in fronting/backing media x 3 mixing rules x 3 solvents x reversal "
    "x 3 ways of fixing the wavelength; predictions at 6 points and likelihoods for <=2 items; "
    "12 wavelength arguments x 7 material classes; graded interfaces over 8 stacks x 3 kinds x "
    "all subsets; all histories of <=3 of 11 operations on 4 samples; layers repeated 1..3 times in 3 ways",
    "thorough": "as quick with every pair of media, 0..3 items predicted, histories of <=4",
}
ASSUMPTIONS = [
    "oracle: row by row expansion, mixing and optics of mc/ref.py; graded stacks against the "
    "same rows given as built-in constant slabs (decided on their own by C07 and C24)",
    "user classes follow the documented contract: complex-valued epsilon(energy) or complex(wavelength), "
    "parameters, and slabs(structure) with five columns (or None)",
    "stacks with an exactly lossless metal (n = 0) contain no solvated layer (as in C06)",
]
BLOCK = 4


class UEps(ScattererSE):
    """material given by its dielectric function of the energy (eV)"""

    def __init__(self, a, b, c, wavelength=530.0, name="ueps"):
        super().__init__(name=name, wavelength=wavelength)
        self.a = possibly_create_parameter(a, name="a")
        self.b = possibly_create_parameter(b, name="b")
        self.c = possibly_create_parameter(c, name="c")
        self._parameters = Parameters(name=name)
        self._parameters.extend([self.a, self.b, self.c])

    @property
    def parameters(self):
        return self._parameters

    def epsilon(self, energy):
        return self.a.value + self.b.value * energy**2 + 1j * self.c.value * energy


class UCplx(ScattererSE):
    """material given by its index as a function of the wavelength (nm)"""

    def __init__(self, n, s, k, wavelength=610.0, name="ucplx"):
        super().__init__(name=name, wavelength=wavelength)
        self.n = possibly_create_parameter(n, name="n")
        self.s = possibly_create_parameter(s, name="s")
        self.k = possibly_create_parameter(k, name="k")
        self._parameters = Parameters(name=name)
        self._parameters.extend([self.n, self.s, self.k])

    @property
    def parameters(self):
        return self._parameters

    def complex(self, wavelength):
        wav = self.wavelength if wavelength is None else wavelength
        return self.n.value + self.s.value * wav / 1000 + 1j * self.k.value


class UChild(Lorentz):
    """a built-in material with a modified dielectric function"""

    def epsilon(self, energy):
        return super().epsilon(energy) + 0.75


class UBare(ScattererSE):
    """no parameters at all, not even a constructor"""

    parameters = Parameters(name="bare")

    def epsilon(self, energy):
        return 2.5 + 0.03 * energy + 0j


class UMetal(ScattererSE):
    """lossless metal: negative dielectric function, absorbing nothing"""

    parameters = Parameters(name="metal")

    def epsilon(self, energy):
        return 3.0 - 30.0 / energy**2 + 0j


class UReal(ScattererSE):
    """transparent material without parameters"""

    parameters = Parameters(name="real")

    def epsilon(self, energy):
        return 2.0 + 0.1 * energy + 0j


class UFilm(ComponentSE):
    """m sublayers with a gradient of index between two materials"""

    def __init__(self, m, thick, A, B, rough=2.5, vf=0.0, name="film", interface=None):
        super().__init__(name=name)
        self.m = m
        self.A, self.B = A, B
        # attributes are named differently from those of the built-in slabs
        self.d = possibly_create_parameter(thick, name="d")
        self.sig = possibly_create_parameter(rough, name="sig")
        self.phi = possibly_create_parameter(vf, name="phi")
        p = Parameters(name=name)
        p.extend([self.d, A.parameters, B.parameters, self.sig, self.phi])
        self._parameters = p
        self.interfaces = interface

    @property
    def parameters(self):
        return self._parameters

    def slabs(self, structure=None):
        w = getattr(structure, "wavelength", None)
        a, b = complex(self.A.complex(w)), complex(self.B.complex(w))
        out = np.zeros((self.m, 5))
        for i in range(self.m):
            n = a + (b - a) * (i + 0.5) / self.m
            out[i] = (self.d.value * (i + 1), n.real, n.imag, self.sig.value + i, self.phi.value / (i + 1))
        return out

    def logp(self):
        return -0.5 * ((self.d.value - 40.0) / 17.0) ** 2


class UNone(ComponentSE):
    """contributes a parameter and a log-probability, but no rows"""

    def __init__(self, x, name="none"):
        super().__init__(name=name)
        self.x = possibly_create_parameter(x, name="x")
        self._parameters = Parameters([self.x], name=name)

    @property
    def parameters(self):
        return self._parameters

    def slabs(self, structure=None):
        return None

    def logp(self):
        return -abs(self.x.value)


class UPlain(ComponentSE):
    """two fixed rows, nothing adjustable"""

    def __init__(self, interface=None, name="plain"):
        super().__init__(name=name)
        self.interfaces = interface

    @property
    def parameters(self):
        return Parameters(name="plain")

    def slabs(self, structure=None):
        return np.array([[13.0, 1.61, 0.015, 2.25, 0.15], [27.0, 1.43, 0.0, 1.75, 0.0]])


PV = dict(a=2.2, b=0.02, c=0.05, n=1.45, s=0.11, k=0.03)


class Mats:
    """one live set of materials and its reference indices"""

    def __init__(self):
        self.ea, self.eb, self.ec = (Parameter(PV[x], x) for x in "abc")
        self.m = {
            "e": UEps(self.ea, self.eb, self.ec),
            "x": UCplx(PV["n"], PV["s"], PV["k"]),
            "h": UChild([2.0], [0.5], [4.1], Einf=1.4, wavelength=700),
            "b": UBare("bare", 444.0),
            "d": UMetal("metal", 700.0),
            "r": UReal("real", 390.0),
            "l": Sellmeier(1.1, 0.09, 0.01, Einf=1.2, wavelength=589),
            "k": nk(1.52 + 0.02j),
            "g": nk(3.8 + 0.05j),
            "c": Cauchy(1.38, 0.004, wavelength=480),
        }


DFLT = {"e": 530.0, "x": 610.0, "h": 700.0, "b": 444.0, "l": 589.0, "d": 700.0, "r": 390.0, "k": 658.0, "g": 658.0, "c": 480.0}


def index(name, wav, v=PV):
    w = DFLT[name] if wav is None else wav
    E = ref.HC / w
    if name == "e":
        return np.sqrt(v["a"] + v["b"] * E**2 + 1j * v["c"] * E)
    if name == "x":
        return v["n"] + v["s"] * w / 1000 + 1j * v["k"]
    if name == "h":
        return np.sqrt(ref.lorentz_eps([(2.0, 0.5, 4.1)], 1.4, E) + 0.75)
    if name == "b":
        return np.sqrt(2.5 + 0.03 * E + 0j)
    if name == "l":
        return np.sqrt(ref.sellmeier_eps((1.1, 0.09, 0.01, 1.2), w) + 0j)
    if name == "d":
        return np.sqrt(3.0 - 30.0 / E**2 + 0j)
    if name == "r":
        return np.sqrt(2.0 + 0.1 * E + 0j)
    if name == "c":
        return ref.cauchy((1.38, 0.004, 0.0), w) + 0j
    return {"k": 1.52 + 0.02j, "g": 3.8 + 0.05j}[name] + 0 * E


# items: ("s", material, vf), ("m", A, B, vf), ("f", rows, A, B, vf), ("0",)
ITEMS = [
    ("s", "e", 0.3), ("s", "x", 0.0), ("s", "h", 0.6), ("s", "b", 1.0), ("s", "k", 0.25),
    ("m", "e", "x", 0.4), ("f", 1, "x", "k", 0.5), ("f", 3, "e", "h", 0.45), ("f", 5, "k", "e", 0.0), ("0",),
    ("s", "d", 0.0), ("s", "r", 0.35),
    ("p",), ("m", "l", "x", 0.3),
]
MEDIA = [("k", "g"), ("e", "g"), ("x", "h"), ("c", "e"), ("r", "h")]
RULES = [("linear", 1 / 3), ("bruggeman", 0.4), ("maxwell-garnett", 1 / 3)]
MODES = [("none", None), ("attr", 487.65), ("kwarg", 801.25)]


def thick_of(i):
    return 21.0 + 8.5 * i


def build(live, it, i, iface=None):
    t = thick_of(i)
    if it[0] == "s":
        return SlabSE(t, live[it[1]], 1.5 + i, vfsolv=it[2], interface=iface)
    if it[0] == "m":
        return MixedSlabSE(t, live[it[1]], live[it[2]], it[3], 1.5 + i, interface=iface)
    if it[0] == "f":
        return UFilm(it[1], t, live[it[2]], live[it[3]], rough=1.5 + i, vf=it[4], interface=iface)
    if it[0] == "p":
        return UPlain(interface=iface)
    return UNone(0.5 + i)


def rows_of(it, i, wav, rule, L, v=PV, t=None):
    """[thickness, index, roughness, solvent fraction] per row"""
    t = thick_of(i) if t is None else t
    if it[0] == "s":
        return [[t, complex(index(it[1], wav, v)), 1.5 + i, it[2]]]
    if it[0] == "m":
        return [[t, complex(ref.mix(rule, index(it[1], wav, v), index(it[2], wav, v), it[3], L)), 1.5 + i, 0.0]]
    if it[0] == "f":
        a, b = complex(index(it[2], wav, v)), complex(index(it[3], wav, v))
        m = it[1]
        return [[t * (j + 1), a + (b - a) * (j + 0.5) / m, 1.5 + i + j, it[4] / (j + 1)] for j in range(m)]
    if it[0] == "p":
        return [[13.0, 1.61 + 0.015j, 2.25, 0.15], [27.0, 1.43 + 0j, 1.75, 0.0]]
    return []


def logp_of(it, i, t=None):
    if it[0] == "f":
        return -0.5 * (((thick_of(i) if t is None else t) - 40.0) / 17.0) ** 2
    return -(0.5 + i) if it[0] == "0" else 0.0


def table(media, items, wav, rule, L, solvent, rev, v=PV, ts=None):
    rows = [[0.0, complex(index(media[0], wav, v)), 0.0, 0.0]]
    for i, it in enumerate(items):
        rows += rows_of(it, i, wav, rule, L, v, None if ts is None else ts[i])
    rows.append([0.0, complex(index(media[1], wav, v)), 3.25, 0.0])
    if rev:
        rr = [0.0] + [rows[i][2] for i in range(len(rows) - 1, 0, -1)]
        rows = [list(r) for r in rows[::-1]]
        for r, x in zip(rows, rr):
            r[2] = x
    solv = rows[-1][1] if solvent is None else complex(index(solvent, wav, v))
    for r in rows[1:-1]:
        if r[3] > 0:
            r[1] = complex(ref.mix(rule, r[1], solv, r[3], L))
    return np.array([[t, n.real, n.imag, r, f] for t, n, r, f in rows])


def make(mats, media, items, rule, L, solvent, rev):
    live = mats.m
    s = StructureSE(
        solvent=None if solvent is None else live[solvent], ema=rule, depolarisation_factor=L, reverse_structure=rev
    )
    s |= live[media[0]]
    for i, it in enumerate(items):
        s |= build(live, it, i)
    s |= live[media[1]](0, 3.25)
    return s


def tclose(ctx, got, want, msg, **d):
    ctx.check(got is not None and np.shape(got) == want.shape, msg + ": rows", got=None if got is None else np.shape(got), want=want.shape, **d)
    ctx.close(got, want, msg, rtol=1e-8, atol=1e-9, **d)


def rules(ctx, items):
    """stacks that mix next to an exactly lossless metal are outside (see C06)"""
    if ("s", "d", 0.0) in items and any(it[0] == "s" and it[2] or it[0] == "f" and it[4] or it[0] == "p" for it in items):
        ctx.skip()
        return []
    return RULES


def run_tables(ctx, media, interior):
    items = [ITEMS[i] for i in interior]
    solvated = any(it[0] == "p" or it[0] in "sf" and it[-1] for it in items)
    for (rule, L), solvent, rev in itertools.product(
        rules(ctx, items) if items else RULES[:1], [None, "e", "x"] if solvated else [None, "x"], (False, True)
    ):
        s = make(Mats(), media, items, rule, L, solvent, rev)
        for mode, wav in MODES:
            want = table(media, items, wav, rule, L, solvent, rev)
            d = dict(media=media, items=items, rule=rule, L=L, solvent=solvent, reversed=rev, wavelength=wav)
            if mode == "attr":
                s.wavelength = wav
            got = s.slabs(wavelength=wav) if mode == "kwarg" else s.slabs()
            ctx.step()
            ctx.state((media, tuple(interior), rule, solvent, rev, wav))
            tclose(ctx, got, want, "slab table", **d)
            ctx.outcome(np.round(want[:, 1:3], 6).tobytes())
        # the ends of the profile
        if len(want) > 2:
            z, p = s.ri_profile()
            ctx.close([p[0], p[-1]], [want[0, 1], want[-1, 1]], "ends of the profile", rtol=1e-3, atol=1e-3, **d)
    ctx.trace()


POINTS = [(400.0, 55.0), (532.0, 70.0), (532.0, 45.0), (633.0, 62.5), (860.0, 70.0), (1100.0, 20.0)]


def psi_delta(media, items, rule, L, solvent, rev, points, v=PV, ts=None):
    P, D = [], []
    for w, a in points:
        t = table(media, items, w, rule, L, solvent, rev, v, ts)
        n = t[:, 1] + 1j * t[:, 2]
        n[0] = n[0].real
        psi, delta = ref.psi_delta(n, t[:, 0] / 10, np.array([a]), np.array([w]))
        P.append(psi[0])
        D.append(delta[0])
    return np.array(P), np.array(D)


def run_predict(ctx, media, interior):
    items = [ITEMS[i] for i in interior]
    pts = np.array(POINTS)
    for (rule, L), solvent, rev in itertools.product(rules(ctx, items), [None, "x"], (False, True)):
        mats = Mats()
        s = make(mats, media, items, rule, L, solvent, rev)
        m = ReflectModelSE(s)
        wp, wd = psi_delta(media, items, rule, L, solvent, rev, POINTS)
        d = dict(media=media, items=items, rule=rule, solvent=solvent, reversed=rev)
        got = np.asarray(m(pts))
        ctx.check(got.shape == (2, len(pts)), "shape of the prediction", got=got.shape, **d)
        ctx.close(got[0], wp, "Psi", rtol=1e-6, atol=1e-5, **d)
        ctx.close(ref.circ(got[1], wd), 0 * wd, "Delta", atol=1e-4, **d)
        data = DataSE((pts[:, 0], pts[:, 1], wp + 0.7, wd + 1.1))
        o = ObjectiveSE(m, data)
        lp = sum(logp_of(it, i) for i, it in enumerate(items))
        r = o.residuals()
        want = np.r_[-0.7 + 0 * wp, 1.1 + 0 * wd]
        ctx.close(r, want, "residuals", atol=1e-4, **d)
        ctx.close(float(o.logl()), -0.5 * np.sum(want**2) + lp, "log-likelihood", rtol=1e-3, atol=1e-3, **d)
        # every parameter of the user's classes is adjustable, once each
        ps = list(o.parameters.flattened())
        uniq = {id(p) for p in ps}
        used = [media[0], media[1]] + [x for it in items for x in it if isinstance(x, str) and x in mats.m]
        if solvent is not None:
            used.append(solvent)
        for nm in set(used):
            for p in mats.m[nm].parameters.flattened():
                ctx.check(id(p) in uniq, "a parameter of a material is not exposed", material=nm, parameter=p.name, **d)
        for c in s:
            for p in c.parameters.flattened():
                ctx.check(id(p) in uniq, "a parameter of a layer is not exposed", parameter=p.name, **d)
        ctx.step()
        ctx.state((media, tuple(interior), rule, solvent, rev, "m"))
        ctx.outcome(np.round(wp, 5).tobytes())
    ctx.trace()


def run_material(ctx, name):
    args = [None, 300, 300.0, 487.65, 658, 1239.841984055, 1700.5, np.float64(512.5), np.array([400.0]),
            np.array([300.0, 487.65, 900.0]), [350.0, 610.0], np.array([[400.0, 500.0], [600.0, 700.0]])]
    mat = Mats().m[name]
    # the built-in oscillators take one-dimensional arrays
    for w in args[:-1] if name == "h" else args:
        if isinstance(w, list):
            w = np.array(w)
        got = mat.complex(w)
        want = index(name, None if w is None else np.asarray(w, float))
        ctx.check(np.shape(got) == np.shape(want), "shape of the index", material=name, wavelength=w, got=np.shape(got), want=np.shape(want))
        ctx.close(got, want, "index of a user material", rtol=1e-10, atol=1e-12, material=name, wavelength=w)
        ctx.step()
        ctx.state((name, repr(w)))
    for dw in (250.0, 444.0, 1000.0):
        mat.wavelength = dw
        ctx.close(complex(mat), index(name, dw), "index at the default wavelength", rtol=1e-10, material=name, wavelength=dw)
        ctx.close(complex(mat.complex(None)), index(name, dw), "index at the default wavelength", rtol=1e-10, material=name, wavelength=dw)
        for arg in ((), (12.5,), (12.5, 3.0), (12.5, 3.0, 0.25)):
            sl = mat(*arg).slabs()
            full = list(arg) + [0.0] * (3 - len(arg))
            n = complex(index(name, dw))
            ctx.close(sl, [[full[0], n.real, n.imag, full[1], full[2]]], "a layer of a user material", rtol=1e-10, material=name, args=arg)
        ctx.step()
    ctx.outcome(name)
    ctx.trace()


GRADED = [[0, 4, 1], [7, 4, 0], [6, 8], [5, 7], [8], [7, 7], [12], [12, 1]]


def expand(items, media, wav, rule, L, ifaces, rev):
    """the same rows as built-in slabs of constant index"""
    s = StructureSE(reverse_structure=rev, ema=rule, depolarisation_factor=L)
    s |= nk(index(media[0], wav))
    for i, it in enumerate(items):
        for t, n, r, f in rows_of(it, i, wav, rule, L):
            s |= SlabSE(t, nk(n), r, vfsolv=f, interface=ifaces[i])
    b = nk(index(media[1], wav))(0, 3.25)
    s |= b
    return s


def run_graded(ctx, gi, kind):
    ik = [Tanh, Linear, Sinusoidal][kind]
    items = [ITEMS[i] for i in GRADED[gi]]
    media = ("e", "g")
    for mask in itertools.product([0, 1], repeat=len(items)):
        ifaces = [ik() if b else None for b in mask]
        if not any(mask):
            continue
        for (rule, L), rev, wav in itertools.product(RULES, (False, True), (None, 487.65)):
            live = Mats().m
            s = StructureSE(ema=rule, depolarisation_factor=L, reverse_structure=rev, wavelength=wav)
            s |= live[media[0]]
            for i, it in enumerate(items):
                s |= build(live, it, i, ifaces[i])
            s |= live[media[1]](0, 3.25)
            e = expand(items, media, wav, rule, L, ifaces, rev)
            d = dict(items=items, mask=mask, kind=ik.__name__, rule=rule, reversed=rev, wavelength=wav)
            tclose(ctx, s.slabs(), e.slabs(), "graded stack with user layers", **d)
            if wav is not None:
                x = np.array([[wav, 50.0], [wav, 70.0]])
                got, want = np.asarray(ReflectModelSE(s)(x)), np.asarray(ReflectModelSE(e)(x))
                ctx.close(got[0], want[0], "Psi of a graded stack with user layers", rtol=1e-6, atol=1e-6, **d)
                ctx.close(ref.circ(got[1], want[1]), [0.0, 0.0], "Delta of a graded stack with user layers", atol=1e-5, **d)
            ctx.step()
            ctx.state((gi, kind, mask, rule, rev, wav))
    ctx.outcome((gi, kind))
    ctx.trace()


# ---- histories ---------------------------------------------------------

OPS = ["a", "thick", "vector", "rev", "solvent", "wav", "eval", "deep", "pickle", "shallow", "swap"]
HIST = [[0, 7], [6, 9, 5], [8, 2], [0, 12]]


class World:
    def __init__(self, k):
        self.items = [ITEMS[i] for i in HIST[k]]
        self.media = ("e", "g") if k != 1 else ("k", "e")
        self.v = dict(PV)
        self.ts = [thick_of(i) for i in range(len(self.items))]
        self.solvent = None
        self.rev = False
        mats = Mats()
        self.s = make(mats, self.media, self.items, "bruggeman", 0.4, None, False)
        self.m = ReflectModelSE(self.s)
        mats.ea.setp(vary=True, bounds=(1, 5))
        self.first().setp(vary=True, bounds=(1, 500))

    def first(self):
        """thickness parameter of the first interior layer"""
        c = self.s[1]
        return c.thick if isinstance(c, SlabSE) else c.d

    def mat(self):
        """the live user material 'e' in the current structure"""
        for c in self.s:
            for x in (getattr(c, n, None) for n in ("ri", "A", "B", "ri_A")):
                if isinstance(x, UEps):
                    return x

    def prediction(self):
        return psi_delta(self.media, self.items, "bruggeman", 0.4, self.solvent, self.rev, POINTS[:3], self.v, self.ts)


def apply(w, op, n):
    if op == "a":
        w.v["a"] = 2.3 + 0.31 * n
        w.mat().a.value = w.v["a"]
    elif op == "thick":
        w.ts[0] = 33.5 + 7.25 * n
        w.first().value = w.ts[0]
    elif op == "vector":
        ps = w.m.parameters.varying_parameters()
        new = []
        for p in ps:
            if p is w.mat().a:
                w.v["a"] = 2.05 + 0.17 * n
                new.append(w.v["a"])
            else:
                w.ts[0] = 61.5 + 3 * n
                new.append(w.ts[0])
        w.m.parameters.pvals = new
    elif op == "rev":
        w.rev = not w.rev
        w.s.reverse_structure = w.rev
    elif op == "solvent":
        w.solvent = "e" if w.solvent is None else None
        w.s.solvent = None if w.solvent is None else w.mat()
    elif op == "wav":
        w.s.wavelength = 512.5
    elif op == "eval":
        w.m(np.array([[700.0, 40.0]]))
        w.s.slabs()
    elif op == "deep":
        w.m = copy.deepcopy(w.m)
        w.s = w.m.structure
    elif op == "pickle":
        w.m = pickle.loads(pickle.dumps(w.m))
        w.s = w.m.structure
    elif op == "shallow":
        w.s = copy.copy(w.s)
        w.m.structure = w.s
    elif op == "swap" and len(w.items) > 1 and w.items[1] != ("0",):
        # the second layer is given again as a new object
        live = {"e": w.mat()}
        full = Mats().m
        full.update(live)
        c = build(full, w.items[1], 1)
        w.s[2] = c


def check_world(ctx, w, ops):
    wp, wd = w.prediction()
    old = w.s.wavelength
    got = np.asarray(w.m(np.array(POINTS[:3])))
    d = dict(items=w.items, ops=ops)
    ctx.close(got[0], wp, "Psi after a history", rtol=1e-6, atol=1e-5, **d)
    ctx.close(ref.circ(got[1], wd), 0 * wd, "Delta after a history", atol=1e-4, **d)
    n = len(w.m.parameters.varying_parameters())
    ctx.check(n == 2, "varying parameters after a history", got=n, want=2, **d)
    ctx.outcome(np.round(wp, 4).tobytes())
    w.s.wavelength = old


def run_history(ctx, k, first, depth):
    for L in range(0, depth):
        for rest in itertools.product(OPS, repeat=L):
            ops = [first] + list(rest)
            w = World(k)
            for n, op in enumerate(ops):
                apply(w, op, n)
                ctx.step()
            check_world(ctx, w, ops)
            ctx.state((k, tuple(ops)))
            ctx.trace()


def run_repeat(ctx, i):
    """one user-defined layer occurring several times"""
    it = ITEMS[i]
    for n, rev, how in itertools.product((1, 2, 3), (False, True), ("mul", "or", "spaced")):
        mats = Mats()
        live = mats.m
        c = build(live, it, 0)
        s = StructureSE(reverse_structure=rev)
        s |= live["k"]
        seq = []
        for j in range(n):
            if how == "spaced" and j:
                s |= build(live, ITEMS[4], 0)
                seq.append(ITEMS[4])
            if how != "mul":
                s |= c
            seq.append(it)
        if how == "mul":
            s |= c * n
        s |= live["g"](0, 3.25)
        rows = [[0.0, complex(index("k", 500.0)), 0.0, 0.0]]
        for x in seq:
            rows += rows_of(x, 0, 500.0, "linear", 1 / 3)
        rows.append([0.0, complex(index("g", 500.0)), 3.25, 0.0])
        if rev:
            rr = [0.0] + [x[2] for x in rows[:0:-1]]
            rows = [[t, nn, x, f] for (t, nn, _, f), x in zip(rows[::-1], rr)]
        solv = rows[-1][1]
        want = []
        for t, nn, x, f in rows:
            if f > 0:
                nn = complex(ref.mix("linear", nn, solv, f, 1 / 3))
            want.append([t, nn.real, nn.imag, x, f])
        want = np.array(want)
        d = dict(item=it, times=n, reversed=rev, how=how)
        tclose(ctx, s.slabs(wavelength=500.0), want, "slab table with a repeated layer", **d)
        pts = np.array([[500.0, 50.0], [500.0, 70.0]])
        nn = want[:, 1] + 1j * want[:, 2]
        nn[0] = nn[0].real
        wp, wd = ref.psi_delta(nn, want[:, 0] / 10, pts[:, 1], pts[:, 0])
        # the data are the exact prediction: only the layer's own terms remain
        for ln in (None, -3.0):
            o = ObjectiveSE(ReflectModelSE(s), DataSE((pts[:, 0], pts[:, 1], wp, wd)), lnsigma=ln)
            ctx.close(float(o.logl()), n * logp_of(it, 0), "log-likelihood with a repeated layer", rtol=1e-6, atol=1e-5, lnsigma=ln, **d)
        ctx.step()
        ctx.state((i, n, rev, how))
    ctx.outcome(i)
    ctx.trace()


def run_structure_ends(ctx):
    """user layers cannot be the media: refused, nothing changed"""
    live = Mats().m
    for i in (6, 7, 9):
        for front in (True, False):
            s = StructureSE()
            parts = [live["k"](), build(live, ITEMS[0], 0), live["g"]()]
            parts[0 if front else 2] = build(live, ITEMS[i], 0)
            for p in parts:
                s |= p
            ctx.raises(s.slabs, "a stack that does not end in a slab is evaluated", item=ITEMS[i], front=front)
            ctx.raises(s.ri_profile, "a profile of a stack that does not end in a slab", item=ITEMS[i], front=front)
            ctx.check(len(s) == 3 and all(a is b for a, b in zip(s, parts)), "a refused evaluation changed the structure")
            ctx.step()
    # operators on user layers
    for i in (6, 7, 8, 9):
        c = build(live, ITEMS[i], 0)
        for n in (1, 2, 4):
            r = c * n
            seq = [r] if n == 1 else list(r)
            ctx.check(len(seq) == n and all(x is c for x in seq), "repeated user layer", item=ITEMS[i], n=n)
        ctx.check(type(c * 0) is StructureSE and len(c * 0) == 0, "user layer times zero")
        for s in (c | live["g"], c | live["g"](), (live["k"]() | c) | live["g"], live["k"]() | (c | live["g"])):
            ctx.check(type(s) is StructureSE and sum(x is c for x in s) == 1, "user layer in an expression", item=ITEMS[i], got=len(s))
        ctx.step()

    # a material without any optical law has no index
    class Empty(ScattererSE):
        parameters = Parameters(name="empty")

    ctx.raises(lambda: Empty("x", 500.0).complex(500.0), "index of a material without a law")
    ctx.trace()
    ctx.state("ends")
    ctx.outcome("ends")


def run_shared(ctx, i, j):
    """user layers in two samples that are refined together"""
    mats = Mats()
    it = [ITEMS[i], ITEMS[j]]
    obs, want, lp = [], [], 0.0
    mats.ea.setp(vary=True, bounds=(1, 5))
    for media, rev in ((("k", "g"), False), (("e", "g"), True)):
        s = make(mats, media, it, "linear", 1 / 3, None, rev)
        wp, wd = psi_delta(media, it, "linear", 1 / 3, None, rev, POINTS[:4], dict(PV, a=2.6))
        obs.append(ObjectiveSE(ReflectModelSE(s), DataSE((*np.array(POINTS[:4]).T, wp + 0.5, wd + 0.25))))
        want += [-0.5] * 4 + [0.25] * 4
        lp += sum(logp_of(x, n) for n, x in enumerate(it))
    g = GlobalObjective(obs)
    n = len(g.varying_parameters())
    ctx.check(n == 1, "a shared user parameter is counted once", got=n, items=it)
    ctx.close(g.residuals([2.6]), want, "residuals of a co-refinement with user classes", atol=1e-4, items=it)
    ctx.close(g.logl([2.6]), -0.5 * np.sum(np.square(want)) + lp, "log-likelihood of a co-refinement with user classes", rtol=1e-3, atol=1e-3, items=it)
    ctx.step()
    ctx.state((i, j))
    ctx.outcome(lp)
    ctx.trace()


def cases(tier):
    for name in "exhbdrc":
        yield ["material", name]
    yield ["ends"]
    idx = range(len(ITEMS))
    for n in range(0, 4):
        for c in itertools.product(idx, repeat=n):
            if n == 3 and tier == "quick":
                yield ["tables", sum(c) % len(MEDIA), list(c)]
            else:
                for m in range(len(MEDIA)):
                    yield ["tables", m, list(c)]
    for n in range(0, 3 if tier == "quick" else 4):
        for c in itertools.product(idx, repeat=n):
            for m in range(len(MEDIA)):
                if n < 2 or m == sum(c) % len(MEDIA) or tier != "quick" and n == 2:
                    yield ["predict", m, list(c)]
    for gi in range(len(GRADED)):
        for kind in range(3):
            yield ["graded", gi, kind]
    for i, j in itertools.product(idx, repeat=2):
        if "e" in ITEMS[i] + ITEMS[j]:
            yield ["shared", i, j]
    for i in idx:
        if ITEMS[i][0] != "s" or ITEMS[i][1] != "d":
            yield ["repeat", i]
    for k in range(len(HIST)):
        for op in OPS:
            yield ["history", k, op, 3 if tier == "quick" else 4]


def run(case, ctx):
    kind = case[0]
    if kind == "material":
        run_material(ctx, case[1])
    elif kind == "ends":
        run_structure_ends(ctx)
    elif kind == "tables":
        run_tables(ctx, MEDIA[case[1]], case[2])
    elif kind == "predict":
        run_predict(ctx, MEDIA[case[1]], case[2])
    elif kind == "graded":
        run_graded(ctx, case[1], case[2])
    elif kind == "repeat":
        run_repeat(ctx, case[1])
    elif kind == "shared":
        run_shared(ctx, case[1], case[2])
    else:
        run_history(ctx, case[1], case[2], case[3])
