"""C04: predictions depend on current settings only, not on history."""
import copy
import itertools
import pickle

import numpy as np
from matplotlib.figure import Figure
from refnx.analysis import Parameter
from refnx.reflect import Tanh

from mc import ref
from mc.sut import *

ID = "C04"
BOUNDS = {
    "quick": "every history of <=3 operations over an alphabet of 40 "
    "(evaluations, parameter, layer, solvent, mixing, reversal, convention, "
    "structure-swap, profile, plot, objective, copy operations)",
    "thorough": "every history of <=4 operations over the same alphabet",
}
ASSUMPTIONS = [
    "oracle: a plain record of the current settings, from which a fresh model "
    "is built and evaluated after every history (all prefixes are histories "
    "of their own)",
]
BLOCK = 8

PROBE = np.array([(658.0, 60.0), (450.0, 72.0), (658.0, 20.0)])
SETA = np.array([(450.0, 70.0)])
SETB = np.array([(800.0, 50.0), (658.0, 60.0), (799.0, 65.0)])
SETS = np.array([(658.0, 60.0)])
SETC = np.array([(658.0, 60.0), (450.0, 72.0)])


class World:
    """live objects plus the record of what has been set"""

    def __init__(self):
        self.mats = {
            "air": ["RI", [1.0, 0.0]],
            "c1": ["Cauchy", [1.45, 0.006, 0.0]],
            "c2": ["Cauchy", [1.33, 0.002, 0.0]],
            "lo": ["Lorentz", [4.0, 0.3, 4.2, 2.0]],
            "au": ["RI", [0.3, 2.4]],
            "tb": ["Table", None],
        }
        self.rec = [
            dict(
                layers=[["air", 0, 0, 0, None], ["c1", 30.0, 1.0, 0.4, None], ["lo", 60.0, 1.5, 0.0, None],
                        ["mix", 20.0, 1.0, 0.25, None], ["tb", 0, 1.0, 0, None]],
                solvent=None, ema="linear", L=1 / 3, rev=False, contract=0,
            ),
            dict(
                layers=[["c2", 0, 0, 0, None], ["au", 40.0, 0.0, 0.1, None], ["c1", 0, 0, 0, None]],
                solvent="c2", ema="bruggeman", L=0.5, rev=True, contract=0,
            ),
        ]
        self.cur = 0
        self.offset = 0.0
        self.live_mats, self.live = self.make()
        self.model = ReflectModelSE(self.live[0], delta_offset=0.0)
        self.other = None
        self.matwav = 658

    def make_mats(self):
        out = {}
        for k, (kind, p) in self.mats.items():
            if kind == "RI":
                out[k] = RI(tuple(p))
            elif kind == "Cauchy":
                out[k] = Cauchy(*p)
            elif kind == "Lorentz":
                out[k] = Lorentz(p[0], p[1], p[2], Einf=p[3])
            else:
                out[k] = RI((np.array([0.4, 0.6, 0.9]), np.array([3.4, 3.7, 3.5]), np.array([0.3, 0.1, 0.0])))
        return out

    @staticmethod
    def make_layer(mats, spec):
        m, t, r, v, iface = spec
        if m == "mix":
            s = MixedSlabSE(t, mats["c1"], mats["lo"], v, r)
        else:
            s = mats[m](t, r, vfsolv=v)
        if iface:
            s.interfaces = Tanh()
        return s

    def make(self):
        mats = self.make_mats()
        out = []
        for rec in self.rec:
            s = StructureSE(ema=rec["ema"], depolarisation_factor=rec["L"], reverse_structure=rec["rev"])
            s.solvent = mats[rec["solvent"]] if rec["solvent"] else None
            s.contract = rec["contract"]
            for spec in rec["layers"]:
                s.append(self.make_layer(mats, spec))
            out.append(s)
        return mats, out

    def fresh(self):
        mats, ss = self.make()
        return ReflectModelSE(ss[self.cur], delta_offset=self.offset)

    # live structure currently in the model and its record
    @property
    def s(self):
        return self.model.structure

    @property
    def r(self):
        return self.rec[self.cur]


def _set_thick(i, v):
    def op(w):
        w.s[i].thick.value = v
        w.r["layers"][i][1] = v

    return op


def _set_vf(i, v):
    def op(w):
        spec = w.r["layers"][i]
        (w.s[i].vf_B if spec[0] == "mix" else w.s[i].vfsolv).value = v
        spec[3] = v

    return op


def _set_rough(w):
    w.s[1].rough.value = 2.5
    w.r["layers"][1][2] = 2.5


def _mat(w, key):
    """the live material object (it may have been restored from a pickle)"""
    return w.live_mats[key]


def _cauchyA(v):
    def op(w):
        _mat(w, "c1").A.value = v
        w.mats["c1"][1][0] = v

    return op


def _lorentz(w):
    _mat(w, "lo").Am[0].value = 9.0
    _mat(w, "lo").Einf.value = 1.5
    w.mats["lo"][1][0] = 9.0
    w.mats["lo"][1][3] = 1.5


def _solvent(key):
    def op(w):
        w.s.solvent = None if key is None else _mat(w, key)
        w.r["solvent"] = key

    return op


def _ema(name):
    def op(w):
        w.s.ema = name
        w.r["ema"] = name

    return op


def _depol(v):
    def op(w):
        w.s.depolarisation_factor = v
        w.r["L"] = v

    return op


def _reverse(w):
    w.s.reverse_structure = not w.s.reverse_structure
    w.r["rev"] = not w.r["rev"]


def _replace(w):
    spec = ["au", 35.0, 0.0, 0.0, None]
    w.s[1] = World.make_layer(w.live_mats, spec)
    w.r["layers"][1] = spec


def _insert(w):
    spec = ["c2", 25.0, 1.0, 0.5, None]
    w.s.insert(1, World.make_layer(w.live_mats, spec))
    w.r["layers"].insert(1, spec)


def _append(w):
    spec = ["lo", 0.0, 1.0, 0.0, None]
    w.s.append(World.make_layer(w.live_mats, spec))
    w.r["layers"].append(spec)


def _ior(w):
    w.s.__ior__(_mat(w, "au"))
    w.r["layers"].append(["au", 0.0, 0.0, 0.0, None])


def _delete(w):
    if len(w.s) > 3:
        del w.s[1]
        del w.r["layers"][1]


def _swap(w):
    w.s[1], w.s[-2] = w.s[-2], w.s[1]
    L = w.r["layers"]
    L[1], L[-2] = L[-2], L[1]


def _graded(w):
    w.s[1].interfaces = Tanh()
    w.r["layers"][1][4] = 1


def _sharp(w):
    w.s[1].interfaces = None
    w.r["layers"][1][4] = None


def _structure(w):
    w.cur = 1 - w.cur
    w.model.structure = w.live[w.cur]


def _offset(w):
    w.model.delta_offset.value = 12.5
    w.offset = 12.5


def _eval(pts):
    def op(w):
        before = [float(p) for p in w.model.parameters.flattened()]
        ids = [id(c) for c in w.s]
        w.model(pts)
        after = [float(p) for p in w.model.parameters.flattened()]
        assert before == after, "evaluation changed parameter values"
        assert ids == [id(c) for c in w.s], "evaluation changed the layers"

    return op


def _near(w):
    w.model(np.array([(658.003, 60.0), (658.004, 60.0)]))


def _new_ri(w):
    """another material in an existing layer"""
    spec = w.r["layers"][1]
    if spec[0] != "mix":
        new = "au" if spec[0] != "au" else "c1"
        w.s[1].ri = _mat(w, new)
        spec[0] = new


def _new_objects(w):
    """new parameter objects in an existing layer"""
    spec = w.r["layers"][1]
    w.s[1].thick = Parameter(41.0)
    w.s[1].rough = Parameter(0.5)
    spec[1], spec[2] = 41.0, 0.5
    if spec[0] == "mix":
        w.s[1].vf_B = Parameter(0.35)
    else:
        w.s[1].vfsolv = Parameter(0.35)
    spec[3] = 0.35
    w.model.delta_offset = Parameter(4.5)
    w.offset = 4.5


def _eval_p(w):
    pv = [float(p) for p in w.model.parameters.flattened()]
    # full vector: delta offset first, then the structure in layer order
    names = list(w.model.parameters.flattened())
    i = [k for k, p in enumerate(names) if p is w.s[1].thick]
    if i:
        pv[i[0]] = 52.0
        w.r["layers"][1][1] = 52.0
    w.model(SETA, p=pv)
    for k, p in enumerate(names):
        assert float(p) == pv[k], "p was not applied"


def _wavelength(w):
    w.s.wavelength = 500.0


def _wavelength_none(w):
    w.s.wavelength = None


def _slabs(w):
    w.s.slabs(wavelength=777.0)


def _slabs_write(w):
    tab = w.s.slabs()
    tab[...] = 1.5  # the returned table belongs to the caller


def _profile(w):
    w.s.ri_profile(align=-1)


_FIG = None


def _plot(w):
    global _FIG
    if _FIG is None:
        _FIG = Figure()
        _FIG.add_subplot(111)
    for l in list(_FIG.gca().lines):
        l.remove()
    w.s.plot(fig=_FIG)


def _objective(w):
    d = DataSE((SETB[:, 0], SETB[:, 1], np.array([20.0, 30.0, 40.0]), np.array([100.0, 200.0, 150.0])))
    o = ObjectiveSE(w.model, d)
    o.chisqr()
    o.logl()
    w.other = o


def _pickle(w):
    w.model, w.live, w.live_mats = pickle.loads(pickle.dumps((w.model, w.live, w.live_mats)))
    w.other = None


def _deepcopy(w):
    c = copy.deepcopy(w.model)
    c(SETB)
    c.structure[1].thick.value = 999.0
    c.structure.reverse_structure = not c.structure.reverse_structure


def _shallow(w):
    c = copy.copy(w.s)
    c.reverse_structure = not c.reverse_structure
    c.ema = "maxwell-garnett"
    ReflectModelSE(c)(SETA)
    c.pop(1)


def _newmodel(w):
    m = ReflectModelSE(w.s, delta_offset=77.0)
    m(SETB)


def _strs(w):
    str(w.s), repr(w.s), repr(w.model), str(_mat(w, "lo"))


def _materials(w):
    for m in w.live_mats.values():
        m.complex(333.0)
        m.complex(np.array([300.0, 900.0]))
        complex(m)


def _matwav(w):
    for m in w.live_mats.values():
        m.wavelength = 512.0
    w.matwav = 512.0


def _contract(v):
    def op(w):
        w.s.contract = v
        w.r["contract"] = v

    return op


OPS = [
    ("evalA", _eval(SETA)), ("evalB", _eval(SETB)), ("evalProbe", _eval(PROBE)), ("thick1", _set_thick(1, 15.0)),
    ("ema_b", _ema("bruggeman")), ("reverse", _reverse), ("solv_c2", _solvent("c2")), ("cauchyA", _cauchyA(1.6)),
    ("thick2", _set_thick(1, 95.0)), ("vf0", _set_vf(1, 0.0)), ("vf5", _set_vf(1, 0.5)), ("rough", _set_rough),
    ("lorentz", _lorentz), ("solv_none", _solvent(None)), ("solv_lo", _solvent("lo")), ("ema_mg", _ema("maxwell-garnett")),
    ("ema_l", _ema("linear")), ("L2", _depol(0.2)), ("L8", _depol(0.8)), ("replace", _replace), ("insert", _insert),
    ("append", _append), ("ior", _ior), ("delete", _delete), ("swap", _swap), ("graded", _graded), ("sharp", _sharp),
    ("structure", _structure), ("offset", _offset), ("eval_p", _eval_p), ("wavelength", _wavelength),
    ("wav_none", _wavelength_none), ("slabs", _slabs), ("slabs_write", _slabs_write), ("profile", _profile), ("plot", _plot),
    ("objective", _objective), ("pickle", _pickle), ("deepcopy", _deepcopy), ("shallow", _shallow), ("newmodel", _newmodel),
    ("strs", _strs), ("materials", _materials), ("matwav", _matwav), ("evalC", _eval(SETC)),
    ("evalS", _eval(SETS)), ("near", _near), ("new_ri", _new_ri), ("new_objects", _new_objects),
    ("contract", _contract(40.0)), ("contract_off", _contract(0)),
]
NAMES = [n for n, _ in OPS]
# alphabet of the longest histories in the quick tier
CORE = [
    n for n in NAMES
    if n not in ("evalProbe", "thick2", "vf0", "rough", "solv_lo", "ema_mg", "ema_l", "L8", "ior", "sharp", "slabs_write",
                 "wav_none", "strs", "matwav", "evalC", "near", "new_ri", "new_objects", "contract", "contract_off")
]
BOUNDS = {k: v.replace("40", str(len(OPS))) for k, v in BOUNDS.items()}
BOUNDS["quick"] = (
    f"every history of <=2 operations over {len(NAMES)} and of 3 over "
    f"{len(CORE)} operations (evaluations, parameter, layer, solvent, mixing, "
    "reversal, convention, structure-swap, profile, plot, objective, copy); every (change i, change j, restore i) "
    "history of the parameters of 5 dispersion models in 8 roles, and steps of 9 sizes of each; every 4-step history that sets and undoes "
    "contraction, grading, material or reversal around each pair of operations"
)
BOUNDS["thorough"] += "; parameter histories as quick"
FN = dict(OPS)


def cases(tier):
    depth = 3 if tier == "quick" else 4
    for kind in PAR:
        for role in ROLES:
            yield ["par", kind, role]
    for k in range(0, 3):
        for seq in itertools.product(NAMES, repeat=k):
            yield list(seq)
    for seq in itertools.product(CORE, repeat=2):
        for a, b in (("contract", "contract_off"), ("graded", "sharp"), ("new_ri", "new_ri"), ("reverse", "reverse")):
            yield [a, seq[0], b, seq[1]]
    for k in range(3, depth + 1):
        # the last operation is expanded inside the case
        for seq in itertools.product(CORE if tier == "quick" else NAMES, repeat=k - 1):
            yield list(seq) + ["*"]


def verify(w, ctx, hist):
    fresh = w.fresh()
    # a single wavelength first (the one the last evaluation may have used), then several
    got = [np.r_[a, b] for a, b in zip(w.model(SETS), w.model(PROBE))]
    want = [np.r_[a, b] for a, b in zip(fresh(SETS), fresh(PROBE))]
    ctx.trace()
    ctx.state(repr((w.rec, w.mats, w.cur, w.offset)))
    bad = ~(
        (np.abs(got[0] - want[0]) < 1e-8) & (np.abs((got[1] - want[1] + 180) % 360 - 180) < 1e-8)
    )
    bad &= ~(np.isnan(want[0]) & np.isnan(got[0])) & ~(np.isnan(want[1]) & np.isnan(got[1]))
    ctx.check(not bad.any(), "prediction depends on the history", history=hist, got=got, want=want)
    # the materials themselves are unchanged: default wavelength and index
    for k, m in w.make_mats().items():
        m.wavelength = w.matwav
        live = w.live_mats[k]
        ctx.check(live.wavelength == w.matwav and complex(live) == complex(m), "evaluation changed a material", history=hist, material=k)
    ctx.outcome((round(float(want[0][0]), 4), round(float(want[1][0]), 3)))


def play(hist, ctx):
    w = World()
    for name in hist:
        ctx.step()
        FN[name](w)
    return w


# ------------------------------------------------ every parameter of every material
PAR = {
    "Cauchy": (lambda v: Cauchy(*v), [1.45, 0.006, 0.0], [0.05, 0.004, 0.0006], lambda m: [m.A, m.B, m.C]),
    "Sellmeier": (lambda v: Sellmeier(*v), [1.1, 0.09, 0.01, 1.2], [0.2, 0.05, 0.03, 0.3], lambda m: [m.Am, m.En, m.P, m.Einf]),
    "Lorentz": (lambda v: Lorentz(v[0:2], v[2:4], v[4:6], v[6]), [4.0, 2.0, 0.3, 0.5, 4.2, 6.0, 2.0], [1.0, 0.7, 0.2, 0.3, 0.3, -0.5, 0.4],
                lambda m: [*m.Am, *m.Br, *m.En, m.Einf]),
    "Gauss": (lambda v: Gauss(v[0:2], v[2:4], v[4:6], v[6]), [2.0, 1.0, 0.6, 1.0, 3.0, 5.0, 2.0], [0.5, 0.7, 0.3, 0.3, 0.3, -0.5, 0.4],
              lambda m: [*m.Am, *m.Br, *m.En, m.Einf]),
    "TaucLorentz": (lambda v: TaucLorentz(v[0:2], v[2:4], v[4:6], v[7], v[6]), [20.0, 8.0, 1.5, 2.0, 4.0, 6.0, 1.4, 1.6],
                    [5.0, 3.0, 0.4, 0.5, 0.3, -0.4, 0.3, 0.2], lambda m: [*m.Am, *m.C, *m.En, m.Einf, m.Eg]),
}
ROLES = ["layer", "solvated", "mixA", "mixB", "solvent", "front", "back", "implicit"]


def par_model(mat, role):
    air, si, fix = nk(1.0), nk(3.9 + 0.1j), nk(1.6)
    L = {
        "layer": [air(), mat(300), si()], "solvated": [air(), mat(300, 0, vfsolv=0.4), si()],
        "mixA": [air(), MixedSlabSE(300, mat, fix, 0.3, 0), si()], "mixB": [air(), MixedSlabSE(300, fix, mat, 0.3, 0), si()],
        "solvent": [air(), fix(300, 0, vfsolv=0.6), si()], "front": [mat(), fix(300), si()], "back": [air(), fix(300), mat()],
        "implicit": [air(), fix(300, 0, vfsolv=0.6), mat()],
    }[role]
    return ReflectModelSE(StructureSE(L, solvent=mat if role == "solvent" else fix if role == "solvated" else None))


def par_case(ctx, kind, role):
    make, base, step, pars = PAR[kind]
    for i in range(len(base)):
        for j in range(len(base)):
            for pts in (SETS, PROBE):
                v = list(base)
                mat = make(v)
                m = par_model(mat, role)
                m(pts)
                for k, c in ((i, 1), (j, 1), (i, -1)):
                    v[k] += c * step[k]
                    pars(mat)[k].value = v[k]
                    got = np.array(m(pts))
                    want = np.array(par_model(make(list(v)), role)(pts))
                    ctx.close(got[0], want[0], "prediction after changing a material parameter", rtol=0, atol=1e-9,
                              kind=kind, role=role, changed=[i, j])
                    ctx.close(ref.circ(got[1], want[1]), 0 * want[1], "prediction after changing a material parameter", rtol=0,
                              atol=1e-8, kind=kind, role=role, changed=[i, j])
                    ctx.step()
                ctx.trace()
                ctx.state((kind, role, i, j, len(pts)))
    # steps of every size
    for i in range(len(base)):
        v = list(base)
        mat = make(v)
        mat.wavelength = 612.0
        m = par_model(mat, role)
        m(SETS)
        for size in (1, 0.1, 1e-2, 1e-3, 1e-4, 1e-5, -1e-5, -1e-3, -1e-2):
            v[i] += size * step[i]
            pars(mat)[i].value = v[i]
            want = np.array(par_model(make(list(v)), role)(SETS))
            got = np.array(m(SETS))
            ctx.close(got[0], want[0], "prediction after a small change of a material parameter", rtol=0, atol=1e-10,
                      kind=kind, role=role, changed=i, size=size)
            ctx.close(ref.circ(got[1], want[1]), 0 * want[1], "prediction after a small change of a material parameter", rtol=0,
                      atol=1e-9, kind=kind, role=role, changed=i, size=size)
            new = make(list(v))
            new.wavelength = 612.0
            ctx.check(mat.wavelength == 612.0 and complex(mat) == complex(new), "evaluation changed a material", kind=kind, role=role)
            ctx.step()
        ctx.trace()
        ctx.state((kind, role, i, "sizes"))
    # two parameters changed between evaluations, one up and one down (sums, products and sets of values survive)
    for i in range(len(base)):
        for j in range(len(base)):
            for mode in ("opposite", "ratio", "exchange"):
                v = list(base)
                d = min(abs(step[i]), abs(step[j])) / 2
                if i == j:
                    continue
                if mode == "opposite":
                    v[i] += d
                    v[j] -= d
                elif mode == "ratio":
                    v[i] *= 1.125
                    v[j] /= 1.125
                elif len(base) >= 7 and i // 2 == j // 2 and i < 6:
                    v[i], v[j] = v[j], v[i]
                else:
                    continue
                mat = make(list(base))
                m = par_model(mat, role)
                want = np.array(par_model(make(list(v)), role)(SETS))
                m(SETS)
                pars(mat)[i].value = v[i]
                pars(mat)[j].value = v[j]
                got = np.array(m(SETS))
                bad = np.isnan(want)
                ctx.check((np.isnan(got) == bad).all() and np.abs(got[0] - want[0])[~bad[0]].max(initial=0) < 1e-9
                          and ref.circ(got[1], want[1])[~bad[1]].max(initial=0) < 1e-8, "prediction after changing two parameters together",
                          got=got, want=want, kind=kind, role=role, changed=[i, j, mode])
                ctx.step(2)
                ctx.trace()
                ctx.state((kind, role, i, j, mode))


def run(case, ctx):
    if case and case[0] == "par":
        return par_case(ctx, *case[1:])
    if case and case[-1] == "*":
        for last in CORE if ctx.tier == "quick" else NAMES:
            hist = case[:-1] + [last]
            verify(play(hist, ctx), ctx, hist)
    else:
        verify(play(case, ctx), ctx, case)
