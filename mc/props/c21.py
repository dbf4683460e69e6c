"""C21: copies and pickles are equal and independent."""
import copy
import itertools
import os
import pathlib
import pickle

import numpy as np
from refnx.analysis import Parameter
from refnx.reflect import Tanh

from mc import ref
from mc.sut import *

ID = "C21"
BOUNDS = {
    "quick": "copy level {objective, model, structure, dataset} x {deepcopy, pickle 2, "
    "pickle 5} x every history of <=1 and (deepcopy; pickle 5 of objectives and datasets) <=2 operations over 23 operations x {original, copy}; "
    "every combination of 3 rules x 4 depolarisation factors x reversal x 3 contractions x 4 wavelengths x 3 solvents x 2 names x 6 copy methods; "
    "480 copies of datasets read from files, refreshed on either side; "
    "shallow copies of structures: every history of <=3 operations over 13 x {original, "
    "copy}; 7 material kinds x 4 copy methods x every parameter change on either side",
    "thorough": "as quick with histories of <=3 (deepcopy, pickle) and <=4 (shallow)",
}
ASSUMPTIONS = [
    "oracle: one plain record per object, copied when the object is copied; each object is compared with one "
    "freshly built from its record after every history",
]
BLOCK = 4

PTS = np.array([(450.0, 60.0), (658.0, 70.0), (900.0, 55.0)])
ROWS = np.array([(450.0, 60.0, 31.0, 155.0), (658.0, 70.0, 12.5, 300.5), (220.0, 60.0, 44.0, 20.0), (180.0, 50.0, 24.0, 90.0)])


def record():
    return dict(
        t=14.0, A=1.47, B=0.004, lo=[4.0, 0.3, 4.2, 2.0], vf=0.3, vfB=0.25, tmix=10.0, rough=1.0,
        con=True, tcon=None, solv="c2", A2=1.33, ema="linear", L=1 / 3, rev=False, contract=0,
        extra=0, iface=False, off=3.0, lns=None, rows=ROWS.tolist(), mask=[True] * 4, refl=False, vary=True,
        hi=500.0,
    )


def build(r):
    """
    air | c1 (t, vf) | mix(c1, lo) | c1 again, same thickness parameter | [extra] | lo (backing)
    layer 4: thickness constrained to half of the mixed slab's
    """
    c1 = Cauchy(r["A"], r["B"], name="c1")
    lo = Lorentz(*[r["lo"][0], r["lo"][1], r["lo"][2]], Einf=r["lo"][3], name="lo")
    c2 = Cauchy(r["A2"], name="c2")
    t = Parameter(r["t"], name="shared t", vary=r["vary"], bounds=(0, r["hi"]))
    l1 = c1(t, r["rough"], vfsolv=r["vf"])
    l2 = MixedSlabSE(r["tmix"], c1, lo, r["vfB"], r["rough"], name="mix")
    l3 = c1(t, 0, vfsolv=0)
    l4 = nk(1.9 + 0.1j)(r["tmix"] * 0.5 if r["tcon"] is None else r["tcon"], 0)
    if r["con"]:
        l4.thick.constraint = l2.thick * 0.5
    if r["iface"]:
        l1.interfaces = Tanh()
    comps = [nk(1.0)(), l1, l2, l3, l4] + [nk(2.2)(6.0, 0) for _ in range(r["extra"])] + [lo(0, 0)]
    s = StructureSE(comps, name="sample", ema=r["ema"], depolarisation_factor=r["L"], reverse_structure=r["rev"])
    s.contract = r["contract"]
    s.solvent = {None: None, "c2": c2, "c1": c1}[r["solv"]]
    m = ReflectModelSE(s, delta_offset=r["off"], name="model")
    rows = np.array(r["rows"])
    d = DataSE(tuple(rows.T), name="data", reflect_delta=r["refl"], note=[1, 2])
    d.mask = np.array(r["mask"])
    o = ObjectiveSE(m, d, lnsigma=None if r["lns"] is None else r["lns"], name="objective")
    c1.A.setp(vary=True, bounds=(1.2, 1.9))
    return o


class Side:
    def __init__(self, o, r):
        self.o, self.r = o, r

    @property
    def s(self):
        return self.o.model.structure


def op_t(w):
    w.s[1].thick.value = w.r["t"] = 9.0 + w.r["t"] / 2


def op_A(w):
    w.s[3].ri.A.value = w.r["A"] = 1.5 + w.r["A"] / 10


def op_lo(w):
    w.s[2].ri_B.Am[0].value = w.r["lo"][0] = w.r["lo"][0] + 3.0


def op_vf(w):
    w.s[1].vfsolv.value = w.r["vf"] = round(0.7 - w.r["vf"] / 2, 6)


def op_mix(w):
    w.s[2].vf_B.value = w.r["vfB"] = 0.6
    w.s[2].thick.value = w.r["tmix"] = w.r["tmix"] + 3.0


def op_uncon(w):
    if w.r["con"]:
        w.r["tcon"] = w.r["tmix"] * 0.5
        w.s[4].thick.constraint = None
        w.r["con"] = False


def op_solv_par(w):
    if w.r["solv"] == "c2":
        w.s.solvent.A.value = w.r["A2"] = w.r["A2"] + 0.05


def op_solv_none(w):
    w.s.solvent = None
    w.r["solv"] = None


def op_solv_layer(w):
    w.s.solvent = w.s[1].ri
    w.r["solv"] = "c1"


def op_ema(w):
    w.s.ema = w.r["ema"] = "bruggeman"
    w.s.depolarisation_factor = w.r["L"] = 0.6


def op_rev(w):
    w.s.reverse_structure = not w.s.reverse_structure
    w.r["rev"] = not w.r["rev"]


def op_insert(w):
    w.s.insert(5, nk(2.2)(6.0, 0))
    w.r["extra"] += 1


def op_iface(w):
    w.s[1].interfaces = Tanh()
    w.r["iface"] = True


def op_off(w):
    w.o.model.delta_offset.value = w.r["off"] = w.r["off"] + 40.0


def op_mask(w):
    w.r["mask"] = [True, False, True, False]
    w.o.data.mask = w.r["mask"]


def op_maskbit(w):
    # in place, through the array the dataset hands out
    m = np.array(w.o.data.mask)
    m[0] = False
    w.o.data.mask = m
    w.r["mask"] = [False] + list(w.r["mask"])[1:]


def op_data(w):
    r = np.array(w.r["rows"])[::-1] * [1, 1, 0.9, 0.8]
    w.o.data.data = tuple(r.T)
    if not w.r["refl"]:
        w.r["rows"] = r.tolist()
    else:
        w.r["rows"] = r.tolist()
    w.r["mask"] = [True] * 4


def op_setp(w):
    n = len(w.o.varying_parameters())
    if w.r["vary"]:
        w.o.setp([11.0, 1.58])
        w.r["t"], w.r["A"] = 11.0, 1.58
        assert n == 2, n
    else:
        w.o.setp([1.58])
        w.r["A"] = 1.58
        assert n == 1, n


def op_fix(w):
    w.s[1].thick.vary = w.r["vary"] = False


def op_bounds(w):
    w.s[3].thick.setp(bounds=(0, 50.0))
    w.r["hi"] = 50.0


def op_eval(w):
    w.o.model(PTS)
    w.o.chisqr()
    w.o.logpost()


def op_meta(w):
    w.o.data.metadata["note"].append(3)
    w.o.data.name = "renamed"
    w.o.model.name = "renamed"
    w.s.name = "renamed"


def op_profile(w):
    w.s.ri_profile()
    repr(w.o), str(w.o)


OPS = [
    ("thick", op_t), ("A", op_A), ("eval", op_eval), ("mix", op_mix), ("vf", op_vf), ("insert", op_insert), ("ema", op_ema),
    ("rev", op_rev), ("mask", op_mask), ("data", op_data), ("setp", op_setp), ("off", op_off), ("solv_par", op_solv_par),
    ("solv_none", op_solv_none), ("solv_layer", op_solv_layer), ("lo", op_lo), ("uncon", op_uncon), ("iface", op_iface),
    ("fix", op_fix), ("bounds", op_bounds), ("maskbit", op_maskbit), ("meta", op_meta), ("profile", op_profile),
]
FN = dict(OPS)


def view(o):
    s = o.model.structure
    p, d = o.model(PTS)
    wav = s.wavelength
    tab = s.slabs(wavelength=600.0)
    s.wavelength = wav
    return dict(
        psi=p, delta=d, slabs=tab, residuals=o.residuals(), chisqr=[o.chisqr()], logp=[o.logp()], logl=[o.logl()],
        varying=[float(x) for x in o.varying_parameters()], values=[float(x) for x in o.parameters.flattened()],
        data=np.array(o.data.data), mask=np.array(o.data.mask, float), n=[len(o.data)],
    )


def names(o):
    return [p.name for p in o.parameters.flattened()]


_FRESH = {}  # record -> what a freshly built objective shows


def verify(ctx, w, which, hist):
    key = repr(w.r)
    if key not in _FRESH:
        _FRESH[key] = view(build(w.r))
    want = _FRESH[key]
    got = view(w.o)
    for k in want:
        a, b = np.asarray(got[k], float), np.asarray(want[k], float)
        ok = a.shape == b.shape
        if ok:
            d = np.abs(a - b)
            if k == "delta":
                d = np.abs((a - b + 180) % 360 - 180)
            ok = bool(np.all((d <= 1e-7 * (1 + np.abs(b))) | (a == b)))
        ctx.check(ok, f"{which}: {k}", history=hist, got=a, want=b)
    s = w.s
    ctx.check(s[1].thick is s[3].thick, f"{which}: shared parameter no longer shared", history=hist)
    ctx.check(s[1].ri is s[3].ri and s[2].ri_A is s[1].ri, f"{which}: shared material no longer shared", history=hist)
    ctx.check((s[4].thick.constraint is not None) == w.r["con"], f"{which}: constraint", history=hist)
    ctx.check(s[-1].ri is s[2].ri_B, f"{which}: shared backing material", history=hist)
    ctx.trace()
    ctx.state((which, repr(w.r)))
    ctx.outcome(round(float(got["chisqr"][0]), 3))


def dup(x, how):
    if how == "deepcopy":
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, protocol=int(how[-1])))


def params_of(o):
    return {id(p) for p in o.parameters.flattened()}


def make_copy(o, level, how, r):
    """the copied side; parts that are not copied are rebuilt from the record"""
    if level == "objective":
        o2 = dup(o, how)
        assert o2.name == o.name and o2.data.name == o.data.name and o2.model.name == o.model.name
        return o2
    if level == "model":
        return ObjectiveSE(dup(o.model, how), build(r).data, lnsigma=r["lns"], name="objective")
    if level == "structure":
        m = ReflectModelSE(dup(o.model.structure, how), delta_offset=r["off"], name="model")
        return ObjectiveSE(m, build(r).data, lnsigma=r["lns"], name="objective")
    return ObjectiveSE(build(r).model, dup(o.data, how), lnsigma=r["lns"], name="objective")


SHALLOW = [
    "layer_t", "layer_A", "insert", "pop", "swap", "ema", "L", "L0", "rev", "solv", "solvnone", "contract", "wavelength", "iface",
]
LEVELS = ["objective", "model", "structure", "dataset"]
HOW = ["deepcopy", "pickle2", "pickle5"]
DATAOPS = ["mask", "maskbit", "data", "eval", "meta"]


def cases(tier):
    q = tier == "quick"
    for ema, L, rev in itertools.product(("linear", "bruggeman", "maxwell-garnett"), (0.0, 1 / 3, 0.7, 1.0), (False, True)):
        yield ["settings", ema, L, rev]
    yield ["files"]
    for mat in MATS:
        yield ["material", mat]
    acts = [(n, side) for n in FN for side in (0, 1)]
    depth = 2 if q else 3
    for pre in (None, "refl", "lns", "rev", "iface"):
        for level in LEVELS:
            for how in HOW:
                yield ["deep", pre, level, how, []]
                if pre is not None and (q and how == "pickle2"):
                    continue
                for a in acts:
                    if level == "dataset" and a[0] not in DATAOPS:
                        continue
                    yield ["deep", pre, level, how, [list(a)]]
    for level in LEVELS:
        for how in ("deepcopy", "pickle5") if q else HOW:
            if q and how == "pickle5" and level in ("model", "structure"):
                continue
            for k in range(1, depth):
                for seq in itertools.product(acts, repeat=k):
                    if level == "dataset" and any(a[0] not in DATAOPS for a in seq):
                        continue
                    yield ["deep*", None, level, how, [list(a) for a in seq]]
    sacts = [(n, side) for n in SHALLOW for side in (0, 1)]
    for k in range(0, 3 if q else 4):
        for seq in itertools.product(sacts, repeat=k):
            yield ["shallow", [list(a) for a in seq]]


def run(case, ctx):
    if case[0] == "material":
        return run_material(ctx, case[1])
    if case[0] == "files":
        return run_files(ctx)
    if case[0] == "settings":
        return run_settings(ctx, *case[1:])
    if case[0] == "shallow":
        # every continuation by one more operation
        run_shallow(ctx, case[1])
        for n in SHALLOW:
            for side in (0, 1):
                run_shallow(ctx, case[1] + [[n, side]])
        return
    kind, pre, level, how, hist = case
    if kind == "deep":
        return run_deep(ctx, pre, level, how, hist)
    for n in FN:
        for side in (0, 1):
            if level == "dataset" and n not in DATAOPS:
                continue
            run_deep(ctx, pre, level, how, hist + [[n, side]])


def run_deep(ctx, pre, level, how, hist):
    r = record()
    if pre == "refl":
        r["refl"] = True
    elif pre == "lns":
        r["lns"] = -2.0
    elif pre == "rev":
        r["rev"] = True
        r["ema"] = "maxwell-garnett"
    elif pre == "iface":
        r["iface"] = True
        r["mask"] = [True, True, False, True]
        r["contract"] = 1.5
    a = Side(build(r), r)
    if pre is not None:
        op_eval(a)
    a.s.wavelength = {None: 512.0, "refl": 333.0}.get(pre, a.s.wavelength)
    wav0, tab0 = a.s.wavelength, a.s.slabs()
    b = Side(make_copy(a.o, level, how, r), copy.deepcopy(r))
    sides = [a, b]
    full = [pre, level, how] + hist
    if level != "dataset":
        ctx.check(b.s.wavelength == wav0 and a.s.wavelength == wav0, "wavelength of the copy", got=b.s.wavelength, want=wav0, history=full)
        for i in (1, 0):
            ctx.close(sides[i].s.slabs(), tab0, "slab table of the copy", rtol=1e-12, atol=0, side=i, history=full)
        ctx.check(b.s.contract == r["contract"] and b.s.name == a.s.name, "settings of the copy", history=full)
    ctx.check(not (params_of(a.o) & params_of(b.o)), "copy shares parameter objects", history=full)
    if level == "objective":
        ctx.equal(names(b.o), names(a.o), "parameter names", history=full)
        ctx.check(b.o.data is not a.o.data and b.o.model is not a.o.model and b.s is not a.s, "copy shares objects", history=full)
    for n, side in hist:
        if n == "data" and sides[side].r["refl"]:
            return ctx.skip()  # assigned data has no reflection of its own
        FN[n](sides[side])
        ctx.step()
    if level in ("objective", "dataset"):
        metas = [n for n in hist if n[0] == "meta"]
        for i, w in enumerate(sides):
            k = sum(1 for m in metas if m[1] == i)
            ctx.equal(list(w.o.data.metadata["note"]), [1, 2] + [3] * k, "metadata", history=full, side=i)
            ctx.equal(w.o.data.name, "renamed" if k else "data", "dataset name", history=full, side=i)
    for w, which in zip(sides, ("original", "copy")):
        verify(ctx, w, which, full)


# -------------------------------------------------- every setting, every method
def run_settings(ctx, ema, L, rev):
    for contract, wav, solv, name in itertools.product((0, 0.5, 3.0), (None, 0.5e3, 658.0, 721), (None, "c2", "c1"), ("", "sample")):
        r = dict(record(), ema=ema, L=L, rev=rev, contract=contract, solv=solv)
        s = build(r).model.structure
        s.name = name
        s.wavelength = wav
        tab = s.slabs()
        for how in ("copy", "copy twice", "deepcopy", "pickle2", "pickle5", "copy of deepcopy"):
            d = dict(ema=ema, L=L, reversed=rev, contract=contract, wavelength=wav, solvent=solv, name=name, how=how)
            c = copy.copy(s) if how.startswith("copy") else dup(s, how)
            if how == "copy twice":
                c = copy.copy(c)
            elif how == "copy of deepcopy":
                c = copy.copy(dup(s, "deepcopy"))
            ctx.check((c.ema, c.depolarisation_factor, c.reverse_structure, c.contract, c.wavelength, c.name) == (ema, L, rev, contract, wav, name),
                      "settings of a copy", got=[c.ema, c.depolarisation_factor, c.reverse_structure, c.contract, c.wavelength, c.name], **d)
            ctx.close(c.slabs(), tab, "slab table of a copy", rtol=1e-12, atol=0, **d)
            ctx.step()
            ctx.state(("settings", ema, L, rev, contract, wav, solv, name, how))
        ctx.trace()


# ------------------------------------------------------- datasets read from files
def run_files(ctx):
    """a copy of a dataset read from a file can be refreshed, like the original and independently of it"""
    def write(p, rows, sep):
        with open(p, "w") as f:
            f.write("w a p d\n" + "".join(sep.join(repr(float(x)) for x in r) + "\n" for r in rows))

    for sep, refl, path, how, masked, first in itertools.product(
        ("\t", ",", ";", " "), (False, True), (str, pathlib.Path), HOW + ["DataSE", "twice"], (False, True), ("copy", "original", "both")
    ):
        p = os.path.join(ctx.tmpdir(), "table.txt")
        write(p, ROWS, sep)
        a = DataSE(path(p), delimiter=sep, reflect_delta=refl, name="n")
        if masked:
            a.mask = [True, False, True, True]
        b = DataSE(a) if how == "DataSE" else dup(dup(a, "pickle5"), "deepcopy") if how == "twice" else dup(a, how)
        new = np.r_[ROWS[::-1] * [1.01, 1, 0.9, 0.8], ROWS[:1]]
        write(p, new, sep)
        conv = lambda r: np.c_[r[:, :3], ref.reflect(r[:, 3]) if refl else r[:, 3]]
        old = conv(ROWS)
        d = dict(delimiter=sep, reflected=refl, how=how, masked=masked, refreshed=first)
        want = [old[[0, 2, 3]] if masked else old] * 2
        if how == "DataSE":
            want[1] = old
        for i, ds in enumerate((a, b)):
            if first == "both" or (first == "original") == (i == 0):
                ds.refresh()
                want[i] = conv(new)
        for i, ds in enumerate((a, b)):
            got = np.array([np.asarray(x) for x in ds.data]).T
            ctx.check(got.shape == want[i].shape and bool(np.all(got == want[i])), "dataset read from a file, after a refresh", got=got, want=want[i], side=i, **d)
            ctx.check(str(ds.filename) == p and ds.name == "n", "file name of a copied dataset", got=str(ds.filename), side=i, **d)
        ctx.step()
        ctx.trace()
        ctx.state(("files", sep, refl, path.__name__, how, masked, first))


# --------------------------------------------------------------- shallow copies
def run_shallow(ctx, hist):
    r = record()
    o = build(r)
    s = o.model.structure
    s.ema, s.depolarisation_factor, s.reverse_structure, s.contract, s.wavelength = "maxwell-garnett", 0.2, True, 0, 512.0
    c = copy.copy(s)
    first = s[1]
    # reference: layers shared (by index in one pool), settings and order separate
    pool = dict(t=r["t"], A=r["A"], iface=False)
    sets = [dict(order=list(range(6)), ema="maxwell-garnett", L=0.2, rev=True, contract=0, wav=512.0, solv="c2") for _ in (0, 1)]
    live = [s, c]
    for n, i in hist:
        ctx.step()
        x, q = live[i], sets[i]
        if n == "layer_t":
            first.thick.value = pool["t"] = pool["t"] + 3.0
        elif n == "layer_A":
            first.ri.A.value = pool["A"] = pool["A"] + 0.02
        elif n == "iface":
            first.interfaces = Tanh()
            pool["iface"] = True
        elif n == "insert":
            x.insert(1, nk(2.2)(6.0, 0))
            q["order"].insert(1, "x")
        elif n == "pop":
            if len(x) > 2:
                x.pop(1)
                q["order"].pop(1)
        elif n == "swap":
            x[1], x[-2] = x[-2], x[1]
            o_ = q["order"]
            o_[1], o_[-2] = o_[-2], o_[1]
        elif n == "ema":
            x.ema = q["ema"] = "linear"
        elif n == "L":
            x.depolarisation_factor = q["L"] = 0.9
        elif n == "L0":
            x.depolarisation_factor = q["L"] = 0.0
        elif n == "rev":
            x.reverse_structure = q["rev"] = not q["rev"]
        elif n == "solv":
            x.solvent = nk(1.36)
            q["solv"] = "nk"
        elif n == "solvnone":
            x.solvent = None
            q["solv"] = None
        elif n == "contract":
            x.contract = q["contract"] = 2.0
        elif n == "wavelength":
            x.wavelength = q["wav"] = 700.0
    d = dict(history=hist)
    for i in (0, 1):
        q = sets[i]
        rr = dict(r, t=pool["t"], A=pool["A"], iface=pool["iface"], ema=q["ema"], L=q["L"], rev=q["rev"])
        ref_o = build(rr)
        rs = ref_o.model.structure
        layers = list(rs)
        comps = [nk(2.2)(6.0, 0) if k == "x" else layers[k] for k in q["order"]]
        w = StructureSE(comps, ema=q["ema"], depolarisation_factor=q["L"], reverse_structure=q["rev"], wavelength=q["wav"])
        w.contract = q["contract"]
        w.solvent = {None: None, "c2": rs.solvent, "nk": nk(1.36)}[q["solv"]]
        x = live[i]
        ctx.equal(len(x), len(comps), "number of layers", side=i, **d)
        ctx.check(type(x) is StructureSE and x.name == "sample", "kind and name", side=i, **d)
        ctx.check(
            x.ema == q["ema"] and x.depolarisation_factor == q["L"] and x.reverse_structure == q["rev"]
            and x.contract == q["contract"] and x.wavelength == q["wav"], "settings", side=i, **d,
        )
        try:
            want = w.slabs()
        except ValueError:
            ctx.raises(x.slabs, "no mixed slab at an end", side=i, **d)
            continue
        ctx.close(x.slabs(), want, "slab table", rtol=1e-9, atol=1e-12, side=i, **d)
        p, de = ReflectModelSE(copy.copy(x))(PTS)
        p2, de2 = ReflectModelSE(w)(PTS)
        ctx.close(p, p2, "Psi", rtol=1e-8, atol=1e-8, side=i, **d)
        ctx.close(de, de2, "Delta", rtol=1e-7, atol=1e-7, side=i, **d)
        ctx.equal(x.wavelength, q["wav"], "evaluating a shallow copy changed the wavelength of the original", side=i, **d)
    common = [l for l in s if any(l is k for k in c)]
    ctx.check(len(common) >= (6 - len([h for h in hist if h[0] in ("pop",)])), "layers are shared by identity", **d)
    ctx.check(s.data is not c.data, "layer list shared", **d)
    ctx.trace()
    ctx.state(repr((pool, sets)))


# ------------------------------------------------------------------- materials
def _mat(kind):
    return {
        "RI": lambda: RI((1.5, 0.1), name="m"),
        "table": lambda: RI((np.array([0.4, 0.6, 0.9]), np.array([3.4, 3.7, 3.5]), np.array([0.3, 0.1, 0.0])), wavelength=500, name="m"),
        "file": lambda: load_material("silica"),
        "cauchy": lambda: Cauchy(1.4, 0.01, 0.001, wavelength=500, name="m"),
        "sellmeier": lambda: Sellmeier(1.1, 0.09, 0.01, wavelength=500, name="m"),
        "lorentz": lambda: Lorentz([4.0, 1.0], [0.3, 0.5], [4.2, 6.0], Einf=2.0, wavelength=500, name="m"),
        "gauss": lambda: Gauss([4.0, 1.0], [0.3, 0.5], [4.2, 6.0], Einf=2.0, wavelength=500, name="m"),
        "tauc": lambda: TaucLorentz([60.0, 20.0], [1.5, 2.5], [4.2, 6.0], 1.7, Einf=1.5, wavelength=500, name="m"),
    }[kind]()


MATS = ["RI", "table", "file", "cauchy", "sellmeier", "lorentz", "gauss", "tauc"]
WAV = np.array([300.0, 450.0, 658.0, 900.0])


def index(m):
    return np.array([complex(np.squeeze(m.complex(w))) for w in WAV] + [complex(m)])


def run_material(ctx, kind):
    base = index(_mat(kind))
    n = len(list(_mat(kind).parameters.flattened()))
    for how in HOW + ["pickle4"]:
        for i in range(-1, n):
            for side in (0, 1):
                for order in ("before", "after"):
                    a = _mat(kind)
                    if order == "before" and i >= 0:
                        p = list(a.parameters.flattened())[i]
                        p.value = p.value * 1.1 + 0.001
                        base_now = index(a)
                        b = dup(a, how)
                        ctx.close(index(b), base_now, "copied material", rtol=1e-12, atol=0, kind=kind, how=how, par=i)
                        continue
                    b = dup(a, how)
                    d = dict(kind=kind, how=how, par=i, side=side)
                    ctx.close(index(b), base, "copied material", rtol=1e-12, atol=0, **d)
                    ctx.equal(b.name, a.name, "name", **d)
                    ctx.equal([float(p) for p in b.parameters.flattened()], [float(p) for p in a.parameters.flattened()], "parameters", **d)
                    pair = [a, b]
                    if i >= 0:
                        p = list(pair[side].parameters.flattened())[i]
                        p.value = p.value * 1.1 + 0.001
                        f = _mat(kind)
                        p = list(f.parameters.flattened())[i]
                        p.value = p.value * 1.1 + 0.001
                        ctx.close(index(pair[side]), index(f), "changed side", rtol=1e-12, atol=0, **d)
                        ctx.close(index(pair[1 - side]), base, "other side changed", rtol=1e-12, atol=0, **d)
                    pair[side].wavelength = 777.0
                    ctx.close(index(pair[1 - side]), base, "other side changed by a wavelength", rtol=1e-12, atol=0, **d)
                    ctx.step(2)
                    ctx.trace()
                    ctx.state((kind, how, i, side))
