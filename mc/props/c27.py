"""C27: malformed input is refused and leaves everything as it was."""
import itertools
import os

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from refellips.dataSE import open_EP4file, open_FilmSenseFile, open_HORIBAfile, open_M2000file

from mc import ref
from mc.samples import *
from mc.sut import *

ID = "C27"
BOUNDS = {
    "quick": "every refused call of an alphabet of ~120 (each documented kind of malformed input x 2..6 wrong values x "
    "every way of passing it) on 2 samples, every ordered pair of them and every (valid edit, refused call) and "
    "(refused call, valid edit) history; state, residuals and prediction compared after each",
    "thorough": "as quick on 4 samples with every (refused, edit, refused) history",
}
ASSUMPTIONS = ["refused = any exception", "mixing rules are checked at the first evaluation that mixes"]
BLOCK = 4
PTS = np.array([(450.0, 60.0), (658.0, 71.0)])
JUNK = [3, None, "SiO2", 1.5 + 0.1j, [1], np.array([1.0, 2.0]), object]


class World:
    def __init__(self, kind, ctx):
        self.s = s = Sample(kind, vary=("t1", "A"))
        self.rows = np.array(ROWS, float)
        self.mask = np.array([1, 1, 0, 1, 1, 1, 0, 1], bool)
        self.d = DataSE(self.rows.T.copy())
        self.d.mask = self.mask
        self.o = ObjectiveSE(s.model, self.d)
        self.st, self.m = s.structure, s.model
        self.tmp = ctx.tmpdir()
        self.f = None
        if os.path.isdir(self.tmp):
            self.good = "# a\tb\tc\td\n" + "\n".join("\t".join(map(repr, map(float, r))) for r in self.rows[:5]) + "\n"
            self.f = DataSE(fwrite(self, "kept.txt", self.good), reflect_delta=True)
            self.f.mask = [True, False, True, True, False]

    def snap(self):
        st = self.st
        return dict(
            comps=[id(c) for c in st], solvent=id(st.solvent), ema=st.ema, dp=st.depolarisation_factor,
            rev=st.reverse_structure, contract=st.contract, struct=id(self.m.structure),
            pars=[(id(p), float(p), bool(p.vary)) for p in self.o.parameters.flattened()],
            mats=[id(c.ri) for c in st], mask=np.array(self.d.mask).tolist(), data=np.array(self.d.data).T.tolist(),
            model=id(self.o.model), dat=id(self.o.data),
            file=self.f and [np.array(DataSE(self.f).data).tolist(), np.array(self.f.mask).tolist(), str(self.f.filename)],
            dataset=np.array(DataSE(self.d).data).tolist(),
        )

    def verify(self, ctx, **d):
        live = self.rows[self.mask]
        ctx.close(self.o.residuals(), resid(self.s, live), "residuals after a refused call", rtol=1e-8, atol=1e-6, **d)
        psi, delta = self.m(PTS)
        wp, wd = self.s.predict(PTS[:, 0], PTS[:, 1])
        ctx.close(psi, wp, "prediction after a refused call", rtol=0, atol=1e-6, **d)
        ctx.close(ref.circ(delta, wd), 0 * wd, "prediction after a refused call", rtol=0, atol=1e-6, **d)


def fwrite(w, name, text):
    p = os.path.join(w.tmp, name)
    with open(p, "w") as f:
        f.write(text)
    return p


JUNKFILES = {
    "empty.txt": "", "words.txt": "this is not\na data file\nat all\n",
    "m2000ish.dat": "VASEmethod[EllipsometerType=4]\nOriginal[foo.dat]\nnm\n",
    "fs.txt": "Film_Sense_Other\nx\n1 2 3\n",
}


BADTABLES = {
    "empty": "", "words": "no\ndata\n", "three": "a\tb\tc\n1.0\t2.0\t3.0\n4.0\t5.0\t6.0\n", "five": "1\t2\t3\t4\t5\n" * 3,
    "one": "1.0\n2.0\n", "ragged": "450\t60\t20\t30\n460\t60\t21\n", "stray": "450\t60\t20\t30\n460\t60\tx\t31\n470\t60\t22\t32\n",
    "comma": "450,60,20,30\n460,60,21,31\n",
}


def refresh_bad(w, text):
    """the file has gone, or has been overwritten by something else"""
    p = str(w.f.filename)
    try:
        if text is None:
            os.remove(p)
        else:
            with open(p, "w") as f:
                f.write(text)
        w.f.refresh()
    finally:
        with open(p, "w") as f:
            f.write(w.good)


def setters(w):
    """name -> callable that must raise (all on existing objects)"""
    st, m, o, s, d = w.st, w.m, w.o, w.s, w.d
    nvar, ntot = 2, len(o.parameters.flattened())
    mixing = s.v["vf"] > 0
    out = {}

    def add(name, f):
        out[name] = f

    for j, x in enumerate(JUNK):
        add(f"append{j}", lambda x=x: st.append(x))
        add(f"ior{j}", lambda x=x: st.__ior__(x))
        if not isinstance(x, np.ndarray):
            # (numpy handles | itself)
            add(f"or{j}", lambda x=x: st | x)
            add(f"layer-or{j}", lambda x=x: s.l1 | x)
        if x is not None:
            add(f"solvent{j}", lambda x=x: setattr(st, "solvent", x))
        add(f"model-structure{j}", lambda x=x: setattr(m, "structure", x))
        add(f"new-model{j}", lambda x=x: ReflectModelSE(x))
        add(f"new-slab{j}", lambda x=x: SlabSE(10, x, 0))
        add(f"new-mixed{j}", lambda x=x: MixedSlabSE(10, s.mat, x, 0.5, 0))
        add(f"new-mixed-a{j}", lambda x=x: MixedSlabSE(10, x, s.mat, 0.5, 0))
        add(f"insert{j}", lambda x=x: st.insert(1, x))
        add(f"assign{j}", lambda x=x: st.__setitem__(1, x))
        if x is not None:
            add(f"new-structure{j}", lambda x=x: StructureSE([s.l1], solvent=x))
    # sequences whose first entries would be fine
    for j, tail in enumerate((3, None, "x")):
        add(f"ior-list{j}", lambda t=tail: st.__ior__([s.l1, t]))
        add(f"ior-tuple{j}", lambda t=tail: st.__ior__((s.l1, s.l2, t)))
        add(f"or-list{j}", lambda t=tail: st | [s.l1, t])
        add(f"ior-long{j}", lambda t=tail: st.__ior__([s.l1, s.l2, s.l1, s.l2, s.mat, t]))
        add(f"or-long{j}", lambda t=tail: st | (s.l1, s.l2, s.l1, s.l2, t))
        add(f"extend-long{j}", lambda t=tail: st.extend([s.l1, s.mat] * 8 + [t]))
        add(f"extend-first{j}", lambda t=tail: st.extend([t] + [s.l1] * 5))
        add(f"append-list{j}", lambda t=tail: st.append([s.l1, t]))
        add(f"extend-list{j}", lambda t=tail: st.extend([s.l1, t]))
        add(f"extend-gen{j}", lambda t=tail: st.extend(x for x in (s.l1, s.mat, t)))
        add(f"assign-slice{j}", lambda t=tail: st.__setitem__(slice(1, 2), [s.l1, t]))
    add("model-layer", lambda: setattr(m, "structure", s.l1))
    add("model-list", lambda: setattr(m, "structure", [s.l1, s.l2]))
    add("solvent-layer", lambda: setattr(st, "solvent", s.l1))
    add("slab-of-slab", lambda: SlabSE(10, s.l1, 0))
    add("mixed-of-slab", lambda: MixedSlabSE(10, s.mat, s.l1, 0.5, 0))
    add("mixed-of-slab-a", lambda: MixedSlabSE(10, s.l1, s.mat, 0.5, 0))
    add("slab-of-structure", lambda: SlabSE(10, st, 0))
    add("mixed-of-structure", lambda: MixedSlabSE(10, st, s.mat, 0.5, 0))
    # tables that are not four columns of the same shape
    c = w.rows.T.copy()
    for j, bad in enumerate([(), (c[0],), tuple(c[:3]), (c[0], c[1], c[2], c[3][:-1]), (c[0][:2], c[1], c[2], c[3]),
                             (c[0], 60.0, c[2], c[3]), (c[0], c[1], c[2], "abc"), (c[0], c[1], [None] * 8, ["x"] * 8),
                             (c[0], c[1][:1], c[2][:1], c[3])]):
        add(f"assign-data{j}", lambda b=bad: setattr(d, "data", b))
        add(f"assign-data-file{j}", lambda b=bad: setattr(w.f, "data", b))
        add(f"new-data{j}", lambda b=bad: DataSE(b))
        add(f"new-data-list{j}", lambda b=bad: DataSE(list(b)))
    add("repeat-x", lambda: s.l1 * "x")
    for v in (-0.01, 1.0001, 2, -5, float("nan"), float("inf"), "x", None, [0.2, 0.3]):
        add(f"depol{v}", lambda v=v: setattr(st, "depolarisation_factor", v))
        add(f"new-depol{v}", lambda v=v: StructureSE([s.l1], depolarisation_factor=v))
    for name in ("gold2", "", "sio2.csv", None, 5):
        add(f"material{name}", lambda n=name: load_material(n))
    for j, bad in enumerate([None, 5.5, (1.0, 2.0, 3.0, 4.0), (1.0,), "no/such/file.csv"]):
        add(f"ri{j}", lambda b=bad: RI(b))
    for cls in (Lorentz, Gauss):
        for j, a in enumerate([([1.0, 2.0], 0.5, 3.0), (1.0, [0.5, 0.6], 3.0), (1.0, 0.5, [3.0, 4.0]), ([1.0, 2.0], [0.5], [3.0, 4.0])]):
            add(f"{cls.__name__}{j}", lambda c=cls, a=a: c(*a))
    for j, a in enumerate([([1.0, 2.0], 0.5, 3.0), (1.0, [0.5, 0.6], 3.0), (1.0, 0.5, [3.0, 4.0])]):
        add(f"TaucLorentz{j}", lambda a=a: TaucLorentz(a[0], a[1], a[2], 1.0))
    good = np.array([s.v["t1"] + 5, s.v["A"]])
    for n in (0, 1, nvar + 1, ntot - 1, ntot + 1, 3 * ntot):
        vec = np.resize(good, n)
        add(f"setp{n}", lambda v=vec: o.setp(v))
        add(f"residuals{n}", lambda v=vec: o.residuals(v))
        add(f"chisqr{n}", lambda v=vec: o.chisqr(v))
        add(f"logp{n}", lambda v=vec: o.logp(v))
        add(f"logl{n}", lambda v=vec: o.logl(v))
        add(f"logpost{n}", lambda v=list(vec): o.logpost(v))
        add(f"model-p{n}", lambda v=vec: m(PTS, p=v))
        if n != len(st.parameters.flattened()):
            add(f"structure-plot{n}", lambda v=vec: st.plot(pvals=v))
    for a in (5, 16, 31, 32, 63, 64, 65, 66, 100, 127, 128, 129, 256, 1000, 2**31, 2**40, -6, -8, -64, -65, -128, -1000, -(2**31)):
        add(f"align{a}", lambda a=a: st.ri_profile(align=a))
    for a in (3, 4, 17, -5, -17):
        add(f"align{a}", lambda a=a: st.ri_profile(align=a))
        add(f"plot-align{a}", lambda a=a: st.plot(align=a))
    for fname, text in JUNKFILES.items():
        add(f"m2000 {fname}", lambda f=fname, t=text: open_M2000file(fwrite(w, f, t)) if f != "m2000ish.dat" else open_FilmSenseFile(fwrite(w, f, t)))
        add(f"filmsense {fname}", lambda f=fname, t=text: open_FilmSenseFile(fwrite(w, f, t)))
        add(f"horiba {fname}", lambda f=fname, t=text: open_HORIBAfile(fwrite(w, f, t)))
        add(f"ep4 {fname}", lambda f=fname, t=text: open_EP4file(fwrite(w, f, t)))
        add(f"data {fname}", lambda f=fname, t=text: DataSE(fwrite(w, f, t)))
    add("no file", lambda: DataSE(os.path.join(w.tmp, "missing.txt")))
    for fname, text in BADTABLES.items():
        add(f"load {fname}", lambda f=fname, t=text: d.load(fwrite(w, f, t)))
        add(f"load-reflected {fname}", lambda f=fname, t=text: w.f.load(fwrite(w, f, t)))
        add(f"refresh {fname}", lambda f=fname, t=text: refresh_bad(w, t))
    add("load missing", lambda: d.load(os.path.join(w.tmp, "missing.txt")))
    add("refresh missing", lambda: refresh_bad(w, None))
    for n in (0, 3, 7, 9):
        add(f"mask{n}", lambda n=n: setattr(d, "mask", np.ones(n, bool)))
    # the first evaluation that mixes
    if mixing:
        for rule in ("bogus", "Linear", "", None, "maxwell"):
            for name, f in (("slabs", lambda: st.slabs()), ("call", lambda: m(PTS)), ("residuals", lambda: o.residuals()),
                            ("profile", lambda: st.ri_profile())):
                add(f"ema {rule} {name}", lambda r=rule, f=f: with_rule(st, r, f))
    for rule in ("bogus", "LINEAR", None, ""):
        for a, b in itertools.product((1.5, 1.3 + 0.2j, 1.0), repeat=2):
            for f in (0.0, 0.4, 1.0):
                add(f"overall_ri {rule} {a} {b} {f}", lambda r=rule, a=a, b=b, f=f: overall_ri(a, b, f, ema=r))
        add(f"mixed slab of equal materials {rule}", lambda r=rule: MixedSlabSE(10, s.mat, s.mat, 0.5, 0).slabs(StructureSE([], ema=r)))
        add(f"mixed slab {rule}", lambda r=rule: MixedSlabSE(10, s.mat, nk(1.3), 0.5, 0).slabs(StructureSE([], ema=r)))
    return out


def with_rule(st, rule, f):
    keep = st.ema
    st.ema = rule
    try:
        f()
    finally:
        st.ema = keep


EDITS = {
    "t1": lambda w: w.s.set("t1", w.s.v["t1"] + 33.0),
    "vf": lambda w: w.s.set("vf", w.s.v["vf"] + 0.07),
    "vector": lambda w: (w.o.setp([w.s.v["t1"] + 7, w.s.v["A"]]), w.s.v.update(t1=w.s.v["t1"] + 7)),
    "mask": lambda w: (setattr(w.d, "mask", ~w.mask), setattr(w, "mask", ~w.mask)),
    "eval": lambda w: w.o.logpost(),
}


def names(kind):
    class C:
        @staticmethod
        def tmpdir():
            return "/nonexistent"

    return list(setters(World(kind, C)))


def cases(tier):
    kinds = ["wet", "film"] if tier == "quick" else ["wet", "film", "metal", "thick"]
    for k in kinds:
        for n in names(k):
            yield [k, n]


def refuse(ctx, w, f, name, before, **d):
    plt.close("all")
    ctx.raises(f, "malformed input accepted", call=name, **d)
    now = w.snap()
    if now != before:
        bad = [k for k in now if now[k] != before[k]]
        ctx.fail("a refused call changed " + ", ".join(bad), call=name, **d)
    ctx.compared += 1
    ctx.step()


def run(case, ctx):
    kind, a = case
    others = names(kind)
    heavy = lambda n: n.split()[0] in ("m2000", "filmsense", "horiba", "ep4", "data", "load", "load-reflected", "refresh") or "plot" in n
    i = others.index(a)
    w = World(kind, ctx)
    before = w.snap()
    table = setters(w)
    # alone, from a fresh world
    refuse(ctx, w, table[a], a, before, kind=kind)
    w.verify(ctx, kind=kind, history=[a])
    ctx.trace()
    # followed by every other refused call: the state must still be the first one
    for j, b in enumerate(others):
        if heavy(b) and (i + j) % 7 and ctx.tier == "quick":
            continue
        refuse(ctx, w, table[a], a, before, kind=kind)
        refuse(ctx, w, table[b], b, before, kind=kind, after=a)
        ctx.state((kind, a, b))
        if j % 16 == i % 16 or not heavy(b) and ctx.tier != "quick":
            w.verify(ctx, kind=kind, history=[a, b])
        ctx.trace()
    w.verify(ctx, kind=kind, history=[a, "all others"])
    # valid edits before and after
    for e, f in EDITS.items():
        for order in ("before", "after", "both"):
            w = World(kind, ctx)
            t = setters(w)
            if order != "after":
                f(w)
            before = w.snap()
            refuse(ctx, w, t[a], a, before, kind=kind, edit=e)
            w.verify(ctx, kind=kind, history=[e, a])
            if order != "before":
                f(w)
                w.verify(ctx, kind=kind, history=[a, e])
                before = w.snap()
                refuse(ctx, w, t[a], a, before, kind=kind, edit=e)
                w.verify(ctx, kind=kind, history=[a, e, a])
            ctx.state((kind, a, e, order))
            ctx.trace()
        if ctx.tier != "quick":
            w = World(kind, ctx)
            t = setters(w)
            for b in others:
                if heavy(b):
                    continue
                before = w.snap()
                refuse(ctx, w, t[a], a, before, kind=kind)
                if e not in ("vf",):
                    f(w)
                before = w.snap()
                refuse(ctx, w, t[b], b, before, kind=kind)
                w.verify(ctx, kind=kind, history=[a, e, b])
                ctx.state((kind, a, e, b))
                ctx.trace()
    ctx.outcome(case[1])
