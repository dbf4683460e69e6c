"""C25: inspection and plotting."""
import itertools
import os
import re
import sys

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

from mc import core, ref
from mc.samples import ROWS, Sample, resid
from mc.sut import *

sys.path.append(os.path.join(core.REPO, "tools"))
from plottools import plot_ellipsdata, plot_structure

ID = "C25"
BOUNDS = {
    "quick": "every sequence of two inspection calls out of 28 (str/repr of every object, ObjectiveSE.plot on 3 axis "
    "choices and supplied figures with one or several axes, vectors generated from stored samples, StructureSE.plot plain/aligned/with values/with samples, plot_ellipsdata for "
    "data, model+data, objective, with residuals, on both axes, plot_structure from structure/objective, both "
    "orders) on 5 dataset kinds; every call followed by plot_structure with 1..13 and 40 different wavelengths; the same after each of 5 edits (one of them the use of the model with the other Delta convention) with every first call and a fixed quarter of the "
    "second calls; every call's artists compared with the reference",
    "thorough": "as quick with every sequence of three inspection calls after the edits on 3 dataset kinds, and every "
    "(edit, call, edit, call) history on the 5 kinds",
}
ASSUMPTIONS = [
    "matplotlib Agg backend; the artists' data are read back, not pixels",
    "model curves may use any grid that spans the data; plottools' wavelength axis uses the first row's angle",
    "StructureSE.plot uses the structure's current wavelength, read before the call",
]
BLOCK = 6

ANG = [(500.0, a, 20.0 + 0.3 * a, 40.0 + 2.5 * a) for a in (55.0, 60.0, 65.0, 70.0)]
SPEC = [(w, 70.0, 10.0 + w / 40, (w * 1.7) % 360) for w in np.linspace(400, 800, 11)]
ONE = [(633.0, 70.0, 22.0, 191.5)]
# kind, rows, mask, reflected, sample, reversed
DATA = {
    "mixed": (ROWS, None, False, "film", False),
    "angles": (ANG, [1, 1, 0, 1], False, "wet", False),
    "spectrum": (SPEC, None, True, "thick", False),
    "one": (ONE, None, False, "film", True),
    "masked": (ROWS, [0, 1, 1, 0, 1, 1, 0, 1], True, "wet", True),
}
KINDS = list(DATA)
for _n in list(range(1, 14)) + [40]:
    DATA[f"n{_n}"] = ([(round(400 + 397.7 * i / _n, 3), 70.0, 10.0 + i, 30.0 + 7 * i) for i in range(_n)], None, bool(_n % 2), "wet", bool(_n % 3))
EDITS = ["none", "t1", "mask", "reverse", "offset", "other"]
CALLS = [
    "text", "op:None", "op:aoi", "op:wavelength", "op:None:fig", "op:aoi:nolab",
    "sp", "sp:align1", "sp:align-1", "sp:fig", "sp:pvals", "sp:pall", "sp:samples1", "sp:samples2", "sp:solo",
    "pe:data:aoi", "pe:data:wavelength", "pe:md:aoi", "pe:md:wavelength", "pe:obj:aoi", "pe:obj:wavelength",
    "pe:obj:aoi:res", "pe:obj:wavelength:res:bare", "ps:structure", "ps:objective:rev",
    "op:None:fig2", "sp:fig2", "pgen",
]


class World:
    def __init__(self, kind):
        rows, mask, refl, sk, rev = DATA[kind]
        self.s = Sample(sk, vary=("t1", "A"))
        self.rows = np.array(rows, float)
        self.data = DataSE(self.rows.T.copy(), reflect_delta=refl)
        if mask is not None:
            self.data.mask = np.array(mask, bool)
        self.mask = np.ones(len(rows), bool) if mask is None else np.array(mask, bool)
        if refl:
            self.rows[:, 3] = ref.reflect(self.rows[:, 3])
        self.refl = refl
        self.rev = rev
        self.s.structure.reverse_structure = rev
        if kind in ("spectrum", "angles") or kind[1:].isdigit():
            # left over from earlier work
            self.s.structure.wavelength = 612.3
        self.obj = ObjectiveSE(self.s.model, self.data, name="objective")
        self.model_refl = refl

    # reference ------------------------------------------------------
    def live(self):
        return self.rows[self.mask]

    def indices(self, wav):
        v = self.s.v
        wav = np.asarray(wav, float)
        n1 = np.real(ref.cauchy((v["A"], v["B"], 0.0), wav))
        n1 = np.sqrt((1 - v["vf"]) * n1**2 + v["vf"] * self.s.front**2) + 0j
        f = np.ones(wav.shape, complex)
        n = [f * self.s.front, n1, f * self.s.n2, f * self.s.nb]
        d = np.array([0.0, v["t1"], v["t2"], 0.0])
        return (n[::-1], d[::-1]) if self.rev else (n, d)

    def predict(self, wav, aoi, refl=None):
        wav, aoi = np.broadcast_arrays(np.asarray(wav, float), np.asarray(aoi, float))
        n, d = self.indices(wav)
        psi, delta = ref.psi_delta(np.array(n), d / 10, aoi, wav)
        if self.model_refl if refl is None else refl:
            delta = ref.reflect(delta)
        return psi, delta + self.s.v["off"]

    def profile(self, z, wav, rev=None, align=0):
        keep = self.rev
        self.rev = keep if rev is None else rev
        n, d = self.indices(wav)
        self.rev = keep
        loc = np.cumsum(d[:-1])
        shift = loc[align]
        z = np.asarray(z, float) + shift
        out = np.full(z.shape, np.real(n[0]), float)
        ok = np.ones(z.shape, bool)
        for i in range(3):
            out = out + (np.real(n[i + 1]) - np.real(n[i])) * (z >= loc[i])
            ok &= np.abs(z - loc[i]) > 1e-6
        return out, ok, (loc[0] - shift, loc[-1] - shift)

    def residuals(self):
        r = self.live()
        psi, delta = self.predict(r[:, 0], r[:, 1], self.refl)
        return np.r_[psi - r[:, 2], ref.circ(delta, r[:, 3])]

    # state ----------------------------------------------------------
    def snapshot(self):
        return dict(
            values=[float(x) for x in self.obj.parameters.flattened()],
            vary=[bool(x.vary) for x in self.obj.parameters.flattened()],
            nlayers=len(self.s.structure), rev=self.s.structure.reverse_structure, ema=self.s.structure.ema,
            mask=np.array(self.data.mask).tolist(), rows=np.array(self.data.data).T.tolist(),
        )


def edit(w, name):
    s = w.s
    if name == "t1":
        s.set("t1", s.v["t1"] * 1.25)
    elif name == "offset":
        s.set("off", s.v["off"] + 3.5)
    elif name == "mask":
        m = w.mask.copy()
        if len(m) > 1:
            m[:] = True
            m[1] = False
        w.data.mask = m
        w.mask = m
    elif name == "other":
        # the model is used with data of the other convention meanwhile
        ObjectiveSE(s.model, DataSE(np.array(ONE).T.copy(), reflect_delta=not w.refl)).residuals()
        w.model_refl = not w.refl
    elif name == "reverse":
        w.rev = not w.rev
        s.structure.reverse_structure = w.rev


def lines_of(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), l) for l in ax.get_lines()]


def points_of(ax):
    return [np.asarray(c.get_offsets(), float) for c in ax.collections]


def same_points(ctx, got, x, y, msg, **d):
    want = np.c_[x, y]
    ctx.check(got.shape == want.shape, msg + ": number", got=got.shape, want=want.shape, **d)
    g = got[np.lexsort(np.round(got, 6).T)]
    t = want[np.lexsort(np.round(want, 6).T)]
    ctx.close(g, t, msg, rtol=0, atol=1e-6, **d)


def twin(ctx, fig, ax, **d):
    o = [a for a in fig.axes if a is not ax and a.bbox.bounds == ax.bbox.bounds]
    ctx.check(len(o) == 1, "one twin axis for Delta", got=len(o), **d)
    return o[0]


def curves(ctx, w, ax, axt, axis, fixed, span, refl, **d):
    """model curves: one per fixed value, each the prediction along the axis"""
    for a, part in ((ax, 0), (axt, 1)):
        ls = lines_of(a)
        ctx.check(len(ls) == len(fixed), "number of model curves", got=len(ls), want=len(fixed), part=part, **d)
        left = list(fixed)
        for x, y, _ in ls:
            ctx.check(
                len(x) >= 2 and abs(x.min() - span[0]) < 1e-6 and abs(x.max() - span[1]) < 1e-6,
                "span of a model curve", got=[x.min(), x.max()], want=span, part=part, **d,
            )
            hit = None
            for f in left:
                wp = w.predict(f, x, refl) if axis == "aoi" else w.predict(x, f, refl)
                err = np.abs(y - wp[0]) if part == 0 else ref.circ(y, wp[1])
                if np.max(err) < 1e-5 and (part == 0 or w.s.v["off"] or y.min() > -1e-6 and y.max() < (180 if refl else 360) + 1e-6):
                    hit = f
                    break
            ctx.check(hit is not None, "a model curve is not the model's prediction", part=part, axis=axis, x=x[:3], y=y[:3], fixed=left, **d)
            left.remove(hit)


def profile_line(ctx, w, x, y, wav, rev=None, align=0, **d):
    want, ok, (lo, hi) = w.profile(x, wav, rev, align)
    ctx.check(x.min() < lo and x.max() > hi and len(x) > 20, "profile covers all interfaces", got=[x.min(), x.max()], want=[lo, hi], **d)
    ctx.check(bool(np.all(np.abs(y - want)[ok] < 1e-9)), "profile line", got=y[ok][:4], want=want[ok][:4], wav=wav, **d)


def two_axes(kw, part):
    """a figure with three axes of which the middle one is current"""
    if part[-1] != "fig2":
        return None
    kw["fig"] = fig = plt.figure()
    axs = [fig.add_subplot(3, 1, i + 1) for i in range(3)]
    fig.sca(axs[1])
    return axs


def supplied(ctx, fig, ax, kw, idle, **d):
    if "fig" in kw:
        ctx.check(fig is kw["fig"], "supplied figure", **d)
    if idle:
        ctx.check(ax is idle[1], "drawn on the current axes", got=[i for i, a in enumerate(idle) if a is ax], **d)
        for a in (idle[0], idle[2]):
            ctx.check(not a.get_lines() and not a.collections, "other axes of the figure are left alone", **d)


def run_pgen(ctx, w, **d):
    """parameter vectors from stored samples"""
    s, o = w.s, w.obj
    flat = list(o.parameters.flattened())
    i1, iA = [next(i for i, p in enumerate(flat) if p is s.par(k)) for k in ("t1", "A")]
    base = [float(p) for p in flat]
    for n, ngen, nburn, nthin in itertools.product((1, 2, 5), (1, 2, 4, 100), (0, 1), (1, 2)):
        rows = [(s.v["t1"] * (1 + 0.1 * k), s.v["A"] + 0.01 * k) for k in range(1, n + 1)]
        s.par("t1").chain = np.array([r[0] for r in rows])
        s.par("A").chain = np.array([r[1] for r in rows])
        keep = rows[nburn::nthin]
        e = dict(d, samples=n, ngen=ngen, nburn=nburn, nthin=nthin)
        before = w.snapshot()
        if not keep:
            ctx.raises(lambda: list(o.pgen(ngen=ngen, nburn=nburn, nthin=nthin)), "no samples left", **e)
        else:
            got = []
            for v in o.pgen(ngen=ngen, nburn=nburn, nthin=nthin):
                got.append([float(x) for x in v])
                ctx.equal(w.snapshot(), before, "state while vectors are generated", **e)
            ctx.check(len(got) == min(ngen, len(keep)), "number of vectors", got=len(got), want=min(ngen, len(keep)), **e)
            seen = []
            for v in got:
                ctx.check(len(v) == len(base) and (v[i1], v[iA]) in keep, "a vector is not a stored sample", got=v, **e)
                ctx.check(all(a == b for i, (a, b) in enumerate(zip(v, base)) if i not in (i1, iA)), "other values of a vector", got=v, want=base, **e)
                seen.append((v[i1], v[iA]))
            ctx.check(len(set(seen)) == len(seen), "a sample came twice", got=seen, **e)
        ctx.state((w.refl, n, ngen, nburn, nthin))
    # the defaults: at most 1000 vectors, nothing discarded
    for n in (1, 3, 40, 1200):
        rows = [(s.v["t1"] + 1e-3 * k, s.v["A"] + 1e-4 * k) for k in range(1, n + 1)]
        s.par("t1").chain = np.array([r[0] for r in rows])
        s.par("A").chain = np.array([r[1] for r in rows])
        got = [(float(v[i1]), float(v[iA])) for v in o.pgen()]
        e = dict(d, samples=n)
        ctx.check(len(got) == min(1000, n) and len(set(got)) == len(got), "number of vectors by default", got=len(got), **e)
        ctx.check(set(got) <= set(rows), "a vector is not a stored sample", **e)
    s.par("t1").chain = s.par("A").chain = None


def call(ctx, w, name, **d):
    d = dict(d, call=name)
    s, o = w.s, w.obj
    live = w.live()
    part = name.split(":")
    kind = part[0]
    if kind == "pgen":
        run_pgen(ctx, w, **d)
    elif kind == "text":
        t = str(o)
        m = re.search(r"chi2 = (\S+)", t)
        want = float(np.sum(w.residuals() ** 2))
        ctx.check(m is not None and abs(float(m.group(1)) - want) <= 1e-6 * (1 + want), "chi2 in the text", got=m and m.group(1), want=want, **d)
        if w.mask.all():
            m = re.search(r"datapoints = (\d+)", t)
            ctx.check(m is not None and int(m.group(1)) == len(live), "datapoints in the text", got=m and m.group(1), **d)
        named = ObjectiveSE(s.model, w.data, name="sample 7b")
        ctx.check(named.name == "sample 7b" and "sample 7b" in str(named), "name of the objective", got=str(named)[:200], **d)
        m = re.search(r"(\d+) points", str(w.data))
        ctx.check(m is not None and int(m.group(1)) == len(live), "points in the dataset text", got=str(w.data), want=len(live), **d)
        for x in (w.data, s.structure, s.model, s.mat, s.l1, s.l2, o, o.parameters):
            str(x), repr(x)
        for txt in (t, str(s.structure), repr(s.structure), repr(s.l1)):
            vals = [float(v) for v in re.findall(r"value=(-?[\d.e+-]+)", txt)]
            ctx.check(any(abs(v - s.v["t1"]) < 1e-4 * s.v["t1"] for v in vals), "thickness in the text", got=vals, want=s.v["t1"], **d)
        m = re.fullmatch(r"n: (\S+), k: (\S+)", str(s.l2.ri))
        ctx.check(m is not None and abs(complex(float(m[1]), float(m[2])) - s.n2) < 1e-12, "material text", got=str(s.l2.ri), **d)
    elif kind == "op":
        axis = None if part[1] == "None" else part[1]
        kw = {}
        if "nolab" in part:
            kw["plot_labels"] = False
        if "fig" in part:
            kw["fig"] = plt.figure()
        idle = two_axes(kw, part)
        fig, ax = o.plot(xaxis=axis, **kw)
        w.model_refl = w.refl
        supplied(ctx, fig, ax, kw, idle, **d)
        axt = twin(ctx, fig, ax, **d)
        axis = axis or ("aoi" if len(np.unique(live[:, 1])) > 1 else "wavelength")
        c, f = (1, 0) if axis == "aoi" else (0, 1)
        curves(ctx, w, ax, axt, axis, np.unique(live[:, f]), (live[:, c].min(), live[:, c].max()), w.refl, **d)
        for a, col in ((ax, 2), (axt, 3)):
            ps = points_of(a)
            ctx.check(len(ps) == 1, "one set of data points per axis", got=len(ps), **d)
            same_points(ctx, ps[0], live[:, c], live[:, col], "data points", column=col, **d)
        lab = ax.get_xlabel()
        if "nolab" in part:
            ctx.equal([lab, ax.get_ylabel(), axt.get_ylabel()], ["", "", ""], "labels not wanted", **d)
        else:
            ctx.check(("aoi" in lab.lower()) == (axis == "aoi") and ("wavelength" in lab.lower()) == (axis == "wavelength"), "axis label", got=lab, **d)
            ctx.equal([ax.get_ylabel(), axt.get_ylabel()], ["Psi", "Delta"], "labels", **d)
    elif kind == "sp":
        st = s.structure
        wav = st.wavelength
        if wav is None:
            wav = 658.0
            st.wavelength = 658.0
        kw = {}
        al = 0
        if len(part) > 1 and part[1].startswith("align"):
            al = kw["align"] = int(part[1][5:])
        if part[-1] == "fig":
            kw["fig"] = plt.figure()
        if part[-1] == "pvals":
            vals = dict(t1=s.v["t1"] * 0.9, A=s.v["A"] + 0.02)
            order = [("t1" if x is s.par("t1") else "A") for x in st.parameters.varying_parameters()]
            kw["pvals"] = [vals[k] for k in order]
            s.v.update(vals)
        if part[-1] == "pall":
            flat = st.parameters.flattened()
            vals = [float(x) for x in flat]
            for i, x in enumerate(flat):
                if x is s.par("t2"):
                    vals[i] = s.v["t2"] + 11.0
            kw["pvals"] = np.array(vals)
            s.v["t2"] += 11.0
        n = 0
        if part[-1].startswith("samples"):
            n = int(part[-1][7:])
            chain = [(s.v["t1"] * 0.8, s.v["A"] - 0.01), (s.v["t1"] * 1.1, s.v["A"] + 0.03), (s.v["t1"] * 1.4, s.v["A"])][: n + 1 if n > 1 else 1]
            s.par("t1").chain = np.array([c[0] for c in chain])
            s.par("A").chain = np.array([c[1] for c in chain])
            kw["samples"] = n
        if part[-1] == "solo":
            # samples while a single parameter varies
            n = kw["samples"] = 1
            chain = [(s.v["t1"] * 0.7, s.v["A"])]
            s.par("A").vary = False
            s.par("t1").chain = np.array([chain[0][0]])
        idle = two_axes(kw, part)
        fig, ax = st.plot(**kw)
        s.par("A").vary = True
        supplied(ctx, fig, ax, kw, idle, **d)
        ls = lines_of(ax)
        ctx.check(len(ls) == n + 1, "number of profiles", got=len(ls), want=n + 1, **d)
        profile_line(ctx, w, ls[-1][0], ls[-1][1], wav, align=al, **d)
        if n:
            keep = dict(s.v)
            left = list(chain)
            for x, y, _ in ls[:-1]:
                hit = None
                for c in left:
                    s.v.update(t1=c[0], A=c[1])
                    want, ok, _ = w.profile(x, wav)
                    if np.all(np.abs(y - want)[ok] < 1e-9):
                        hit = c
                        break
                s.v.update(keep)
                ctx.check(hit is not None, "sampled profile is not that of a sample", **d)
                left.remove(hit)
            s.par("t1").chain = s.par("A").chain = None
        ctx.check(st.wavelength == wav, "structure wavelength", got=st.wavelength, want=wav, **d)
    elif kind == "pe":
        what, axis = part[1], part[2]
        kw = dict(xaxis=axis)
        fig = plt.figure()
        res = None
        if "res" in part:
            ax, res = fig.add_subplot(211), fig.add_subplot(212)
            kw["resax"] = res
        else:
            ax = fig.add_subplot(111)
        if "bare" in part:
            kw.update(plot_labels=False, legend=False)
        refl = None
        if what == "data":
            kw["data"] = w.data
        elif what == "md":
            kw.update(data=w.data, model=s.model)
            refl = w.model_refl
        else:
            kw["objective"] = o
            refl = w.model_refl = w.refl
        plot_ellipsdata(ax, **kw)
        axt = twin(ctx, fig, ax, **d)
        c, f = (1, 0) if axis == "aoi" else (0, 1)
        if what == "data":
            ctx.check(not ax.get_lines() and not axt.get_lines(), "no model to draw", **d)
        elif axis == "aoi":
            curves(ctx, w, ax, axt, axis, np.unique(live[:, 0]), (live[:, 1].min() - 5, live[:, 1].max() + 5), refl, **d)
        else:
            curves(ctx, w, ax, axt, axis, live[:1, 1], (live[:, 0].min() - 50, live[:, 0].max() + 50), refl, **d)
        for a, col in ((ax, 2), (axt, 3)):
            ps = points_of(a)
            ctx.check(len(ps) == 1, "one set of data points per axis", got=len(ps), **d)
            same_points(ctx, ps[0], live[:, c], live[:, col], "data points", column=col, **d)
        ctx.check((ax.get_legend() is not None) == ("bare" not in part), "legend", **d)
        if res is not None:
            r = w.residuals()
            k = len(live)
            ps = points_of(res)
            ctx.check(len(ps) == 2, "two sets of residuals", got=len(ps), **d)
            same_points(ctx, ps[0], live[:, c], r[:k], "Psi residuals", **d)
            same_points(ctx, ps[1], live[:, c], r[k:], "Delta residuals", **d)
            m = re.search(r"(-?[\d.]+(?:e[+-]?\d+)?)\s*$", res.texts[0].get_text())
            want = float(np.sum(r**2))
            ctx.check(m is not None and abs(float(m[1]) - want) <= 6e-4 + 1e-9 * want, "chi-squared shown", got=res.texts[0].get_text(), want=want, **d)
    else:
        fig = plt.figure()
        ax = fig.add_subplot(111)
        st = s.structure
        was = st.wavelength
        rev = "rev" in part
        if part[1] == "structure":
            plot_structure(ax, structure=st, reverse_structure=rev)
            wavs = np.array([658.0])
        else:
            plot_structure(ax, objective=o, reverse_structure=rev)
            wavs = np.unique(live[:, 0])
            if len(wavs) > 8:
                wavs = np.linspace(wavs[0], wavs[-1], 6)
        ls = lines_of(ax)
        ctx.check(len(ls) == len(wavs), "number of profiles", got=len(ls), want=len(wavs), **d)
        seen = sorted(float(l.get_label().split()[0]) for _, _, l in ls)
        ctx.close(seen, wavs, "labels of the profiles", rtol=1e-9, **d)
        for x, y, l in ls:
            profile_line(ctx, w, x, y, float(l.get_label().split()[0]), rev=rev, **d)
        ctx.check(st.wavelength == was, "structure wavelength", got=st.wavelength, want=was, **d)
    ctx.step()


def settled(ctx, w, before, name, **d):
    now = w.snapshot()
    if name in ("sp:pvals", "sp:pall"):
        for k in w.s.KEYS:
            ctx.check(abs(float(w.s.par(k)) - w.s.v[k]) < 1e-12, "value passed to the plot not applied", key=k, got=float(w.s.par(k)), want=w.s.v[k], call=name, **d)
        changed = [i for i, (a, b) in enumerate(zip(now["values"], before["values"])) if a != b]
        ctx.check(len(changed) <= (2 if name == "sp:pvals" else 1), "other values changed", got=changed, call=name, **d)
        before = dict(before, values=now["values"])
    ctx.equal(now, before, "state after " + name, **d)


def finish(ctx, w, **d):
    pts = np.array([(450.0, 60.0), (612.5, 71.0), (450.0, 30.0)])
    ctx.close(w.obj.residuals(), w.residuals(), "residuals after inspection", rtol=1e-7, atol=1e-5, **d)
    w.model_refl = w.refl
    psi, delta = w.s.model(pts)
    wp, wd = w.predict(pts[:, 0], pts[:, 1])
    ctx.close(psi, wp, "prediction after inspection", rtol=0, atol=1e-6, **d)
    ctx.close(ref.circ(delta, wd), 0 * wd, "prediction after inspection", rtol=0, atol=1e-5, **d)


def cases(tier):
    q = tier == "quick"
    for n in list(range(1, 14)) + [40]:
        yield ["count", n]
    for kind in KINDS:
        for e in EDITS:
            for a in CALLS:
                yield [kind, e, a]
    if not q:
        for kind in ("mixed", "spectrum", "masked"):
            for a in CALLS:
                for b in CALLS:
                    yield [kind, "triple", a, b]


def history(ctx, kind, ops):
    w = World(kind)
    d = dict(kind=kind, history=ops)
    for op in ops:
        if op in EDITS:
            edit(w, op)
            continue
        before = w.snapshot()
        call(ctx, w, op, **d)
        settled(ctx, w, before, op, **d)
        plt.close("all")
        ctx.state((kind, tuple(ops), op))
    finish(ctx, w, **d)
    ctx.trace()
    ctx.outcome(repr([round(x, 3) for x in w.residuals()]))


def run(case, ctx):
    plt.close("all")
    if case[0] == "count":
        # any number of different wavelengths
        for a in CALLS:
            history(ctx, f"n{case[1]}", [a, "ps:objective:rev"])
        return
    if case[1] == "triple":
        kind, _, a, b = case
        for c in CALLS:
            history(ctx, kind, [a, b, c])
        return
    kind, e, a = case
    for j, b in enumerate(CALLS):
        if ctx.tier == "quick" and e not in ("none",) and (j + CALLS.index(a) + EDITS.index(e)) % 4:
            continue
        history(ctx, kind, [e, a, b])
    if e != "none":
        # the same call before and after a change
        history(ctx, kind, [a, e, a])
    if ctx.tier != "quick":
        for e2 in EDITS[1:]:
            for b in CALLS:
                history(ctx, kind, [e, a, e2, b])
