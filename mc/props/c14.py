"""C14: data and model use the same Delta convention."""
import copy
import io
import itertools
import os
import pickle

import numpy as np
from refnx.analysis import GlobalObjective

from mc import ref
from mc.samples import *
from mc.sut import *

ID = "C14"
BOUNDS = {
    "quick": "every history of <=3 operations over 24 (create objectives on "
    "reflected, unreflected, copied, re-reflected or file (name, path object, open file) datasets, with and without noise term, with one "
    "shared model or a second model on the same structure; evaluate any of them "
    "in 5 ways; plot; call the model; reload; assign data; copy/pickle; combine; replace the dataset of an objective; "
    "change a parameter), all live objectives verified after each, twice, in "
    "both orders; the reflection map on 731 angles; 13 contents (all Delta low, high, at 0, 180, 360, single, many) x 14 ways of making the dataset x 2 conventions x 3 previous uses of the model",
    "thorough": "every history of <=4 operations over the same alphabet",
}
ASSUMPTIONS = ["oracle: Airy solution, reflected about 180 iff the dataset is"]
BLOCK = 8

RA = np.array([(450.0, 60.0, 31.0, 155.0), (550.0, 70.0, 12.5, 300.5), (658.0, 55.0, 44.0, 355.0)])
RB = np.array([(800.0, 65.0, 21.0, 211.0), (550.0, 70.0, 12.5, 300.5)])


class Wd:
    def __init__(self, ctx):
        self.ctx = ctx
        self.s = Sample("thick")  # predictions on both sides of 180
        self.m = self.s.model
        self.m2 = ReflectModelSE(self.s.structure)
        self.A = DataSE(tuple(RA.T), reflect_delta=True)
        self.B = DataSE(tuple(RB.T))
        self.objs = []  # (objective, rows, reflected, sample)
        self.file = None
        self.F = None
        self.paths, self.prows, self.bufs = [], [], []
        self.rowsA, self.rowsB = refl(RA), RB.copy()


def refl(rows):
    r = np.array(rows, float)
    r[:, 3] = ref.reflect(r[:, 3])
    return r


def _file(w):
    if w.F is None:
        p = os.path.join(w.ctx.tmpdir(), f"c14_{os.getpid()}.txt")
        np.savetxt(p, RA, delimiter="\t", header="wavelength\tAOI\tPsi\tDelta")
        w.file = p
        w.F = DataSE(p, reflect_delta=True)
        w.rowsF = refl(RA)
    return w.F


def newA(w):
    w.objs.append([ObjectiveSE(w.m, w.A), lambda: w.rowsA, True, w.s])


def newB(w):
    w.objs.append([ObjectiveSE(w.m, w.B), lambda: w.rowsB, False, w.s])


def newB2(w):
    w.objs.append([ObjectiveSE(w.m2, w.B), lambda: w.rowsB, False, w.s])


def newA2(w):
    w.objs.append([ObjectiveSE(w.m2, w.A), lambda: w.rowsA, True, w.s])


def newCopy(w):
    r = w.rowsA.copy()
    w.objs.append([ObjectiveSE(w.m, DataSE(w.A)), lambda: r, True, w.s])


def newCopyB(w):
    r = w.rowsB.copy()
    w.objs.append([ObjectiveSE(w.m, DataSE(w.B)), lambda: r, False, w.s])


def newRefl(w):
    r = refl(w.rowsB)
    w.objs.append([ObjectiveSE(w.m, DataSE(w.B, reflect_delta=True)), lambda: r, True, w.s])


def newDeep(w):
    r = w.rowsA.copy()
    w.objs.append([ObjectiveSE(w.m, copy.deepcopy(w.A)), lambda: r, True, w.s])


def newPick(w):
    r = w.rowsA.copy()
    w.objs.append([ObjectiveSE(w.m, pickle.loads(pickle.dumps(w.A))), lambda: r, True, w.s])


def newFile(w):
    _file(w)
    w.objs.append([ObjectiveSE(w.m, w.F), lambda: w.rowsF, True, w.s])


def newRaw(w):
    """plain arrays instead of a dataset"""
    r = RB.copy()
    w.objs.append([ObjectiveSE(w.m, tuple(RB.T)), lambda: r, False, w.s])


def newBuf(w):
    """read from an open file"""
    b = io.StringIO()
    np.savetxt(b, RA, delimiter="\t", header="x")
    b.seek(0)
    st = {"buf": b, "d": DataSE(b, reflect_delta=True), "rows": refl(RA)}
    w.bufs.append(st)
    w.objs.append([ObjectiveSE(w.m, st["d"]), lambda: st["rows"], True, w.s])


def newPath(w):
    import pathlib
    _file(w)
    d = DataSE(pathlib.Path(w.file), reflect_delta=True)
    w.paths.append(d)
    st = {"rows": w.rowsF}
    w.prows.append(st)
    w.objs.append([ObjectiveSE(w.m, d), lambda: st["rows"], True, w.s])


def rebuf(w):
    for st in w.bufs[:1]:
        rows = RA[1:] + np.array([0, 0, 2.0, -30.0])
        st["buf"].seek(0)
        st["buf"].truncate()
        np.savetxt(st["buf"], rows, delimiter="\t", header="x")
        st["buf"].seek(0)
        st["d"].refresh()
        st["rows"] = refl(rows)


def _swap(which):
    def f(w):
        """another dataset is put into the newest objective (the oldest keeps its own)"""
        if w.objs:
            o = w.objs[-1]
            if which == "raw":
                o[0].data, o[2] = DataSE(tuple(RB.T)), False
                o[1] = lambda: RB
            elif which == "A":
                o[0].data, o[2] = w.A, True
                o[1] = lambda: w.rowsA
            else:
                o[0].data, o[2] = w.B, False
                o[1] = lambda: w.rowsB
    return f


def newLn(w):
    w.objs.append([ObjectiveSE(w.m, w.A, lnsigma=-1.5), lambda: w.rowsA, True, w.s])


def newLnB(w):
    w.objs.append([ObjectiveSE(w.m, w.B, lnsigma=-0.5), lambda: w.rowsB, False, w.s])


def reload_(w):
    if w.F is not None:
        rows = RA[:2] + np.array([0, 0, 1.0, 20.0])
        np.savetxt(w.file, rows, delimiter="\t", header="x")
        w.F.refresh()
        w.rowsF = refl(rows)
        for d, st in zip(w.paths, w.prows):
            d.refresh()
            st["rows"] = refl(rows)


def ev(i, how):
    def f(w):
        if w.objs:
            getattr(w.objs[i % len(w.objs)][0], how)()
    return f


def plot(w):
    if w.objs:
        from matplotlib.figure import Figure
        fig = Figure()
        fig.add_subplot(111)
        w.objs[0][0].plot(fig=fig)


def call(w):
    w.m(np.array([(658.0, 70.0)]))


def assign(w):
    w.rowsA = np.array([(800.0, 61.0, 15.0, 120.0), (450.0, 62.0, 25.0, 20.0)])
    w.A.data = tuple(w.rowsA.T)


def assignhi(w):
    """assigned values are taken as they are, the convention stays that of the dataset"""
    w.rowsA = np.array([(800.0, 61.0, 15.0, 220.0), (450.0, 62.0, 25.0, 20.0), (550.0, 70.0, 12.5, 300.5)])
    w.A.data = tuple(w.rowsA.T)


def glob(w):
    if w.objs:
        g = GlobalObjective([o[0] for o in w.objs])
        r = g.residuals()
        want = np.concatenate([resid(o[3], o[1](), o[2]) for o in w.objs])
        w.ctx.check(len(r) == len(want) and bool(np.all(np.abs(r - want) < 1e-5)), "co-refinement uses the wrong convention",
                    got=r, want=want)


def deepobj(w):
    if w.objs:
        o, rows, rf, s = w.objs[-1]
        r = rows().copy()
        s2 = copy.copy(s)
        s2.v = dict(s.v)
        w.objs.append([copy.deepcopy(o), lambda: r, rf, s2])


def pickobj(w):
    if w.objs:
        o, rows, rf, s = w.objs[0]
        r = rows().copy()
        s2 = copy.copy(s)
        s2.v = dict(s.v)
        w.objs.append([pickle.loads(pickle.dumps(o)), lambda: r, rf, s2])


def thick(w):
    w.s.set("t1", w.s.v["t1"] + 55.0)


def offset(w):
    """only the shared model has this offset, so put it on both"""
    w.s.set("off", 200.0)
    w.m2.delta_offset.value = 200.0


OPS = [
    ("newA", newA), ("newB", newB), ("newB2", newB2), ("newA2", newA2), ("newCopy", newCopy), ("newRefl", newRefl),
    ("newFile", newFile), ("newDeep", newDeep), ("newPick", newPick), ("newRaw", newRaw), ("reload", reload_),
    ("res0", ev(0, "residuals")), ("logl0", ev(0, "logl")), ("chi1", ev(1, "chisqr")), ("logpost1", ev(1, "logpost")),
    ("covar0", ev(0, "covar")), ("plot", plot), ("call", call), ("assign", assign), ("glob", glob), ("deepobj", deepobj),
    ("pickobj", pickobj), ("thick", thick), ("offset", offset), ("newCopyB", newCopyB), ("assignhi", assignhi),
    ("newBuf", newBuf), ("newPath", newPath), ("rebuf", rebuf), ("newLn", newLn), ("newLnB", newLnB),
    ("swapA", _swap("A")), ("swapB", _swap("B")), ("swapraw", _swap("raw")),
]
BOUNDS["quick"] = BOUNDS["quick"].replace("over 24", f"over {len(OPS)}")
FN = dict(OPS)
NAMES = [n for n, _ in OPS]


CONT = {
    "zero": [0.0, 0.0], "low": [12.0, 80.0, 89.9], "mid": [95.0, 179.0], "half": [180.0, 180.0], "high": [181.0, 250.0], "top": [271.0, 359.5],
    "turn": [360.0, 360.0], "one": [250.0], "onelow": [40.0], "both": [20.0, 340.0, 180.0, 179.9999, 180.0001], "over": [400.0, -20.0, 545.0],
    "many": [(37.0 * i) % 360 for i in range(60)], "manylow": [(37.0 * i) % 90 for i in range(60)],
}
MAKE = ["direct", "copy", "copy2", "deep", "pickle", "file", "filecopy", "buffer", "refresh", "copyrefresh", "assign", "rerefl", "mask", "rename"]


def run_vals(ctx, cont, how):
    """the convention is a property of the dataset, not of its values"""
    dl = np.array(CONT[cont], float)
    n = len(dl)
    rows = np.c_[np.resize([450.0, 550.0, 658.0, 800.0], n), np.resize([60.0, 70.0, 55.0], n), np.linspace(5, 80, n), dl]
    for rf in (False, True):
        s = Sample("thick")
        kw = dict(reflect_delta=rf)
        exp = refl(rows) if rf else rows.copy()
        arr = tuple(rows.T)
        if how in ("file", "filecopy", "refresh", "copyrefresh"):
            p = os.path.join(ctx.tmpdir(), f"c14v_{os.getpid()}.txt")
            np.savetxt(p, rows, delimiter="\t", header="x")
            ds = DataSE(p, **kw)
            if how in ("filecopy", "copyrefresh"):
                ds = DataSE(ds)
            if how in ("refresh", "copyrefresh"):
                ds.refresh()
        elif how == "buffer":
            b = io.StringIO()
            np.savetxt(b, rows, delimiter="\t", header="x")
            b.seek(0)
            ds = DataSE(b, **kw)
        elif how == "copy":
            ds = DataSE(DataSE(arr, **kw))
        elif how == "copy2":
            ds = DataSE(DataSE(DataSE(arr, **kw)))
        elif how == "deep":
            ds = copy.deepcopy(DataSE(arr, **kw))
        elif how == "pickle":
            ds = pickle.loads(pickle.dumps(DataSE(arr, **kw)))
        elif how == "rerefl":
            ds = DataSE(DataSE(arr, **kw), reflect_delta=True)
            rf, exp = True, refl(exp)
        else:
            ds = DataSE(arr, **kw)
        if how == "assign":
            ds.data = arr
            exp = rows.copy()
        elif how == "rename":
            ds.name = "other"
        if how == "mask":
            ds.mask = np.arange(n) % 2 == 0
            exp = exp[::2]
        d = dict(content=cont, how=how, reflected=rf)
        ctx.close(ds.delta, exp[:, 3], "Delta of the dataset", rtol=0, atol=1e-9, **d)
        for first in (None, True, False):
            if first is not None:
                ObjectiveSE(s.model, DataSE(tuple(RA.T), reflect_delta=first)).residuals()
            o = ObjectiveSE(s.model, ds)
            want = resid(s, exp, rf)
            got = o.residuals()
            ctx.check(got.shape == want.shape and bool(np.all(np.abs(got - want) < 1e-5)), "residuals are not in the dataset's own convention",
                      got=got, want=want, before=first, **d)
            l, wl = o.logl(), ref_logl(o, s, exp, rf)
            ctx.check(abs(l - wl) < 1e-3 + 1e-7 * abs(wl), "log-likelihood convention", got=l, want=wl, **d)
            ctx.step(2)
            ctx.state((cont, how, rf, first))
        ctx.trace()


def cases(tier):
    yield ["map"]
    for c in CONT:
        for h in MAKE:
            yield ["vals", c, h]
    depth = 3 if tier == "quick" else 4
    for k in range(1, depth + 1):
        for h in itertools.product(NAMES, repeat=k - 1):
            # every history starts by creating an objective
            if h and not h[0].startswith("new"):
                continue
            yield ["hist", list(h)]


def ref_logl(o, s, rows, rf):
    want = resid(s, rows, rf)
    if o.lnsigma is None:
        return -0.5 * np.sum(want**2)
    psi, delta = s.predict(rows[:, 0], rows[:, 1], rf)
    return -0.5 * np.sum(want**2 / (1 + np.exp(2 * float(o.lnsigma)) * np.r_[psi, delta] ** 2))


def verify(w, ctx, hist):
    # every way of asking comes directly after another objective's evaluation
    for order, way in ((1, 0), (-1, 1), (1, 1), (-1, 0), (1, 2)):
        for i, (o, rows, rf, s) in list(enumerate(w.objs))[::order]:
            want = resid(s, rows(), rf)
            d = dict(history=hist, objective=i, reflected=rf)
            if way == 0:
                got = o.residuals()
                ctx.check(got.shape == want.shape and bool(np.all(np.abs(got - want) < 1e-5)),
                          "residuals are not in the dataset's own convention", got=got, want=want, **d)
            elif way == 1:
                l, wl = o.logl(), ref_logl(o, s, rows(), rf)
                ctx.check(abs(l - wl) < 1e-3 + 1e-7 * abs(wl), "log-likelihood convention", got=l, want=wl, **d)
            else:
                c, wc = o.chisqr(), np.sum(want**2)
                ctx.check(abs(c - wc) < 1e-3 + 1e-7 * wc, "chi-squared convention", got=c, want=wc, **d)
    ctx.trace()
    ctx.state((tuple(hist[:1]), tuple((o[2], o[1]().tobytes()) for o in w.objs), tuple(w.s.v.items())))
    ctx.outcome(tuple(o[2] for o in w.objs))


def run(case, ctx):
    if case[0] == "map":
        x = np.r_[np.arange(0, 360.5, 0.5), 180.0, np.nextafter(180, 400), np.nextafter(180, 0), 359.999, 1e-9, 360.0, -5.0, 400.0, 540.0]
        n = np.ones_like(x)
        d = DataSE((658 * n, 60 * n, 10 * n, x), reflect_delta=True)
        ctx.close(d.delta, np.where(x > 180, 360 - x, x), "reflection map", rtol=0, atol=1e-12)
        d0 = DataSE((658 * n, 60 * n, 10 * n, x))
        ctx.close(d0.delta, x, "no reflection asked", rtol=0, atol=0)
        # the model's reflection on a dense set of predictions
        for kind in ("film", "wet", "metal", "thick"):
            s = Sample(kind)
            pts = np.array([(w, a) for w in np.arange(250.0, 1000.0, 5.0) for a in (1.0, 45.0, 60.0, 75.0, 85.0)])
            psi, delta = s.model(pts)
            rows = np.c_[pts, psi, delta]
            o = ObjectiveSE(s.model, DataSE(tuple(rows.T), reflect_delta=True))
            r = o.residuals()
            ctx.check(bool(np.all(np.abs(r) < 1e-9)), "own prediction, reflected, is not reproduced", kind=kind, worst=float(np.max(np.abs(r))))
            o2 = ObjectiveSE(s.model, DataSE(tuple(rows.T)))
            ctx.check(bool(np.all(np.abs(o2.residuals()) < 1e-9)), "own prediction is not reproduced", kind=kind)
            ctx.check(bool(np.all(np.abs(o.residuals()) < 1e-9)), "after the other convention was used", kind=kind)
            ctx.step(len(pts))
            ctx.trace()
            ctx.state(("map", kind))
        return
    if case[0] == "vals":
        return run_vals(ctx, *case[1:])
    hist = case[1]
    for last in NAMES:
        h = hist + [last]
        if not h[0].startswith("new"):
            continue
        w = Wd(ctx)
        for name in h:
            FN[name](w)
            ctx.step()
        verify(w, ctx, h)
