"""C15: a dataset is a consistent masked table."""
import copy
import itertools
import pickle

import numpy as np

from mc import ref
from mc.sut import *

ID = "C15"
BOUNDS = {
    "quick": "11 constructors x every history of <=3 operations over 24 (assign "
    "data of length 0..6 in 4 container types, set masks as list/bool/int (also negative and above one)/float array/"
    "scalar/one-element/None, copy, re-reflect, pickle, mutate the source, read)"
    ", all live datasets and all caller arrays verified after every history",
    "thorough": "the same with histories of <=4 operations",
}
ASSUMPTIONS = ["oracle: a list of rows and a list of booleans"]
BLOCK = 4

RO = np.array([
    (658.0, 60.0, 10.0, 190.0), (450.0, 60.0, 20.0, 170.0), (658.0, 70.0, 30.0, 359.0), (np.nextafter(450.0, 500.0), 50.0, 40.0, 0.0),
    (450.0, 75.0, 50.0, 180.0), (900.0, 60.0, 60.0, 270.0),
])


class D:
    """one live dataset with its record"""

    def __init__(self, ds, rows, mask=None, flipped=False, meta=None):
        self.ds = ds
        self.meta = dict(meta or {})
        self.rows = np.array(rows, float).reshape(-1, 4)
        self.mask = np.ones(len(self.rows), bool) if mask is None else np.array(mask, bool)
        self.flipped = flipped


class Wd:
    def __init__(self):
        self.all = []
        self.caller = []  # (live object, snapshot)

    def keep(self, obj):
        self.caller.append((obj, copy.deepcopy(obj)))
        return obj

    @property
    def cur(self):
        return self.all[-1]


def refl(rows):
    r = np.array(rows, float).reshape(-1, 4)
    r[:, 3] = ref.reflect(r[:, 3])
    return r


def cols(rows, how):
    c = np.array(rows, float).reshape(-1, 4).T
    if how == "tuple":
        return tuple(np.array(x) for x in c)
    if how == "list":
        return [[float(v) for v in x] for x in c]
    if how == "array":
        return np.array(c)
    if how == "ints":
        return tuple([int(v) for v in x] for x in c)
    if how == "ro":
        a = np.array(c)
        a.setflags(write=False)
        return a
    if how == "cols":
        t = np.array(rows, float).reshape(-1, 4)
        return (t[:, 0], t[:, 1], t[:, 2], t[:, 3])
    raise ValueError(how)


def _ctor(how, n, reflect):
    def f(w):
        c = w.keep(cols(RO[:n], how))
        ds = DataSE(c, reflect_delta=reflect)
        rows = RO[:n]
        if how == "ints":
            rows = np.trunc(rows)
        w.all.append(D(ds, refl(rows) if reflect else rows, flipped=reflect))
    return f


CTORS = {
    "tuple6": _ctor("tuple", 6, False), "list6r": _ctor("list", 6, True), "array5": _ctor("array", 5, False),
    "ints3": _ctor("ints", 3, False), "ro4r": _ctor("ro", 4, True), "cols6r": _ctor("cols", 6, True), "one": _ctor("tuple", 1, False),
    "array1r": _ctor("array", 1, True), "cols2": _ctor("cols", 2, False), "zero": _ctor("tuple", 0, False),
}


def _empty(w):
    w.all.append(D(DataSE(), np.zeros((0, 4))))


CTORS["none"] = _empty


def _assign(how, sl):
    def f(w):
        c = w.keep(cols(RO[sl], how))
        w.cur.ds.data = c
        w.cur.rows = np.array(RO[sl])
        w.cur.mask = np.ones(len(w.cur.rows), bool)
    return f


def _mask(kind):
    def f(w):
        n = len(w.cur.rows)
        if kind == "list":
            m = [i % 2 == 0 for i in range(n)]
            w.cur.ds.mask = w.keep(m)
        elif kind == "array":
            m = np.arange(n) % 3 != 0
            w.cur.ds.mask = w.keep(m)
        elif kind == "int":
            m = (np.arange(n) % 2).astype(int)
            w.cur.ds.mask = w.keep(m)
            m = m.astype(bool)
        elif kind == "count":
            # anything that is not zero includes the point
            m = np.arange(n) % 3 * 2 - 2
            w.cur.ds.mask = w.keep(m)
            m = m.astype(bool)
        elif kind == "float":
            m = [0.0 if i % 3 == 1 else 0.5 * (i - 3.5) for i in range(n)]
            w.cur.ds.mask = m
        elif kind == "tuple":
            m = tuple(i < 2 for i in range(n))
            w.cur.ds.mask = m
        elif kind == "none":
            m = [True] * n
            w.cur.ds.mask = None
        elif kind == "true":
            m = [True] * n
            w.cur.ds.mask = True
        elif kind == "false":
            m = [False] * n
            w.cur.ds.mask = False
        elif kind == "one":
            m = [False] * n
            w.cur.ds.mask = np.array([False])
        elif kind == "from":
            # the mask of the dataset itself, inverted
            m = ~w.cur.mask
            w.cur.ds.mask = ~w.cur.ds.mask
        elif kind == "cond":
            if n:
                m = w.cur.rows[:, 0] > 500
                if w.cur.mask.all():
                    w.cur.ds.mask = w.cur.ds.wavelength > 500
                else:
                    m = w.cur.mask
            else:
                m = []
        w.cur.mask = np.array(m, bool).reshape(-1)
    return f


def _copyctor(reflect):
    def f(w):
        c = w.cur
        ds = DataSE(c.ds, reflect_delta=reflect)
        w.all.append(D(ds, refl(c.rows) if reflect else c.rows, flipped=reflect or c.flipped, meta=c.meta))
    return f


def _deep(w):
    c = w.cur
    w.all.append(D(copy.deepcopy(c.ds), c.rows, c.mask, c.flipped, c.meta))


def _pickle(w):
    c = w.cur
    w.all.append(D(pickle.loads(pickle.dumps(c.ds)), c.rows, c.mask, c.flipped, c.meta))


def _fromdata(w):
    """a new dataset from the (unmasked) columns of the current one"""
    c = w.cur
    w.all.append(D(DataSE(c.ds.data), c.rows[c.mask]))


def _fromdatar(w):
    c = w.cur
    w.all.append(D(DataSE(c.ds.data, reflect_delta=True), refl(c.rows[c.mask]), flipped=True))


def _selfassign(w):
    """reducing a dataset to its unmasked rows"""
    c = w.cur
    c.ds.data = c.ds.data
    c.rows = c.rows[c.mask]
    c.mask = np.ones(len(c.rows), bool)


def _meta(w):
    """attach something to the current dataset only"""
    k = f"key{len(w.cur.meta)}"
    w.cur.ds.metadata[k] = w.cur.meta[k] = len(w.all)


def _refused(w):
    """not four columns of the same shape: refused, nothing changes"""
    c = RO.T
    for bad in ((), (c[0],), tuple(c[:3]), (c[0], c[1], c[2], c[3][:-1]), (c[0][:2], c[1][:3], c[2][:2], c[3][:2]), (c[0], 60.0, c[2], c[3]), (c[0], c[1], c[2], "x")):
        try:
            w.cur.ds.data = bad
        except Exception:
            continue
        raise AssertionError(f"columns of different shapes were accepted: {bad!r}")
    n = len(w.cur.mask)
    for bad in ([True] * (n + 2), np.zeros(n + 3, bool), np.ones((2, n + 1), bool), [False, True] * (n + 2), np.ones(n - 1, bool) if n > 2 else np.ones(n + 2, bool)):
        try:
            w.cur.ds.mask = bad
        except Exception:
            continue
        raise AssertionError(f"a mask of {np.shape(bad)} for {n} points was accepted")


def _older(w):
    """go back to work on the oldest dataset"""
    w.all.append(w.all.pop(0))


def _scribble(w):
    """edit the caller's arrays: the dataset keeps its values"""
    for i, (obj, snap) in enumerate(w.caller):
        arrs = [obj] if isinstance(obj, np.ndarray) else (list(obj) if isinstance(obj, tuple) else [])
        for a in arrs:
            if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype == float:
                a += 1.0
            elif isinstance(a, np.ndarray) and a.flags.writeable and a.dtype == bool:
                a[...] = ~a
            elif isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind == "i":
                a[...] = a == 0
        if isinstance(obj, list) and obj and all(isinstance(x, bool) for x in obj):
            obj[:] = [not x for x in obj]
        w.caller[i] = (obj, copy.deepcopy(obj))


def _read(w):
    ds = w.cur.ds
    str(ds), repr(ds), len(ds), list(ds.unique_wavelength_data())
    for a in ds.data:
        if a.size and a.flags.writeable and not w.cur.mask.all():
            a += 0  # columns of a selection are the caller's own


OPS = {
    "assign_t3": _assign("tuple", slice(0, 3)), "assign_l6": _assign("list", slice(0, 6)), "assign_a2": _assign("array", slice(3, 5)),
    "assign_c5": _assign("cols", slice(1, 6)), "assign_0": _assign("tuple", slice(0, 0)),
    "m_list": _mask("list"), "m_array": _mask("array"), "m_int": _mask("int"), "m_count": _mask("count"), "m_float": _mask("float"), "m_tuple": _mask("tuple"), "m_none": _mask("none"),
    "m_true": _mask("true"), "m_false": _mask("false"), "m_one": _mask("one"), "m_from": _mask("from"), "m_cond": _mask("cond"),
    "copy": _copyctor(False), "copyr": _copyctor(True), "deep": _deep, "pickle": _pickle, "fromdata": _fromdata,
    "fromdatar": _fromdatar, "self": _selfassign, "older": _older, "scribble": _scribble, "read": _read, "meta": _meta,
    "refused": _refused,
}
NAMES = list(OPS)
BOUNDS["quick"] = BOUNDS["quick"].replace("over 24", f"over {len(OPS)}")


def cases(tier):
    depth = 3 if tier == "quick" else 4
    for k in range(0, depth):
        for h in itertools.product(NAMES, repeat=k):
            yield list(h)
    yield ["*"]


def verify(w, ctx, hist):
    for i, c in enumerate(w.all):
        d = dict(history=hist, dataset=i)
        sel = c.rows[c.mask]
        ds = c.ds
        got = ds.data
        ctx.check(len(got) == 4, "four columns", **d)
        for k, nm in enumerate(("wavelength", "aoi", "psi", "delta")):
            g = np.asarray(got[k])
            ctx.check(g.shape == (len(sel),) and bool(np.all(g == sel[:, k])), f"{nm} is not the selected rows", got=g, want=sel[:, k], **d)
            g2 = np.asarray(getattr(ds, nm))
            ctx.check(g2.shape == g.shape and bool(np.all(g2 == g)), f"{nm} attribute", **d)
        ctx.check(len(ds) == len(sel), "length is not the number of unmasked points", got=len(ds), want=len(sel), **d)
        m = np.asarray(ds.mask)
        ctx.check(m.shape == c.mask.shape and bool(np.all(m.astype(bool) == c.mask)), "mask", got=m, want=c.mask, **d)
        ctx.check(dict(ds.metadata) == c.meta, "metadata", got=dict(ds.metadata), want=c.meta, **d)
        # partition by wavelength
        parts = list(ds.unique_wavelength_data())
        uw = sorted(set(sel[:, 0]))
        ctx.check([float(p[0]) for p in parts] == uw, "iteration: wavelengths", got=[float(p[0]) for p in parts], want=uw, **d)
        for p, wv in zip(parts, uw):
            want = sel[sel[:, 0] == wv]
            ok = all(np.asarray(p[k]).shape == (len(want),) and np.all(np.asarray(p[k]) == want[:, k]) for k in (1, 2, 3))
            ctx.check(bool(ok), "iteration: rows of a wavelength", wavelength=wv, got=[repr(x) for x in p], want=want, **d)
    for obj, snap in w.caller:
        same = np.array_equal(np.asarray(obj, float), np.asarray(snap, float))
        ctx.check(bool(same), "the caller's data were changed", history=hist, got=obj, want=snap)
    ctx.trace()
    ctx.state(tuple((c.rows.tobytes(), c.mask.tobytes(), c.flipped) for c in w.all))
    ctx.outcome((len(w.all), len(w.cur.rows), int(w.cur.mask.sum())))


def run(case, ctx):
    if case == ["*"]:
        for c in CTORS:
            w = Wd()
            CTORS[c](w)
            verify(w, ctx, [c])
        return
    for c in CTORS:
        for last in NAMES:
            h = [c] + case + [last]
            w = Wd()
            CTORS[c](w)
            for name in h[1:]:
                OPS[name](w)
                ctx.step()
            verify(w, ctx, h)
