"""C11: residuals and chi-squared."""
import itertools

import numpy as np

from mc import ref
from mc.samples import *
from mc.sut import *

ID = "C11"
BOUNDS = {
    "quick": "4 samples x 7 delta offsets (incl. more than one turn) x "
    "{unreflected, reflected} data x every one of the 2^6 masks, every "
    "permutation of 5 points, every whole-turn shift in {-2..2} of each data "
    "angle, 4 parameter vectors (each asked first through residuals and through "
    "chi-squared), 18 misfits from 1e-9 to 359.99999999 degrees x both signs x "
    "3 turns around the prediction, Psi misfits of up to 1e4 degrees, masked-out garbage/NaN, mask change "
    "sequences of length <= 3; every ordered pair of the masks of a 2x3 grid and of 23 similar tables on one live objective",
    "thorough": "as quick with 2^8 masks and permutations of 6 points",
}
ASSUMPTIONS = ["oracle: Airy recursion of mc/ref.py and the circular distance of the statement"]

OFFS = [0.0, 20.0, -33.3, 350.0, 725.0, -400.0, 180.0]
KINDS = ["film", "wet", "metal", "thick"]


def cases(tier):
    for kind, off, refl in itertools.product(KINDS, OFFS, (False, True)):
        for part in ("masks", "perms", "turns", "seq", "perfect", "raw"):
            yield [part, kind, off, refl]
    for refl in (False, True):
        for a in range(64):
            yield ["maskpair", "film", a, refl]
        for kind in KINDS:
            yield ["swap", kind, 0.0, refl]


def dataset(rows, refl):
    a = np.asarray(rows, float).reshape(-1, 4)
    return DataSE((a[:, 0], a[:, 1], a[:, 2], a[:, 3]), reflect_delta=refl)


def refl_rows(rows, refl):
    a = np.array(rows, float).reshape(-1, 4)
    if refl:
        a[:, 3] = ref.reflect(a[:, 3])
    return a


def same(ctx, got, want, msg, **d):
    ctx.check(np.shape(got) == np.shape(want), msg + ": shape", got=np.shape(got), want=np.shape(want), **d)
    n = len(want) // 2
    ok = bool(np.all(np.abs(got - want) <= 2e-6))
    ctx.check(ok, msg, got=got, want=want, **d)
    ctx.check(bool(np.all(got[n:] >= 0)) and bool(np.all(got[n:] <= 180 + 1e-9)), msg + ": angular distance not in [0, 180]", got=got, **d)


def check_obj(ctx, o, s, rows, refl, msg, **d):
    want = resid(s, rows, refl)
    got = o.residuals()
    same(ctx, got, want, msg, **d)
    c = o.chisqr()
    ctx.check(abs(c - np.sum(want**2)) <= 1e-4 + 1e-7 * np.sum(want**2), msg + ": chi-squared", got=c, want=np.sum(want**2), **d)
    ctx.step()
    ctx.trace()


GRID = np.array([(w, a, 10.0 + i + 3 * j, 30.0 + 47 * i + 100 * j) for i, w in enumerate((500.0, 600.0)) for j, a in enumerate((50.0, 60.0, 70.0))])


def run_pairs(ctx, part, kind, k, refl):
    """selections and tables that resemble the previous ones (same length, same wavelengths, same sums)"""
    s = Sample(kind)
    rows = refl_rows(GRID, refl)
    want = resid(s, rows, refl)
    d = dict(kind=kind, reflected=refl)
    ds = dataset(GRID, refl)
    o = ObjectiveSE(s.model, ds)
    if part == "maskpair":
        a = np.array([k >> i & 1 for i in range(6)], bool)
        for j in range(1, 64):
            b = np.array([j >> i & 1 for i in range(6)], bool)
            for m in (a, b):
                if m.any():
                    ds.mask = m
                    sel = np.r_[m, m]
                    same(ctx, o.residuals(), want[sel], "residuals after a change of mask", first=a, second=b, **d)
            ctx.check(abs(o.chisqr() - np.sum(want[sel] ** 2)) < 1e-4 + 1e-7 * np.sum(want**2), "chi-squared after a change of mask", first=a, second=b, **d)
            ctx.step(2)
            ctx.trace()
            ctx.state((part, k, j, refl))
        return
    # tables that differ from the present one in one column or one row
    alts = []
    for c, e in itertools.product(range(4), (1e-3, 5.0)):
        g = rows.copy()
        g[:, c] += e
        alts.append(g)
        g = rows.copy()
        g[2, c] += e
        alts.append(g)
    for c in range(4):
        g = rows.copy()
        g[:, c] = g[::-1, c]
        alts.append(g)
    alts += [rows[::-1].copy(), rows[:3].copy(), rows.copy()]
    for x, y in itertools.product(range(len(alts)), repeat=2):
        for i in (x, y):
            ds.data = tuple(alts[i].T)
            same(ctx, o.residuals(), resid(s, alts[i], refl), "residuals after new data", tables=[x, y], **d)
        ctx.step(2)
        ctx.trace()
        ctx.state((part, kind, refl, x, y))


def run(case, ctx):
    part, kind, off, refl = case
    if part in ("maskpair", "swap"):
        return run_pairs(ctx, *case)
    nr = 6 if ctx.tier == "quick" else 8
    rows = refl_rows(ROWS[:nr], refl)
    s = Sample(kind, offset=off)
    d = dict(kind=kind, offset=off, reflected=refl)
    vecs = [
        {}, {"t1": s.v["t1"] * 1.1}, {"A": s.v["A"] * 1.03, "t1": s.v["t1"] * 0.7}, {"t1": 0.0},
    ]
    if part == "raw":
        # columns instead of a dataset
        raw = np.array(ROWS[:nr], float)
        for n in range(1, nr + 1):
            cols = [np.array(c) for c in raw[:n].T]
            for form in (tuple(cols), tuple(c.tolist() for c in cols), list(cols)):
                o = ObjectiveSE(s.model, form)
                check_obj(ctx, o, s, raw[:n], False, "residuals of columns", points=n, **d)
                ctx.state((kind, off, refl, n, type(form).__name__, type(form[0]).__name__))
                ctx.check(all(np.array_equal(a, b) for a, b in zip(form, raw[:n].T)), "the caller's columns were changed", **d)
        return
    if part == "masks":
        ds = dataset(ROWS[:nr], refl)
        o = ObjectiveSE(s.model, ds)
        for bits in itertools.product((True, False), repeat=nr):
            ds.mask = list(bits)
            sel = rows[np.array(bits)]
            ctx.state((kind, off, refl, bits))
            if not any(bits):
                # nothing selected: nothing is misfit
                r, c = o.residuals(), o.chisqr()
                ctx.check(np.shape(r) == (0,) and c == 0, "residuals of a dataset with every point masked", got=r, chisqr=c, **d)
                continue
            check_obj(ctx, o, s, sel, refl, "residuals with a mask", mask=bits, **d)
            # masked-out points cannot matter
            g = np.array(ROWS[:nr], float)
            g[~np.array(bits), 2:] = np.nan
            ds2 = dataset(g, refl)
            ds2.mask = np.array(bits)
            check_obj(ctx, ObjectiveSE(s.model, ds2), s, sel, refl, "masked-out points have an influence", mask=bits, **d)
            if sum(bits) <= 2:
                g[~np.array(bits), :2] = (123.4, 12.0)
                ds2 = dataset(g, refl)
                ds2.mask = np.array(bits).astype(int)
                check_obj(ctx, ObjectiveSE(s.model, ds2), s, sel, refl, "masked-out points have an influence", mask=bits, **d)
        ds.mask = None
        for i, c in itertools.product(range(nr), (2, 3)):
            # an undefined measurement has an undefined misfit, the others keep theirs
            g = np.array(ROWS[:nr], float)
            g[i, c] = np.nan
            r = ObjectiveSE(s.model, dataset(g, refl)).residuals()
            want = resid(s, rows, refl)
            k = i + (nr if c == 3 else 0)
            rest = np.arange(2 * nr) != k
            ctx.check(len(r) == 2 * nr and bool(np.isnan(r[k])) and bool(np.all(np.abs(r - want)[rest] <= 2e-6)),
                      "misfit of an undefined measurement", got=r, want=want, cell=[i, c], **d)
            ctx.step()
        for v in vecs:
            vv = dict(s.v, **v)
            p = [vv["t1"], vv["A"]]
            for bits in ((True,) * nr, (True, False) * (nr // 2)):
                ds.mask = bits
                want = resid(s, rows[np.array(bits)], refl, vv)
                for first in ("residuals", "chisqr"):
                    # whichever is asked first finds other values in force
                    o.setp([s.v["t1"] * 1.37 + 5, s.v["A"] * 1.01])
                    if first == "residuals":
                        same(ctx, o.residuals(p), want, "residuals for a parameter vector", vector=p, **d)
                    c = o.chisqr(p)
                    ctx.check(abs(c - np.sum(want**2)) <= 1e-4 + 1e-7 * np.sum(want**2), "chi-squared for a vector", got=c, first=first, **d)
                    same(ctx, o.residuals(), want, "residuals after chi-squared", vector=p, **d)
                ctx.outcome(np.round(want, 3).tobytes())
    elif part == "perms":
        n = 5 if ctx.tier == "quick" else 6
        base = resid(s, rows[:n], refl)
        for perm in itertools.permutations(range(n)):
            o = ObjectiveSE(s.model, dataset(np.array(ROWS)[list(perm)], refl))
            idx = np.array(perm)
            want = np.r_[base[:n][idx], base[n:][idx]]
            same(ctx, o.residuals(), want, "reordering points does not permute the residuals", order=perm, **d)
            ctx.step()
            ctx.trace()
            ctx.state((kind, off, refl, perm))
    elif part == "turns":
        for k in itertools.product(range(-2, 3), repeat=3):
            r = np.array(ROWS[:3], float)
            turn = 360.0 * np.array(k)
            if refl:
                r[:, 3] = ref.reflect(r[:, 3])
            want = resid(s, r, refl)
            r[:, 3] += turn
            # whole turns are added after any reflection
            ds = DataSE((r[:, 0], r[:, 1], r[:, 2], r[:, 3] - turn), reflect_delta=refl)
            ds.data = tuple(r.T)
            o = ObjectiveSE(s.model, ds)
            same(ctx, o.residuals(), want, "a whole turn changes the residuals", turns=k, **d)
            ctx.step()
            ctx.trace()
            ctx.state((kind, off, refl, k))
        for k in range(-2, 3):
            s.set("off", off + 360.0 * k)
            o = ObjectiveSE(s.model, dataset(ROWS[:nr], refl))
            s2 = Sample(kind, offset=off)
            same(ctx, o.residuals(), resid(s2, rows, refl), "a whole turn in the offset changes the residuals", turns=k, **d)
            ctx.state((kind, off, refl, "off", k))
    elif part == "seq":
        # mask, data and parameter changes on one live objective
        acts = ["mask", "clear", "bcast", "data", "thick", "offset", "none"]
        for seq in itertools.product(acts, repeat=3):
            s = Sample(kind, offset=off)
            ds = dataset(ROWS[:4], refl)
            cur, sel = refl_rows(ROWS[:4], refl), np.ones(4, bool)
            o = ObjectiveSE(s.model, ds)
            for a in seq:
                if a == "mask":
                    sel = np.arange(len(cur)) % 2 == 0
                    ds.mask = sel
                elif a == "clear":
                    sel = np.ones(len(cur), bool)
                    ds.mask = None
                elif a == "bcast":
                    sel = np.ones(len(cur), bool)
                    ds.mask = True
                elif a == "data":
                    cur = refl_rows(ROWS[2:5], refl)
                    ds.data = tuple(cur.T)
                    sel = np.ones(3, bool)
                elif a == "thick":
                    s.set("t1", s.v["t1"] + 37.0)
                elif a == "offset":
                    s.set("off", s.v["off"] - 100.0)
                check_obj(ctx, o, s, cur[sel], refl, "residuals after edits", history=seq, **d)
            ctx.state((kind, off, refl, seq))
    else:
        a = np.array(ROWS)[:, :2]
        o0 = ObjectiveSE(s.model, dataset(ROWS, refl))
        psi, delta = s.model(a)
        ds = dataset(np.c_[a, psi, delta - off], refl)
        ds.data = (a[:, 0], a[:, 1], psi, delta)
        o = ObjectiveSE(s.model, ds)
        r = o.residuals()
        ctx.check(bool(np.all(np.abs(r) < 1e-9)) and o.chisqr() < 1e-15, "a perfect model has a misfit", got=r, **d)
        for k in (1, 2, 3, 5, 8):
            ds.mask = np.arange(len(a)) < k
            r = o.residuals()
            ctx.check(len(r) == 2 * k and bool(np.all(np.abs(r) < 1e-9)), "a perfect model has a misfit", got=r, **d)
        ds.mask = None
        for e in (1e-9, 3e-8, 2e-7, 3e-6, 5e-5, 7e-4, 2e-3, 0.04, 0.5, 1.0, 9.0, 89.5, 90.5, 179.999, 180.0, 180.001, 359.9999, 359.99999999):
            for sg, turn in itertools.product((1, -1), (0, 1, -1)):
                # every misfit counts, however small
                ds.data = (a[:, 0], a[:, 1], psi + sg * min(e, 30.0), delta + sg * e + 360 * turn)
                w = np.r_[np.full(len(a), -sg * min(e, 30.0)), np.full(len(a), min(e, 360 - e))]
                r = o.residuals()
                ctx.check(bool(np.all(np.abs(r - w) <= 1e-10 + 1e-12 * np.abs(w))), "a small misfit is not reported", got=r, want=w, **d)
                c = o.chisqr()
                ctx.check(abs(c - np.sum(w**2)) <= 1e-8 * np.sum(w**2) + 1e-18 + 4e-10 * np.sum(np.abs(w)), "chi-squared of a small misfit", got=c, want=np.sum(w**2), **d)
                ctx.state((kind, off, refl, "near", e, sg, turn))
                ctx.step()
        for e in (45.5, 89.9, 90.1, 135.0, 181.0, 361.0, 1e4):
            for sg in (1, -1):
                # Psi is not an angle on a circle: a nonsensical table has a large misfit
                ds.data = (a[:, 0], a[:, 1], psi + sg * e, delta)
                w = np.r_[np.full(len(a), -sg * e), np.zeros(len(a))]
                r, c = o.residuals(), o.chisqr()
                ctx.check(bool(np.all(np.abs(r - w) <= 1e-8)), "a large misfit of Psi", got=r, want=w, **d)
                ctx.check(abs(c - np.sum(w**2)) <= 1e-8 * np.sum(w**2), "chi-squared of a large misfit of Psi", got=c, want=np.sum(w**2), **d)
                ctx.step()
                ctx.state((kind, off, refl, "far", e, sg))
        ctx.trace()
        ctx.state((kind, off, refl, "perfect"))
