"""C09: tabulated materials reproduce their table."""
import glob
import itertools
import os
import pathlib

import numpy as np

from mc.core import REPO
from mc.sut import *

ID = "C09"
BOUNDS = {
    "quick": "every table of 2..5 wavelengths from 4 grids x 12 (n, k) "
    "value patterns x {ascending, descending} x 10 ways of supplying it (tuple, "
    "list, array, nested, file with 2/3 columns by str/Path), queried at, "
    "between, next to and outside the points; tables of 64, 1000 and 5000 rows; every bundled material at every "
    "tabulated wavelength and midpoint; every constant pair of an 11x8 grid",
    "thorough": "tables of 2..7 wavelengths, all patterns, more query points",
}
ASSUMPTIONS = [
    "wavelengths of a table are distinct; tables have at least two rows",
    "oracle: linear interpolation written out by bisection",
]

GRIDS = [[0.2, 0.3, 0.5, 0.8, 1.3, 2.0, 2.5], [0.25, 0.2501, 0.6, 0.6333, 0.9, 0.95, 1.0], [0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0],
         [0.300037, 0.3000418, 0.412345678, 0.6581234, 0.65812377, 1.00000001, 12.345678]]
NPAT = [
    lambda i: 1.5 + 0.1 * i, lambda i: [3.2, 1.1, 0.2, 2.2, 5.0, 1.0, 1.7][i], lambda i: 1.46,
]
KPAT = [lambda i: 0.0, lambda i: [0.0, 3.1, 0.4, 0.0, 1e-6, 2.2, 0.7][i], lambda i: [5e-7, 1e-8, 0.0, 3e-7, 2e-9, 0.0, 4e-8][i], lambda i: [0.0, 25.0, 1e-3, 60.0, 0.0, 1e-12, 9.0][i]]
FORMS = ["tuple_arr", "list_arr", "array", "nested_list", "nested_tuple", "fortran", "view", "file3", "path3", "file2", "readonly"]


def cases(tier):
    nmax = 5 if tier == "quick" else 7
    for c in itertools.product(range(len(GRIDS)), range(2, nmax + 1), range(len(NPAT)), range(len(KPAT)), ["asc", "desc"], FORMS):
        yield ["table"] + list(c)
    for i, m in enumerate(sorted(materials)):
        yield ["bundled", m]
    for n in (64, 1000, 5000):
        for form in FORMS:
            yield ["long", n, form]
    yield ["const"]
    yield ["unknown"]


def interp(x, xs, ys):
    """xs ascending"""
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    lo, hi = 0, len(xs) - 1
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if xs[mid] <= x:
            lo = mid
        else:
            hi = mid
    if x == xs[lo]:
        return ys[lo]
    t = (x - xs[lo]) / (xs[hi] - xs[lo])
    return ys[lo] * (1 - t) + ys[hi] * t


def supply(form, w, n, k, order, ctx, tag):
    """(argument for RI, objects that must not change)"""
    idx = range(len(w)) if order == "asc" else range(len(w) - 1, -1, -1)
    w, n, k = ([float(a[i]) for i in idx] for a in (w, n, k))
    if form == "tuple_arr":
        a = tuple(np.array(x) for x in (w, n, k))
        return a
    if form == "list_arr":
        return [np.array(x) for x in (w, n, k)]
    if form == "array":
        return np.array([w, n, k])
    if form == "nested_list":
        return [w, n, k]
    if form == "nested_tuple":
        return (tuple(w), tuple(n), tuple(k))
    if form == "fortran":
        return np.asfortranarray(np.array([w, n, k]))
    if form == "view":
        return np.array([w, n, k]).T.copy().T
    if form == "readonly":
        a = np.array([w, n, k])
        a.setflags(write=False)
        return a
    p = os.path.join(ctx.tmpdir(), f"tab_{form}_{tag}.csv")
    with open(p, "w", encoding="utf8") as f:
        f.write("Wavelength, µm,n,k\n" if form != "file2" else "wl,n\n")
        for a, b, c in zip(w, n, k):
            f.write(f"{a!r},{b!r}" + ("" if form == "file2" else f",{c!r}") + "\n")
    return pathlib.Path(p) if form == "path3" else p


def snapshot(a):
    if isinstance(a, (str, pathlib.PurePath)):
        return open(a, encoding="utf8").read()
    if isinstance(a, np.ndarray):
        return a.copy()
    return [np.array(x, float) for x in a]


def same(a, b):
    if isinstance(a, str):
        return a == b
    return all(np.array_equal(x, y) for x, y in zip(a, b))


def queries(w_um, tier):
    w = [x * 1000 for x in w_um]
    q = list(w)
    for a, b in zip(w, w[1:]):
        for t in (0.5, 0.25, 0.9, 1e-7, 1 - 1e-7) + ((0.1, 0.33, 0.77) if tier == "thorough" else ()):
            q.append(a + t * (b - a))
    q += [w[0] - 1, w[0] * 0.5, w[-1] + 1, w[-1] * 3, np.nextafter(w[0], 0), np.nextafter(w[-1], 1e9)]
    return q


def verify(ctx, m, w, n, k, q, exact, msg, **d):
    """w in nm ascending"""
    want = np.array([interp(x, w, n) + 1j * interp(x, w, k) for x in q])
    got = m.complex(np.array(q))
    ctx.close(got, want, msg, rtol=1e-9, atol=1e-14, **d)
    one = np.array([complex(m.complex(float(x))) for x in q])
    ctx.close(one, want, msg + " (scalar wavelength)", rtol=1e-9, atol=1e-14, **d)
    if exact:
        at = m.complex(np.array(w))
        ctx.close(at, np.array(n) + 1j * np.array(k), msg + ": not the tabulated values at the table's points", rtol=1e-11, atol=1e-14, **d)
    ctx.close(m.complex(np.array(q[::-1])), want[::-1], msg + " (other order)", rtol=1e-9, atol=1e-14, **d)


def run(case, ctx):
    if case[0] == "table":
        _, g, size, ni, ki, order, form = case
        w = GRIDS[g][:size]
        n = [NPAT[ni](i) for i in range(size)]
        k = [KPAT[ki](i) for i in range(size)]
        arg = supply(form, w, n, k, order, ctx, f"{g}{size}{ni}{ki}{order}")
        before = snapshot(arg)
        d = dict(table=[w, n, k], form=form, order=order)
        kk = [0.0] * size if form == "file2" else k
        q = queries(w, ctx.tier)
        ms = []
        for rep in range(3):
            m = RI(arg, wavelength=[658, 555.0, 700][rep]) if rep else RI(arg)
            ms.append(m)
            stem = os.path.basename(arg)[:-4] if isinstance(arg, (str, pathlib.PurePath)) else ""
            ctx.equal(m.name, stem, "name of the material", **d)
            ctx.equal(RI(arg, name="own name").name, "own name", "given name", **d)
            ctx.check(same(before, snapshot(arg)), "the caller's table was modified", build=rep, **d)
            verify(ctx, m, [x * 1000 for x in w], n, kk, q, True, "tabulated material", build=rep, **d)
            x = [658.0, 555.0, 700.0][rep]
            want = interp(x, [a * 1000 for a in w], n) + 1j * interp(x, [a * 1000 for a in w], kk)
            ctx.close(complex(m), want, "default wavelength", rtol=1e-9, **d)
            ctx.close(complex(m.complex(None)), want, "default wavelength", rtol=1e-9, **d)
        # the first one still answers the same after the others were built
        verify(ctx, ms[0], [x * 1000 for x in w], n, kk, q, True, "material built first", **d)
        ctx.step(len(q) * 3)
        ctx.trace()
        ctx.state(tuple(case[1:]))
        ctx.outcome((tuple(w), tuple(n), tuple(kk)))
    elif case[0] == "long":
        _, size, form = case
        i = np.arange(size)
        w = (0.19 + 0.00041 * i + 1e-5 * ((i * 7) % 11)).tolist()
        n = (1.5 + 0.001 * ((i * 37) % 101)).tolist()
        k = (0.01 * ((i * 53) % 97)).tolist()
        arg = supply(form, w, n, k, "desc" if size % 3 else "asc", ctx, f"long{size}")
        m = RI(arg)
        nm = [x * 1000 for x in w]
        q = nm[:: max(1, size // 200)] + [nm[-1]] + [(a + b) / 2 for a, b in list(zip(nm, nm[1:]))[:: max(1, size // 200)]]
        verify(ctx, m, nm, n, [0.0] * size if form == "file2" else k, q, True, "long table", form=form, size=size)
        ctx.step(len(q))
        ctx.trace()
        ctx.state(tuple(case))
    elif case[0] == "bundled":
        name = case[1]
        p = os.path.join(os.path.dirname(os.path.abspath(__import__("refellips").__file__)), "materials", name + ".csv")
        rows = []
        with open(p, encoding="utf8") as f:
            for i, line in enumerate(f):
                if i and line.strip():
                    v = [float(x) for x in line.split(",")]
                    rows.append((v[0], v[1], v[2] if len(v) > 2 else 0.0))
        # repeated wavelengths have no single tabulated value
        cnt = {}
        for r in rows:
            cnt[r[0]] = cnt.get(r[0], 0) + 1
        rows.sort(key=lambda r: r[0])
        w = np.array([r[0] * 1000 for r in rows])
        n = np.array([r[1] for r in rows])
        k = np.array([r[2] for r in rows])
        uniq = np.array([cnt[r[0]] == 1 for r in rows])
        for how in (lambda: load_material(name), lambda: RI(p), lambda: RI(pathlib.Path(p)), lambda: load_material(name)):
            m = how()
            ctx.equal(m.name, name, "name of a bundled material")
            ctx.close(m.complex(w[uniq]), (n + 1j * k)[uniq], "bundled material at its tabulated wavelengths", rtol=1e-10, atol=1e-14, material=name)
            midok = uniq[1:] & uniq[:-1]
            mid = ((w[1:] + w[:-1]) / 2)[midok]
            wm = ((n[1:] + n[:-1]) / 2 + 0.5j * (k[1:] + k[:-1]))[midok]
            ctx.close(m.complex(mid), wm, "bundled material between its points", rtol=1e-9, atol=1e-14, material=name)
            ctx.close(m.complex(np.array([w[0] / 2, w[-1] * 2])), np.array([n[0] + 1j * k[0], n[-1] + 1j * k[-1]]),
                      "bundled material outside its table", material=name)
            for i in range(0, len(w), max(1, len(w) // 25)):
                if uniq[i]:
                    ctx.close(complex(m.complex(float(w[i]))), complex(n[i], k[i]), "bundled material, scalar", rtol=1e-10, atol=1e-14, material=name)
        ctx.step(len(rows))
        ctx.trace()
        ctx.state(name)
        ctx.outcome(name)
    elif case[0] == "const":
        for n, k in itertools.product([0.05, 1, 1.0, 1.333, 2.5, 7, 0.0, -1.5, 12.3456789012, 1e-9, 1e4], [0, 0.0, 1e-6, 0.5, 7.2, -0.02, 1e-12, 123.456789]):
            for form in (tuple, list, np.array):
                a = form([n, k])
                m = RI(a)
                for q in (None, 200.0, 658, 5000.0, np.array([300.0, 900.0]), np.array([658.0])):
                    g = m.complex(q)
                    ctx.check(bool(np.all(g == complex(n, k))), "constant index", n=n, k=k, got=g, wavelength=repr(q))
                ctx.check(complex(m) == complex(n, k), "constant index", n=n, k=k)
                ctx.check(list(a) == [n, k], "the caller's pair was modified")
                ctx.step()
                ctx.state((n, k, form.__name__))
        ctx.trace()
    else:
        for bad in ("unobtainium", "", "SILICA", "silica.csv", "../materials/silica", "air ", "*"):
            if bad in materials:
                continue
            ctx.raises(lambda: load_material(bad), "unknown material name", exc=ValueError, name=bad)
            ctx.step()
        files = {
            os.path.basename(f)[:-4]
            for f in glob.glob(os.path.join(os.path.dirname(os.path.abspath(__import__("refellips").__file__)), "materials", "*.csv"))
        }
        ctx.equal(set(materials), files, "the list of materials is not the bundled files")
        ctx.equal(len(materials), len(files), "materials listed twice")
        ctx.raises(lambda: RI(os.path.join(ctx.tmpdir(), "nofile.csv")), "missing file")
        for bad in ((1.0,), (1, 2, 3, 4), [1.0], np.zeros((4, 5)), None, ()):
            ctx.raises(lambda: RI(bad), "unrecognised dispersion", value=repr(bad))
        ctx.trace()
        ctx.state("unknown")
