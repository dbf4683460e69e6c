"""C19: FilmSense files."""
import io
import itertools
import os
import pathlib

import numpy as np

from mc.sut import *
from refellips.dataSE import open_FilmSenseFile

ID = "C19"
BOUNDS = {
    "quick": "Psi in 17 values of [0, 89.9] x Delta every 7.5 degrees of the circle plus "
    "6 values beside 0/180 x depolarisation {1, 0.98, 0.6} in standard files of 1..8 "
    "wavelengths; every standard file of 1..9 wavelengths x 4 led column counts x 3 sources "
    "x 2 newline forms x trailing line; every dynamic file of 1..4 wavelengths x 1..6 times x 4 "
    "time orders x 3 sources; files of up to 100 wavelengths and 601 times; every pair of 12 times; every order of 4 wavelengths; 7 foreign kinds",
    "thorough": "as quick with Psi every 1 degree and Delta every 2.5 degrees, 1..12 wavelengths, 1..12 times",
}
ASSUMPTIONS = [
    "|N| < 1 (Delta is undefined at Psi = 90, compared only for Psi > 0); N, C, S are compared to single precision",
    "dynamic rows end with a tab and a newline, as the instrument writes them",
]
BLOCK = 2
AOIS = [-70.012, 65.0, 70.0]


def ncs(psi, delta, pol):
    p, d = np.deg2rad(psi), np.deg2rad(delta)
    return np.cos(2 * p), pol * np.sin(2 * p) * np.cos(d), pol * np.sin(2 * p) * np.sin(d)


def std_text(wav, pts, aoi, led, digits, nl, tail):
    lines = ["Film_Sense_Data", f"{len(wav)}\t1\t{aoi}\t-0.002\t-0.003\t19.0913"]
    for i, w in enumerate(wav):
        lines.append("\t".join([f"{w:.2f}"] + [f"{14.32 + i + 3 * j:.2f}" for j in range(led - 1)]))
    for i, (n, c, s) in enumerate(pts):
        lines.append(f"{n:.{digits}f}\t{c:.{digits}f}\t{s:.{digits}f}\t0.99845\t{16.5071 + i:.4f}")
    if tail:
        lines.append("Model: (not saved), Date: 2024-07-19 16:35, Ver: 3.40, Temp: 29.8")
    return nl.join(lines) + nl


def dyn_text(wav, times, pts, aoi, led, digits, nl):
    lines = ["Film_Sense_Dyn_Data", f"{len(wav)}\t{len(times)}\t{aoi}\t2"]
    for i, w in enumerate(wav):
        lines.append("\t".join([f"{w:.2f}"] + [f"{14.32 + i + 3 * j:.2f}" for j in range(led - 1)]))
    lines.append("Time\t" + "".join(f"L{i}_{q}\t" for i in range(len(wav)) for q in "NCSPI"))
    for t, row in zip(times, pts):
        s = f"{t}\t"
        for i, (n, c, q) in enumerate(row):
            s += f"{n:.{digits}f}\t{c:.{digits}f}\t{q:.{digits}f}\t0.99839\t{14.1911 + i:.4f}\t"
        lines.append(s)
    return nl.join(lines) + nl


def load(ctx, text, src):
    p = os.path.join(ctx.tmpdir(), "fs.txt")
    with open(p, "w", newline="") as f:
        f.write(text)
    ctx.step()
    if src == "str":
        return open_FilmSenseFile(p)
    if src == "path":
        return open_FilmSenseFile(pathlib.Path(p))
    if src == "handle":
        with open(p) as f:
            return open_FilmSenseFile(f)
    return open_FilmSenseFile(io.StringIO(text.replace("\r\n", "\n")))


def check_ds(ctx, ds, wav, pts, aoi, digits, **d):
    ctx.check(isinstance(ds, DataSE), "dataset", got=type(ds).__name__, **d)
    w, a, psi, delta = [np.asarray(v, float) for v in ds.data]
    ctx.close(w, [round(x, 2) for x in wav], "wavelengths in file order", rtol=1e-12, **d)
    ctx.close(a, np.full(len(wav), aoi), "angle of incidence", rtol=1e-12, **d)
    ctx.check(psi.shape == w.shape and delta.shape == w.shape and len(ds) == len(wav), "number of points", **d)
    n, c, s = np.round(np.array(pts), digits).T
    ctx.check(bool(np.all((psi >= 0) & (psi <= 90))), "range of Psi", got=psi, **d)
    ctx.check(bool(np.all(np.abs(np.cos(2 * np.deg2rad(psi)) - n) < 4e-7)), "N = cos 2 Psi", got=psi, want=np.rad2deg(np.arccos(n)) / 2, **d)
    m = np.hypot(c, s)
    sel = m > 1e-4
    ctx.check(bool(np.all((delta[sel] >= 0) & (delta[sel] < 360 + 1e-9))), "range of Delta", got=delta, **d)
    err = np.abs(m[sel] * np.exp(1j * np.deg2rad(delta[sel])) - (c + 1j * s)[sel])
    ctx.check(
        bool(np.all(err < 1e-6 * np.maximum(m[sel], 1e-3))), "C, S encode Delta", got=delta,
        want=np.rad2deg(np.angle(c + 1j * s)) % 360, **d,
    )
    ctx.state((psi.tobytes(), delta.tobytes()))


def meta_std(ctx, ds, nw, aoi, **d):
    want = dict(numwvls=nw, numdatasets=1, nomAOI=aoi, AlignX=-0.002, AlignY=-0.003, AvInten=19.0913)
    ctx.equal(dict(ds.metadata), want, "metadata", **d)


def meta_dyn(ctx, ds, nw, nt, aoi, **d):
    want = dict(numwvls=nw, numdatasets=nt, nomAOI=aoi)
    got = dict(ds.metadata)
    ctx.check(all(k in got and got[k] == v for k, v in want.items()), "metadata", got=got, want=want, **d)
    ctx.check(2.0 in [v for k, v in got.items() if k not in want], "fourth header value", got=got, **d)


def grid(tier):
    if tier == "quick":
        ps = [0.0, 0.1, 1.0, 5.0, 11.13, 22.5, 30.0, 40.0, 44.9, 45.0, 45.1, 50.0, 60.0, 67.5, 80.0, 89.0, 89.9]
        ds = list(np.arange(0, 360, 7.5))
    else:
        ps = list(np.arange(0, 90, 1.0)) + [89.9, 0.1]
        ds = list(np.arange(0, 360, 2.5))
    ds += [0.01, 359.99, 179.99, 180.01, 0.5, 359.5]
    return ps, ds


def wavs(n):
    return [round(367.20 + 61.37 * i, 2) for i in range(n)]


def cases(tier):
    q = tier == "quick"
    ps, _ = grid(tier)
    for i in range(len(ps)):
        for pol in (1.0, 0.98, 0.6):
            yield ["grid", i, pol]
    for nw in range(1, 10 if q else 13):
        yield ["std", nw]
    for nw in range(1, 5 if q else 7):
        for nt in range(1, 7 if q else 13):
            yield ["dyn", nw, nt]
    for nw, nt in ((25, 3), (60, 1), (2, 150), (4, 601)):
        yield ["dyn", nw, nt]
    for nw in (16, 33, 100):
        yield ["std", nw]
    yield ["times"]
    yield ["perm"]
    yield ["foreign"]


def some(n, off=0):
    return [ncs(3 + (17.3 * (k + off)) % 83, (37.7 * (k + off) + 5) % 360, [1, 0.99, 0.7][k % 3]) for k in range(n)]


def run(case, ctx):
    kind = case[0]
    if kind == "grid":
        _, i, pol = case
        ps, dl = grid(ctx.tier)
        for j in range(0, len(dl), 8):
            chunk = dl[j : j + 8]
            pts = [ncs(ps[i], x, pol) for x in chunk]
            wav = wavs(len(chunk))
            text = std_text(wav, pts, 65.0, 7, 6, "\n", True)
            d = dict(psi=ps[i], delta=chunk, pol=pol)
            check_ds(ctx, load(ctx, text, "buffer"), wav, pts, 65.0, 6, **d)
            if j == 0:
                got = load(ctx, dyn_text(wav, [1.5], [pts], 65.0, 7, 6, "\n"), "buffer")
                check_ds(ctx, got[1.5], wav, pts, 65.0, 6, **d)
            ctx.trace()
    elif kind == "std":
        _, nw = case
        for led, src, nl, tail, aoi in itertools.product((4, 5, 7, 8), ("str", "path", "handle", "buffer"), ("\n", "\r\n"), (True, False), AOIS):
            if nw > 12 and (led != 7 or src not in ("str", "buffer")):
                continue
            wav, pts = wavs(nw), some(nw, led)
            d = dict(wavelengths=nw, led_columns=led, source=src, nl=nl, tail=tail, angle=aoi)
            ds = load(ctx, std_text(wav, pts, aoi, led, 5, nl, tail), src)
            check_ds(ctx, ds, wav, pts, aoi, 5, **d)
            meta_std(ctx, ds, nw, aoi, **d)
            ctx.trace()
    elif kind == "dyn":
        _, nw, nt = case
        asc = [round(4.953 + 9.905 * k, 3) for k in range(nt)]
        orders = {"asc": asc, "desc": asc[::-1], "mixed": asc[1::2] + asc[::2], "zero": [round(t - 4.953, 3) for t in asc]}
        for (oname, times), src, nl, led in itertools.product(orders.items(), ("str", "handle", "buffer"), ("\n", "\r\n"), (4, 7)):
            if nt * nw > 74 and (src, led) != ("str", 7):
                continue
            wav = wavs(nw)
            pts = [some(nw, 5 * k) for k in range(nt)]
            d = dict(wavelengths=nw, times=times, source=src, nl=nl, led_columns=led)
            got = load(ctx, dyn_text(wav, times, pts, -70.012, led, 5, nl), src)
            ctx.check(isinstance(got, dict), "dynamic file gives a dict", got=type(got).__name__, **d)
            ctx.equal([float(k) for k in got.keys()], times, "times in file order", **d)
            for t, p in zip(times, pts):
                check_ds(ctx, got[t], wav, p, -70.012, 5, at=t, **d)
                meta_dyn(ctx, got[t], nw, nt, -70.012, at=t, **d)
            if nt > 1:
                a, b = got[times[0]], got[times[1]]
                a.mask = False
                a.metadata["note"] = 1
                ctx.check(len(b) == nw and "note" not in b.metadata, "datasets of different times are independent", **d)
            ctx.outcome((nw, nt, oname))
            ctx.trace()
    elif kind == "times":
        T = [0, 0.001, 0.1, 0.123456, 1, 9.999, 60.0, 99.95, 3599.999, 3600.001, 86400.5, 1234567.891]
        wav = wavs(3)
        for i, j in itertools.permutations(range(len(T)), 2):
            pts = [some(3, i), some(3, j + 20)]
            got = load(ctx, dyn_text(wav, [T[i], T[j]], pts, 65.0, 7, 5, "\n"), "buffer")
            ctx.equal([float(k) for k in got.keys()], [float(T[i]), float(T[j])], "times in file order")
            for t, p in zip((T[i], T[j]), pts):
                check_ds(ctx, got[float(t)], wav, p, 65.0, 5, at=t)
        ctx.trace()
    elif kind == "perm":
        base = wavs(4)
        for perm in itertools.permutations(range(4)):
            wav = [base[i] for i in perm]
            pts = [some(4)[i] for i in perm]
            check_ds(ctx, load(ctx, std_text(wav, pts, 70.0, 7, 5, "\n", True), "str"), wav, pts, 70.0, 5, order=perm)
            got = load(ctx, dyn_text(wav, [3.0, 9.0], [pts, pts[::-1]], 70.0, 7, 5, "\n"), "str")
            check_ds(ctx, got[3.0], wav, pts, 70.0, 5, order=perm)
            check_ds(ctx, got[9.0], wav, pts[::-1], 70.0, 5, order=perm)
            ctx.trace()
    else:
        body = std_text(wavs(2), some(2), 65.0, 7, 5, "\n", True).split("\n", 1)[1]
        for first in ("Film_Sense_Map", "", "film_sense_data", "Film_Sense_Data2", "VASE", "wavelength\tAOI", "Film_Sense_Dyn"):
            for src in ("str", "handle", "buffer"):
                ctx.raises(lambda: load(ctx, first + "\n" + body, src), "unknown kind of file", exc=Exception, first=first)
                ctx.state((first, src))
        ctx.trace()
