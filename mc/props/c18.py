"""C18: Woollam M2000 / CompleteEASE exports."""
import io
import itertools
import os
import pathlib

import numpy as np

from mc.sut import *
from refellips.dataSE import open_M2000file

ID = "C18"
BOUNDS = {
    "quick": "single measurements of 1..12, 40, 200 points x every dropdatapoints "
    "1..n+1 x 4 sources x 2 newline forms x with/without final newline x 1..4 "
    "metadata entries; every time sequence of 1..5 rows over 3 times x "
    "take_every 1..4 x dropdatapoints 1..3; 84 Psi/Delta pairs x 4 wavelength/angle "
    "extremes x 5 starting times x 12 header sizes; 27 header values; 1025 and 3001 points; regular series of 1..6 times x "
    "1..6 points x every take_every/dropdatapoints up to 7; 8 foreign kinds",
    "thorough": "as quick with points 1..40, time sequences of <=7 rows over 3 and <=5 over 4 times, series up to 12 x 8",
}
ASSUMPTIONS = ["time stamps at least 0.1 s apart, at least one header entry, at least one data row"]
BLOCK = 2

META = [("EllipsometerType", "4"), ("CompleteEASE", "3.65"), ("AcqTime", "30.013"), ("Sample", "a b c"), ("AcqTimeStamp", "-1.5e-07"), ("ellipsometertype", "x"),
        ("Operator Name", "J. Doe (lab)"), ("Angle.Offset_2", "0"), ("EllipsometerType2", "5"), ("Zone#", "True"), ("Padded ", " a  b "), ("Comment", "")]


def data(n, k0=0):
    out = []
    for k in range(k0, k0 + n):
        out.append((round(370.324 + 1.593 * (k % 11), 3), [70.0, 65.0, 70.0, 75.5][k % 4], round(0.0225 + 3.77 * k % 89, 4),
                    round((-90 if k % 5 == 4 else 0) + (121.5848 + 47.13 * k) % 270, 4)))
    return out


HVAL = ["0", "0.0", "1.0", "10", "1.", "100", "-1.0", "00", "1e5", "None", "nan", "True", "a.", "a:b", "a;b", "a,b", "a-b", "a  b", "\tb", "[x]", "{x}", "(x)",
        "C:\\data\\f.SE", "12/05/2021 10:31:00", "\u00b5m", '"q"', "y" * 300]


def meta(n):
    return META[:n] if isinstance(n, int) else n


def head(nmeta):
    return "VASEmethod[" + ", ".join(f"{k}={v}" for k, v in meta(nmeta)) + "]"


def single_text(rows, nmeta, nl, end):
    lines = ["", head(nmeta), "nm"]
    for i, (w, a, p, d) in enumerate(rows):
        lines.append(f"{w:.3f}\t{a:.3f}\t{p:.4f}\t{d:.4f}\t0.0140\t0.0318\t")
        lines.append(f"dPolE\t{w:.3f}\t0.000\t{-5.2834 + i:.4f}\t1.0000")
        lines.append(f"uR\t{w:.3f}\t0.000\t{0.65 + i:.4f}\t1.0000")
    return nl.join(lines) + (nl if end else "")


def dyn_text(rows, nmeta, nl, end):
    lines = ["", head(nmeta), "Dynamic", "nm"]
    for w, a, p, d, t in rows:
        lines.append(f"{w:.3f}\t{a:.3f}\t{p:.4f}\t{d:.4f}\t0.0988\t0.2195\t\t{t:.4f}")
    return nl.join(lines) + (nl if end else "")


def load(ctx, text, src, **kw):
    p = os.path.join(ctx.tmpdir(), "m2000.dat")
    with open(p, "w", newline="") as f:
        f.write(text)
    if src == "str":
        r = open_M2000file(p, **kw)
    elif src == "path":
        r = open_M2000file(pathlib.Path(p), **kw)
    elif src == "handle":
        with open(p) as f:
            r = open_M2000file(f, **kw)
    else:
        r = open_M2000file(io.StringIO(text.replace("\r\n", "\n")), **kw)
    ctx.step()
    return r


def same(ctx, ds, rows, nmeta, **d):
    ctx.check(isinstance(ds, DataSE), "dataset", got=type(ds).__name__, **d)
    want = np.array([r[:4] for r in rows], float).T
    got = np.array([np.asarray(v, float) for v in ds.data])
    ctx.check(got.shape == want.shape, "number of points", got=got.shape, want=want.shape, **d)
    ctx.close(got, want, "rows", rtol=1e-13, atol=1e-13, **d)
    ctx.check(len(ds) == len(rows), "length", **d)
    ctx.equal(dict(ds.metadata), dict(meta(nmeta)), "metadata", **d)
    ctx.state(got.tobytes())


def cases(tier):
    q = tier == "quick"
    for n in (list(range(1, 13)) + [40, 200] if q else list(range(1, 41)) + [200, 400]):
        for src in ("str", "path", "handle", "buffer"):
            yield ["single", n, src]
    for n in (1025, 3001):
        yield ["large", n]
    yield ["values"]
    yield ["header"]
    for nt, n in ((3, 5),) if q else ((3, 7), (4, 5)):
        for k in range(1, n + 1):
            if k <= 2:
                yield ["times", nt, k, []]
            else:
                for f in itertools.product(range(nt), repeat=2):
                    yield ["times", nt, k, list(f)]
    for nt in range(1, 7 if q else 13):
        for npt in range(1, 7 if q else 9):
            yield ["series", nt, npt]
    for src in ("str", "path", "handle", "buffer"):
        yield ["source", src]
    yield ["foreign"]


TIMES = [0.0232, 0.0396, 0.2756, 12.5]


def dyn_check(ctx, got, rows, nmeta, every, drop, **d):
    ctx.check(isinstance(got, dict), "time series is a dict", got=type(got).__name__, **d)
    times = sorted({r[4] for r in rows})[::every]
    keys = list(got.keys())
    want = [round(t * 60, 1) for t in times]
    ctx.check(len(keys) == len(want), "number of times", got=keys, want=want, **d)
    # a time half way between two tenths may go to either
    want = [round(k, 1) if abs(k - t * 60) <= 0.05 + 1e-9 * (1 + t) else w for k, t, w in zip(keys, times, want)]
    ctx.close(np.array(keys, float), want, "keys in seconds, ascending", rtol=1e-12, **d)
    ctx.check(keys == sorted(keys), "keys ascend", got=keys, **d)
    for t, w in zip(times, want):
        ctx.check(w in got, "lookup by seconds", got=keys, want=w, **d)
        same(ctx, got[w], [r for r in rows if r[4] == t][::drop], nmeta, at=w, **d)
    # datasets do not share their metadata or arrays
    if len(keys) > 1:
        a, b = got[keys[0]], got[keys[1]]
        ctx.check(a is not b and a.metadata is not b.metadata, "datasets share metadata", **d)
        before = [np.array(v) for v in b.data]
        a.mask = False
        ctx.check(len(a) == 0 and len(b) == len(before[0]), "masking one time changes another", **d)
    ctx.outcome((len(keys), tuple(len(got[k]) for k in keys)))


def run(case, ctx):
    kind = case[0]
    if kind == "single":
        _, n, src = case
        rows = data(n)
        drops = list(range(1, n + 2)) if n <= 40 else [1, 2, 3, 7, n - 1, n]
        for drop in drops:
            for nl, end, nmeta in itertools.product(("\n", "\r\n"), (True, False), (1, 2, 3, 4)):
                if drop > 3 and (nmeta != 3):
                    continue
                text = single_text(rows, nmeta, nl, end)
                kw = {} if drop == 1 else dict(dropdatapoints=drop)
                if nmeta == 2:
                    kw["take_every"] = 2  # only for time series
                ds = load(ctx, text, src, **kw)
                same(ctx, ds, rows[::drop], nmeta, points=n, drop=drop, source=src, nl=nl, end=end, entries=nmeta)
        ctx.trace()
    elif kind == "large":
        n = case[1]
        rows = [(round(193.0 + 0.5 * k, 3), [55.0, 65.0, 75.0][k % 3], round(k * 0.017 % 90, 4), round(k * 0.11 % 360 - 90, 4)) for k in range(n)]
        for drop in (1, 2, 1000):
            same(ctx, load(ctx, single_text(rows, 3, "\n", True), "str", dropdatapoints=drop), rows[::drop], 3, points=n, drop=drop)
        ser = [r + (round(0.0163 + 0.0997 * (k // 3), 4),) for k, r in enumerate(rows)]
        for every, drop in ((1, 1), (7, 2), (300, 1)):
            got = load(ctx, dyn_text(ser, 2, "\n", True), "buffer", take_every=every, dropdatapoints=drop)
            dyn_check(ctx, got, ser, 2, every, drop, points=n, take_every=every, n_drop=drop)
        ctx.trace()
    elif kind == "values":
        # numbers of any magnitude and sign come through; any header entry too
        V = [0.0, -0.0001, 0.0001, 12.3456, 89.9999, 90.0, -89.9999, 179.9999, 180.0, 180.0001, 269.9999, 270.0, 359.9999, -90.0]
        for i, (psi, delta) in enumerate(itertools.product(V[:6], V)):
            rows = [(w, a, psi, delta) for w, a in ((193.0, 0.0), (658.123, 45.0), (1689.994, 89.999), (12000.5, -70.0))]
            nmeta = i % len(META) + 1
            same(ctx, load(ctx, single_text(rows, nmeta, "\n", True), "buffer"), rows, nmeta, psi=psi, delta=delta)
            for t0 in (0.0, 0.0016, 599.9984, 1440.0, 99999.9):
                ser = [r + (round(t0 + 0.5 * k, 4),) for k in (0, 1) for r in rows]
                dyn_check(ctx, load(ctx, dyn_text(ser, nmeta, "\n", True), "buffer"), ser, nmeta, 1, 1, psi=psi, delta=delta, start=t0)
        ctx.trace()
    elif kind == "header":
        # any header value comes through as it is written
        rows = data(3)
        for i, v in enumerate(HVAL):
            for m in ([("Key", v)], [("A", v), ("B", "1")], [("A", "1"), ("B", v)], [("A", v), ("B", HVAL[(i + 5) % len(HVAL)]), ("C", v)]):
                same(ctx, load(ctx, single_text(rows, m, "\n", True), "buffer"), rows, m, header=v)
                ser = [r + (t,) for t in TIMES[:2] for r in rows]
                dyn_check(ctx, load(ctx, dyn_text(ser, m, "\n", True), "buffer"), ser, m, 1, 1, header=v)
        ctx.trace()
    elif kind == "times":
        _, nt, k, first = case
        for rest in itertools.product(range(nt), repeat=k - len(first)):
            seq = first + list(rest)
            base = data(k)
            rows = [b + (TIMES[t],) for b, t in zip(base, seq)]
            text = dyn_text(rows, 3, "\r\n", True)
            for every, drop in itertools.product((1, 2, 3, 4), (1, 2, 3)):
                if every > len(set(seq)) + 1:
                    continue
                got = load(ctx, text, "str", take_every=every, dropdatapoints=drop)
                dyn_check(ctx, got, rows, 3, every, drop, sequence=seq, take_every=every, n_drop=drop)
            ctx.trace()
    elif kind == "series":
        _, nt, npt = case
        rows = []
        for t in range(nt):
            tm = round(0.0163 + 0.0997 * t, 4)
            rows += [r + (tm,) for r in data(npt, 3 * t)]
        text = dyn_text(rows, 2, "\n", False)
        for every in range(1, nt + 2):
            for drop in range(1, npt + 2):
                got = load(ctx, text, "buffer" if drop % 2 else "handle", take_every=every, dropdatapoints=drop)
                dyn_check(ctx, got, rows, 2, every, drop, times=nt, points=npt, take_every=every, n_drop=drop)
        ctx.trace()
    elif kind == "source":
        _, src = case
        rows = [r + (t,) for t in TIMES for r in data(4)]
        for nl, end, nmeta in itertools.product(("\n", "\r\n"), (True, False), (1, 2, 3, 4)):
            got = load(ctx, dyn_text(rows, nmeta, nl, end), src)
            dyn_check(ctx, got, rows, nmeta, 1, 1, source=src, nl=nl, end=end)
            # loading again gives the same
            got = load(ctx, dyn_text(rows, nmeta, nl, end), src, take_every=2)
            dyn_check(ctx, got, rows, nmeta, 2, 1, source=src, nl=nl, end=end)
        ctx.trace()
    else:
        for second in ("Mapping", "eV", "", "NM", "dynamic", "nm ", "Retardance", "Dynamic nm"):
            lines = ["", head(3), second, "nm"] + ["370.324\t70.000\t30.0\t121.5\t0.1\t0.2\t\t0.02"]
            for src in ("str", "path", "handle", "buffer"):
                ctx.raises(lambda: load(ctx, "\n".join(lines) + "\n", src), "foreign kind of file", kind=second, source=src)
                ctx.state((second, src))
        ctx.trace()
