"""C17: Accurion EP4 exports."""
import io
import itertools
import os
import pathlib

import numpy as np

from mc import ref
from mc.sut import *
from refellips.dataSE import open_EP4file

ID = "C17"
BOUNDS = {
    "quick": "layouts: {time column, position columns} x 1..3 locations x 1..3 "
    "times x 1..2 angles x 1..2 wavelengths x {1,2,4} zones x 4 row orders x "
    "5 placements of incomplete rows x {still, drifting} stage, locations far "
    "apart, on the axes, or 0.4 mm apart in one direction; every "
    "assignment of 5 rows to 2 locations x 2 times and of 4 rows to 3 x 2 "
    "(locations visited once per time); every subset of incomplete rows of an "
    "8-row file x 3 column kinds; every order of the 24/120 rows of a block; "
    "every pair/triple of replicate Delta values on a 15-value circle grid "
    "with a spread below 90; every file name (15, with 3 time stamps)/source/newline form; every order of every multiset of 2..5 "
    "replicates of 3 values; files of 1100 and 5003 rows, of 110 and 500 times",
    "thorough": "as quick with 6-row assignments (4-row to 3 x 3), 10-row "
    "incomplete subsets, 6-row orders and 4-tuples of Delta on the circle grid",
}
ASSUMPTIONS = [
    "locations at least 0.4 mm apart, stage drift within a location below 0.2 mm, each location visited once per time",
    "replicate Delta values of one angle and wavelength lie within 90 degrees of each other on the circle",
    "at least one complete row",
]
BLOCK = 2

COLS = ["#Lambda", "Bandwidth", "AOI", "Delta", "Psi", "Zone", "Amin", "Pmin", "Afix", "Pfix", "ROIidx"]
UNITS = ["#nm", "nm", "deg", "deg", "deg", "-", "deg", "deg", "deg", "deg", "-"]
STAMP = "_20240102-030405.ds.dat"
STAMPS = [STAMP, "_20200929-083122.ds.dat", "_19991231-235959.ds.dat"]
POS = [(-18.183, -30.305), (4.25, -30.305), (4.25, 11.5)]
AXES = [(0.0, 0.0), (5.0, 0.0), (0.0, -7.5)]
NEAR = [(0.2, -0.1), (0.6, -0.1), (0.6, 0.3)]
TIMES = [0.0, 7201.357, 7201.361]


def row(lam, aoi, psi, delta, zone=1, t=None, x=None, y=None, bad=None):
    return dict(lam=lam, aoi=aoi, psi=psi, delta=delta, zone=zone, t=t, x=x, y=y, bad=bad)


def render(rows, time, pos, nl="\n", extra_theta=False, end=True):
    cols, units = list(COLS), list(UNITS)
    if time:
        cols.append("Time")
        units.append("s")
    if pos:
        cols += ["X_pos", "Y_pos"]
        units += ["mm", "mm"]
    if extra_theta:
        cols.append("Theta_pos")
        units.append("deg")
    out = ["\t".join(cols), "\t".join(units)]
    for r in rows:
        f = {
            "#Lambda": f"{r['lam']:.2f}", "Bandwidth": "2.0", "AOI": f"{r['aoi']:.3f}", "Delta": f"{r['delta']:.3f}",
            "Psi": f"{r['psi']:.3f}", "Zone": str(r["zone"]), "Amin": "31.452", "Pmin": "50.186", "Afix": "31.866",
            "Pfix": "50.186", "ROIidx": "000", "Theta_pos": "0.000",
        }
        if time:
            f["Time"] = f"{r['t']:.3f}"
        if pos:
            f["X_pos"] = f"{r['x']:.3f}"
            f["Y_pos"] = f"{r['y']:.3f}"
        if r["bad"]:
            for c in r["bad"]:
                if c in f:
                    f[c] = "NaN"
        out.append("\t".join(f[c] for c in cols))
    return nl.join(out) + (nl if end else "")


# ------------------------------------------------------------------ reference
def expect(rows, time, pos):
    """[(position or None, time or None, {(aoi, lam): [rows]})] in order"""
    rows = [r for r in rows if not r["bad"]]
    times = []
    for r in rows:
        if time and r["t"] not in times:
            times.append(r["t"])
    groups = [(t, [r for r in rows if r["t"] == t]) for t in times] if len(times) > 1 else [(None, rows)]
    out = []
    for t, rs in groups:
        if pos and len({(r["x"], r["y"]) for r in rs}) > 1:
            runs = []
            for r in rs:
                if runs and abs(runs[-1][0]["x"] - r["x"]) < 0.25 and abs(runs[-1][0]["y"] - r["y"]) < 0.25:
                    runs[-1].append(r)
                else:
                    runs.append([r])
            for run in runs:
                out.append((True, t, run))
        else:
            out.append((None, t, rs))
    return out


def circ_mean(ds):
    d0 = ds[0]
    rel = [((d - d0 + 180) % 360) - 180 for d in ds]
    return (d0 + sum(rel) / len(rel)) % 360


def check_file(ctx, got, rows, time, pos, refl, stem, d):
    exp = expect(rows, time, pos)
    if len(exp) == 1:
        ctx.check(isinstance(got, DataSE), "one measurement gives one dataset", got=type(got).__name__, **d)
        got = [got]
    else:
        ctx.check(isinstance(got, (list, tuple)), "several measurements give a list", got=type(got).__name__, **d)
    ctx.check(len(got) == len(exp), "number of datasets", got=len(got), want=len(exp), **d)
    for i, (ds, (p, t, rs)) in enumerate(zip(got, exp)):
        e = dict(d, dataset=i)
        table = {}
        for r in rs:
            table.setdefault((r["aoi"], r["lam"]), []).append(r)
        keys = sorted(table)
        wav, aoi, psi, delta = [np.asarray(v, float) for v in ds.data]
        ctx.close(aoi, [k[0] for k in keys], "angles", rtol=1e-12, **e)
        ctx.close(wav, [k[1] for k in keys], "wavelengths", rtol=1e-12, **e)
        wp = [np.mean([r["psi"] for r in table[k]]) for k in keys]
        wd = np.array([circ_mean([r["delta"] for r in table[k]]) for k in keys])
        ctx.close(psi, wp, "mean Psi", rtol=1e-10, **e)
        if refl:
            wd = ref.reflect(wd)
        dd = np.abs((delta - wd + 180) % 360 - 180)
        ctx.check(
            delta.shape == wd.shape and bool(np.all(dd < 1e-8)) and bool(np.all((delta >= 0) & (delta <= (180 if refl else 360)))),
            "mean Delta", got=delta, want=wd, **e,
        )
        ctx.check(len(ds) == len(keys) and bool(np.all(ds.mask)), "length and mask", **e)
        if refl or i == 0:
            objective_ok(ctx, ds, [wav, aoi, psi, delta], refl, "in an objective", **e)
        md = ds.metadata
        if p is None:
            ctx.check(md["X pos"] is None and md["Y pos"] is None, "position of a single location", got=md, **e)
        else:
            for lab, c in (("X pos", "x"), ("Y pos", "y")):
                m1 = np.mean([np.mean([r[c] for r in table[k]]) for k in keys])
                m2 = np.mean([r[c] for r in rs])
                ctx.check(
                    abs(md[lab] - m1) <= 0.00501 + 1.01 * abs(m1 - m2), "mean position", got=md[lab], want=m1, **e
                )
        if t is None:
            ctx.check(md["time"] is None, "time of a single time", got=md["time"], **e)
        else:
            ctx.check(md["time"] is not None and abs(md["time"] - t) < 1e-9, "time", got=md["time"], want=t, **e)
        if stem is not None:
            name = stem
            if p is not None:
                name += f"_x={float(md['X pos'])}mm_y={float(md['Y pos'])}mm"
            if t is not None:
                name += f"_t={float(t)}s"
            ctx.equal(ds.name, name, "dataset name", **e)
        ctx.state((wav.tobytes(), aoi.tobytes(), psi.tobytes(), delta.tobytes(), str(md["X pos"]), str(md["time"])))
    ctx.outcome((len(exp), tuple(len(r) for _, _, r in exp)))


def load_and_check(ctx, rows, time, pos, refl=False, src="str", nl="\n", theta=False, end=True, base="15-1-1", stamp=STAMP, **d):
    text = render(rows, time, pos, nl, theta, end)
    p = os.path.join(ctx.tmpdir(), base + stamp)
    with open(p, "w", newline="") as f:
        f.write(text)
    stem = p[: -len(stamp)]
    d = dict(d, time=time, pos=pos, reflected=refl, source=src, text=text if len(text) < 2500 else text[:2500])
    if src == "str":
        got = open_EP4file(p, reflect_delta=refl)
    elif src == "path":
        got = open_EP4file(pathlib.Path(p), reflect_delta=refl)
    elif src == "handle":
        stem = None
        with open(p) as f:
            got = open_EP4file(f, reflect_delta=refl)
    else:
        stem = None
        got = open_EP4file(io.StringIO(text), reflect_delta=refl)
    check_file(ctx, got, rows, time, pos, refl, stem, d)
    os.remove(p)
    ctx.step()
    ctx.trace()
    return got


def pos_of(i, k, drift):
    x, y = {"near": NEAR, "axes": AXES}.get(drift, POS)[i]
    if drift and drift != "axes":
        # slow creep of the stage, staying within 0.2 of where it started
        return round(x + 0.007 * min(k, 9), 3), round(y - 0.012 * min(k, 9), 3)
    return x, y


def layout(nloc, ntime, naoi, nwav, zones, order, bad, drift):
    aois = [50.0, 50.07, 61.0][:naoi]
    lams = [658.0, 657.96, 532.0][:nwav]
    rows = []
    blocks = [(t, i) for t in range(ntime) for i in range(nloc)]
    if order == "locmajor":
        blocks = [(t, i) for i in range(nloc) for t in range(ntime)]
    n = 0
    for t, i in blocks:
        pts = [(a, l, z) for a in aois for l in lams for z in range(zones)]
        if order == "reversed":
            pts = pts[::-1]
        elif order == "zones":
            pts = [(a, l, z) for z in range(zones) for l in lams for a in aois]
        for k, (a, l, z) in enumerate(pts):
            n += 1
            x, y = pos_of(i, k, drift)
            b = None
            if bad == "first" and k == 0 and len(pts) > 1:
                b = ["Delta", "Psi"]
            elif bad == "middle" and len(pts) > 2 and k == len(pts) // 2:
                b = ["Amin"]
            elif bad == "pos" and len(pts) > 1 and k == 1:
                b = ["X_pos"] if n % 2 else ["Psi"]
            rows.append(row(l, a, round(10 + 3.137 * i + 7.11 * t + 0.613 * k, 3),
                            round((140 + 61.7 * i + 97.3 * t + 11.3 * aois.index(a) + 23.1 * lams.index(l) + 2.41 * z) % 360, 3),
                            z + 1, TIMES[t], x, y, b))
        if bad == "summary":
            for a in aois:
                x, y = pos_of(i, len(pts), drift)
                rows.append(row(lams[0], a, 0.1, 0.2, 5, TIMES[t], x, y, ["Amin", "Pmin", "Afix", "Pfix"]))
    return rows


ORD = ["timemajor", "locmajor", "reversed", "zones"]
BAD = ["none", "summary", "first", "middle", "pos"]
CIRCLE = [0.0, 0.5, 10.0, 44.75, 89.0, 135.0, 179.0, 180.0, 181.5, 225.0, 270.0, 300.0, 330.0, 359.0, 359.999]


def cases(tier):
    for time, pos in itertools.product((False, True), repeat=2):
        for nloc in (1, 2, 3):
            if nloc > 1 and not pos:
                continue
            for ntime in (1, 2, 3):
                if ntime > 1 and not time:
                    continue
                for drift in (False, True, "near", "axes"):
                    if drift and not pos:
                        continue
                    yield ["layout", time, pos, nloc, ntime, drift]
    nrow = 5 if tier == "quick" else 6
    for first in itertools.product(range(4), repeat=2):
        yield ["assign", 2, 2, nrow, list(first)]
    for first in itertools.product(range(6), repeat=2):
        yield ["assign", 3, 2, 4, list(first)]
    if tier != "quick":
        for first in itertools.product(range(9), repeat=2):
            yield ["assign", 3, 3, 4, list(first)]
    n = 8 if tier == "quick" else 10
    for kind in ("Amin", "Psi", "X_pos"):
        for lo in range(0, 2**n, 32):
            yield ["subset", kind, n, lo]
    for k in (4, 5) if tier == "quick" else (4, 5, 6):
        for first in range(k):
            yield ["order", k, first]
    for i in range(len(CIRCLE)):
        yield ["circle", i, 3 if tier == "quick" else 4]
    for n in (2, 3, 4, 5):
        yield ["dups", n]
    for n in (1100, 5003):
        yield ["large", n]
    for src in ("str", "path", "handle", "buffer"):
        for nl in ("\n", "\r\n"):
            yield ["source", src, nl]


def run(case, ctx):
    kind = case[0]
    if kind == "layout":
        _, time, pos, nloc, ntime, drift = case
        for naoi, nwav, zones in itertools.product((1, 2), (1, 2), (1, 2, 4)):
            for order, bad in itertools.product(ORD, BAD):
                rows = layout(nloc, ntime, naoi, nwav, zones, order, bad, drift)
                if bad == "pos" and not pos:
                    continue
                load_and_check(ctx, rows, time, pos, refl=(zones == 2), theta=(naoi == 2 and pos),
                               layout=[nloc, ntime, naoi, nwav, zones, order, bad, drift])
    elif kind == "assign":
        _, nloc, ntime, n, first = case
        cells = [(i, t) for i in range(nloc) for t in range(ntime)]
        for rest in itertools.product(range(len(cells)), repeat=n - 2):
            seq = [cells[j] for j in first + list(rest)]
            # a location revisited within one time is outside the domain
            ok = True
            for t in range(ntime):
                locs = [i for i, tt in seq if tt == t]
                runs = [k for k, _ in itertools.groupby(locs)]
                ok = ok and len(runs) == len(set(runs))
            if not ok:
                ctx.skip()
                continue
            rows = []
            for k, (i, t) in enumerate(seq):
                x, y = POS[i]
                rows.append(row(658.0 if k % 3 else 451.5, 50.0 + 5 * (k % 2), 20 + 1.37 * k + i, 100 + 9.3 * k + 40 * t, 1, TIMES[t], x, y))
            load_and_check(ctx, rows, True, True, sequence=seq)
    elif kind == "subset":
        _, col, n, lo = case
        for bits in range(lo, lo + 32):
            rows = []
            for k in range(n):
                i = (k * 2) // n
                x, y = POS[i]
                bad = [col] if bits >> k & 1 else None
                rows.append(row(658.0 if (k // 2) % 2 else 532.0, 50.0, 20 + 1.3 * k, (340 + 13.7 * k) % 360, k % 2 + 1, 2.927, x, y, bad))
            if all(r["bad"] for r in rows):
                ctx.skip()
                continue
            load_and_check(ctx, rows, bool(bits % 3 == 0), True, subset=bits, column=col)
    elif kind == "order":
        _, k, first = case
        base = [row([658.0, 451.5][j % 2], [50.0, 60.0][(j // 2) % 2], 12.5 + 2.1 * j, [350.0, 7.0, 3.0, 181.0, 12.0, 330.0][j], 1, 5.0, *POS[0])
                for j in range(k)]
        others = [j for j in range(k) if j != first]
        for perm in itertools.permutations(others):
            load_and_check(ctx, [base[j] for j in (first,) + perm], False, False, refl=True, order=perm)
    elif kind == "circle":
        _, i, depth = case
        for m in range(0, depth):
            for rest in itertools.product(CIRCLE, repeat=m):
                ds = (CIRCLE[i],) + rest
                spread = max(abs(((a - b + 180) % 360) - 180) for a in ds for b in ds)
                if spread >= 89.5:
                    ctx.skip()
                    continue
                if depth == 4 and m == 3 and list(rest) != sorted(rest):
                    continue
                rows = [row(658.0, 50.0, 30.0 + j, d, j % 4 + 1, 2.9, *POS[0]) for j, d in enumerate(ds)]
                rows.append(row(700.0, 50.0, 44.0, 222.0, 1, 2.9, *POS[0]))
                load_and_check(ctx, rows, False, False, refl=False, delta=ds)
                if m <= 1:
                    load_and_check(ctx, rows, True, True, refl=True, delta=ds)
    elif kind == "dups":
        # replicates count as often as they occur, even if they are equal
        vals = [(20.0, 100.0), (26.5, 101.5), (29.0, 99.25)]
        for c in itertools.combinations_with_replacement(range(3), case[1]):
            for perm in sorted(set(itertools.permutations(c))):
                rows = [row(658.0, 50.0, *vals[j], 1, 2.9, *POS[0]) for j in perm]
                rows.insert(len(rows) // 2, row(532.0, 50.0, *vals[0], 1, 2.9, *POS[0]))
                load_and_check(ctx, rows, False, False, replicates=perm)
                if case[1] <= 4:
                    rows += [dict(r, t=9.5) for r in rows]
                    load_and_check(ctx, rows, True, True, refl=True, replicates=perm)
    elif kind == "large":
        n = case[1]
        rows = [row(400.0 + 0.25 * (k // 2), 55.0 + 5 * (k % 2), round(10 + 0.01 * k, 3), round((5 + 0.05 * k) % 360, 3), 1, 3.0, *POS[0]) for k in range(n)]
        load_and_check(ctx, rows, False, False, nrows=n)
        rows = [row(658.0, 55.0, round(10 + 0.01 * k, 3), round((5 + 0.05 * k) % 360, 3), 1, 2.5 * k, *POS[0]) for k in range(n // 10)]
        load_and_check(ctx, rows, True, True, ntimes=n // 10)
    elif kind == "source":
        _, src, nl = case
        for base in ("a", "19-1-1", "sample with blank", "dots.in.name", "x" * 40, "run_2021_b", "2_20", "a_20240102-030405", "b.ds.dat",
                     "c.ds", "x=1mm_t=2s", "_", "-", "A_B_C", "\u00e9t\u00e9"):
            if len(base) <= 2 or base.startswith(("run", "2_", "a_2", "b.", "c.", "x=", "A_", "\u00e9")):
                for ntime, stamp in itertools.product((1, 2), STAMPS):
                    rows = layout(1, ntime, 1, 2, 2, "timemajor", "none", False)
                    load_and_check(ctx, rows, True, True, src=src, nl=nl, base=base, stamp=stamp)
                if base != "a":
                    continue
            for end in (True, False):
                for nloc, ntime, refl in itertools.product((1, 2), (1, 2), (False, True)):
                    rows = layout(nloc, ntime, 2, 2, 2, "timemajor", "summary", True)
                    load_and_check(ctx, rows, True, True, refl=refl, src=src, nl=nl, end=end, base=base)
