"""C20: Horiba .spe files."""
import io
import itertools
import os
import pathlib

import numpy as np

from mc import ref
from mc.sut import *
from refellips.dataSE import open_HORIBAfile

ID = "C20"
BOUNDS = {
    "quick": "every order of 4 blocks (data, angle, two others with 0..3 lines each), data "
    "blocks of 1..6 (also 101, 1025, 3000) rows x 4 column layouts x {str, Path, handle, buffer} x {reflected or "
    "not}; every pair of wavelength limits from 13 values (below, at, between and above the "
    "data) for 5 row orders; 6 angles; newline forms, preamble and missing final blank line; 30 metadata lines alone, in pairs and triples",
    "thorough": "as quick with 1..10 rows, every column order, all 5-block orders",
}
ASSUMPTIONS = ["blocks end with a blank line (the data block may end with the file), at least one data row",
               "the angle is in the first five characters of its line"]
BLOCK = 2

COLSETS = [
    ["nm", "Psi", "Delta"],
    ["nm", "Is", "Ic", "Psi", "Delta"],
    ["eV", "nm", "Delta", "Psi"],
    ["Delta", "Psi", "sigma", "nm"],
]


def drows(n, order="asc"):
    rows = [(round(400.0 + 12.5 * k, 2), round(10 + 7.31 * k, 4), round((130 + 77.77 * k) % 360, 4)) for k in range(n)]
    if order == "desc":
        rows = rows[::-1]
    elif order == "mixed":
        rows = rows[1::2] + rows[::2]
    elif order == "repeat":
        rows = [r for r in rows for _ in (0, 1)]
    elif order == "zigzag":
        rows = [rows[i // 2] if i % 2 == 0 else rows[-1 - i // 2] for i in range(n)]
    return rows


def data_block(rows, cols):
    lines = [" ".join(cols)]
    for i, (w, p, d) in enumerate(rows):
        v = {"nm": f"{w}", "Psi": f"{p}", "Delta": f"{d}", "Is": f"{0.1 * i:.3f}", "Ic": "-0.25", "eV": f"{1239.84 / w:.4f}", "sigma": "1"}
        lines.append(" ".join(v[c] for c in cols))
    return lines


def render(blocks, nl="\n", pre=(), last_blank=True):
    out = list(pre)
    for i, (label, lines) in enumerate(blocks):
        out.append(f"# {label}:")
        out += lines
        if last_blank or i + 1 < len(blocks):
            out.append("")
    return nl.join(out) + nl


OTHER = {
    "a": ("SAMPLE NAME", []), "b": ("SAMPLE NAME", ["brush 12"]), "c": ("COMMENT LINE", ["one", "two"]),
    "d": ("DATE", ["24/06/2021", "10:31:00", "x = 1.0"]), "e": ("MONOCHROMATOR 1", ["Spot 1\u00d71 \u00b5m"]),
    "f": ("ACQUISITION ROUTINE", []), "g": ("ZONES", ["1.00", "1.00"]), "h": ("NOTES", ["x", "x", "x"]),
}


def meta_of(blocks):
    out = {}
    for label, lines in blocks:
        out[label] = None if not lines else lines[0] if len(lines) == 1 else list(lines)
    return out


def load(ctx, text, src, stem="spectrum", **kw):
    p = os.path.join(ctx.tmpdir(), stem + ".spe")
    with open(p, "wb") as f:
        f.write(text.encode("cp1252"))
    ctx.step()
    if src == "str":
        return open_HORIBAfile(p, **kw), p[:-4]
    if src == "path":
        return open_HORIBAfile(pathlib.Path(p), **kw), p[:-4]
    if src == "handle":
        with open(p, encoding="cp1252") as f:
            return open_HORIBAfile(f, **kw), p[:-4]
    return open_HORIBAfile(io.StringIO(text.replace("\r\n", "\n")), **kw), None


def check_ds(ctx, ds, rows, aoi, refl, meta, name, lim=None, **d):
    if lim is not None:
        rows = [r for r in rows if lim[0] < r[0] < lim[1]]
    d = dict(d, limits=lim)
    ctx.check(isinstance(ds, DataSE), "dataset", got=type(ds).__name__, **d)
    got = np.array([np.asarray(v, float) for v in ds.data])
    want = np.array([[r[0], aoi, r[1], r[2]] for r in rows]).reshape(-1, 4).T
    if refl:
        want[3] = ref.reflect(want[3])
    ctx.check(got.shape == want.shape, "number of rows", got=got, want=want, **d)
    ctx.close(got, want, "rows", rtol=1e-13, atol=1e-12, **d)
    ctx.check(len(ds) == len(rows), "length", **d)
    md = dict(ds.metadata)
    for k, v in meta.items():
        ctx.check(k in md and md[k] == v, "metadata", key=k, got=md.get(k, "missing"), want=v, **d)
    ctx.check(set(md) == set(meta), "metadata keys", got=sorted(md), want=sorted(meta), **d)
    if name is not None:
        ctx.equal(str(ds.name), name, "name", **d)
    ctx.state(got.tobytes())
    # behaves like any other dataset
    n = len(rows)
    seen = []
    for w, a, p, de in ds.unique_wavelength_data():
        for x in zip(np.full(np.size(a), w), np.atleast_1d(a), np.atleast_1d(p), np.atleast_1d(de)):
            seen.append(tuple(float(q) for q in x))
    key = sorted(map(tuple, want.T.tolist()))
    ctx.check(len(seen) == n and np.allclose(np.array(sorted(seen)).reshape(-1, 4), np.array(key).reshape(-1, 4), rtol=1e-12), "per-wavelength iteration", got=seen, **d)
    if n:
        b = io.StringIO()
        ds.save(b)
        b.seek(0)
        ctx.close(np.array(DataSE(b).data), want, "save and load", rtol=1e-13, atol=1e-12, **d)
        mask = np.arange(n) % 2 == 0
        ds.mask = mask
        ctx.close(np.array([np.asarray(v) for v in ds.data]), want[:, mask], "masked", rtol=1e-13, atol=1e-12, **d)
        objective_ok(ctx, ds, want[:, mask], refl, "in an objective", **d)
        ds.mask = None


def cases(tier):
    q = tier == "quick"
    for o1, o2 in itertools.permutations(OTHER, 2):
        if OTHER[o1][0] == OTHER[o2][0]:
            continue
        yield ["blocks", o1, o2]
    for n in range(1, 7 if q else 11):
        for c in range(len(COLSETS)):
            yield ["rows", n, c]
    for n in (101, 1025, 3000):
        yield ["large", n]
    for order in ("asc", "desc", "mixed", "repeat", "zigzag"):
        yield ["limits", order]
    yield ["angles"]
    yield ["forms"]
    yield ["meta"]
    if not q:
        for c in itertools.permutations(["nm", "Psi", "Delta", "Is"]):
            yield ["cols", list(c)]
        for o in itertools.permutations(["b", "c", "f"]):
            yield ["five", list(o)]


def run(case, ctx):
    kind = case[0]
    rows = drows(4)
    if kind == "blocks":
        _, o1, o2 = case
        base = [("DATA", data_block(rows, COLSETS[0])), ("INCIDENCE ANGLE", ["70.00"]), OTHER[o1], OTHER[o2]]
        for perm in itertools.permutations(range(4)):
            blocks = [base[i] for i in perm]
            for src, refl in (("str", False), ("path", True), ("handle", False), ("buffer", True)):
                ds, name = load(ctx, render(blocks), src, reflect_delta=refl)
                check_ds(ctx, ds, rows, 70.0, refl, meta_of(blocks), name, blocks=[b[0] for b in blocks], source=src)
            ctx.trace()
    elif kind in ("rows", "cols"):
        n, cols = (case[1], COLSETS[case[2]]) if kind == "rows" else (4, case[1])
        for order, src, refl, lastdata in itertools.product(("asc", "desc", "repeat"), ("str", "path", "handle", "buffer"), (False, True), (False, True)):
            rows = drows(n, order)
            blocks = [("DATE", ["24/06/2021"]), ("INCIDENCE ANGLE", ["65.25"]), ("DATA", data_block(rows, cols))]
            if not lastdata:
                blocks.append(("END", ["x"]))
            ds, name = load(ctx, render(blocks, last_blank=not lastdata), src, reflect_delta=refl)
            check_ds(ctx, ds, rows, 65.25, refl, meta_of(blocks), name, columns=cols, nrows=n, order=order, source=src)
            ctx.trace()
    elif kind == "large":
        for order, src in (("asc", "str"), ("zigzag", "buffer")):
            rows = [(round(300 + 0.25 * k, 2), round(k * 0.03 % 90, 4), round(k * 0.37 % 360, 4)) for k in range(case[1])]
            if order == "zigzag":
                rows = rows[::-2] + rows[::2]
            blocks = [("INCIDENCE ANGLE", ["70.00"]), ("DATA", data_block(rows, COLSETS[1])), OTHER["c"]]
            ds, name = load(ctx, render(blocks), src)
            check_ds(ctx, ds, rows, 70.0, False, meta_of(blocks), name, nrows=case[1])
            ds, name = load(ctx, render(blocks), src, lambda_cutoffs=[310.0, 321.5], reflect_delta=True)
            check_ds(ctx, ds, rows, 70.0, True, meta_of(blocks), name, [310.0, 321.5], nrows=case[1])
            ctx.trace()
    elif kind == "limits":
        rows = drows(5, case[1])
        vals = [-np.inf, 0.0, 399.99, 400.0, 400.01, 412.5, 420.0, 425.0, 437.5, 449.99, 450.0, 460.0, np.inf]
        blocks = [("INCIDENCE ANGLE", ["70.00"]), ("DATA", data_block(rows, COLSETS[1])), OTHER["c"]]
        text = render(blocks)
        for lo, hi in itertools.product(vals, vals):
            if not any(lo < r[0] < hi for r in rows):
                ctx.skip()  # an empty dataset: nothing but the length is defined
                ds, _ = load(ctx, text, "buffer", lambda_cutoffs=[lo, hi])
                ctx.check(len(ds) == 0, "rows outside the limits kept", got=ds.data, limits=[lo, hi])
                continue
            for refl in (False, True):
                lim = [lo, hi]
                ds, name = load(ctx, text, "str", lambda_cutoffs=lim, reflect_delta=refl)
                check_ds(ctx, ds, rows, 70.0, refl, meta_of(blocks), name, lim, order=case[1])
                ctx.equal(lim, [lo, hi], "the caller's limits changed")
            # a limited load leaves no trace in the next one
            ds, name = load(ctx, text, "str")
            check_ds(ctx, ds, rows, 70.0, False, meta_of(blocks), name, None, order=case[1])
            ctx.trace()
    elif kind == "angles":
        for a, v in (("70.00", 70.0), ("65.25", 65.25), ("70.00\u00b0", 70.0), ("55.00 deg", 55.0), ("7.500", 7.5), ("60", 60.0)):
            for src in ("str", "path", "handle", "buffer"):
                blocks = [("INCIDENCE ANGLE", [a]), ("DATA", data_block(rows, COLSETS[0]))]
                ds, name = load(ctx, render(blocks), src)
                check_ds(ctx, ds, rows, v, False, meta_of(blocks), name, angle=a, source=src)
                ctx.trace()
    elif kind == "forms":
        for nl, pre, last, stem, src in itertools.product(
            ("\n", "\r\n"), ((), ("",), ("HORIBA export", "")), (True, False), ("a", "two words", "with.dots.in"), ("str", "path", "handle")
        ):
            blocks = [OTHER["e"], ("INCIDENCE ANGLE", ["70.00"]), OTHER["f"], ("DATA", data_block(rows, COLSETS[1]))]
            ds, name = load(ctx, render(blocks, nl, pre, last), src, stem=stem)
            check_ds(ctx, ds, rows, 70.0, False, meta_of(blocks), name, nl=nl, preamble=pre, stem=stem, source=src)
            ctx.trace()
    elif kind == "meta":
        # any text line is kept as it is
        L = ["0", "0.0", "1.0", "1.", "None", "nan", "a.", "a:", "a;", "a,", "-", "=", "x = 1.0", "12/05/2021", "10:31:00", "a\tb", "a  b", "(1)", '"q"', "'s",
             "\u00b5m", "100 %", "A & B", "*", "True", "[]", "{}", "y" * 300, "a # b", "nm Psi Delta"]
        tails = [[x] for x in L] + [[L[i], L[(i + 7) % len(L)]] for i in range(len(L))] + [[x, x, L[-1 - i]] for i, x in enumerate(L)]
        for i, lines in enumerate(tails):
            for label in ("SAMPLE NAME", "Lot 2.5 (b)"):
                blocks = [("INCIDENCE ANGLE", ["70.00"]), (label, lines), ("DATA", data_block(rows, COLSETS[0]))]
                if i % 2:
                    blocks = blocks[::-1]
                ds, name = load(ctx, render(blocks), ("str", "path", "handle", "buffer")[i % 4])
                check_ds(ctx, ds, rows, 70.0, False, meta_of(blocks), name, metadata=lines, label=label)
                ctx.trace()
    elif kind == "five":
        base = [("DATA", data_block(rows, COLSETS[0])), ("INCIDENCE ANGLE", ["70.00"])] + [OTHER[k] for k in case[1]]
        for perm in itertools.permutations(range(5)):
            blocks = [base[i] for i in perm]
            ds, name = load(ctx, render(blocks), "str")
            check_ds(ctx, ds, rows, 70.0, False, meta_of(blocks), name, blocks=[b[0] for b in blocks])
            ctx.trace()
