"""C16: saving, loading and refreshing datasets."""
import copy
import io
import itertools
import os
import pathlib
import pickle

import numpy as np

from mc import ref
from mc.sut import *

ID = "C16"
BOUNDS = {
    "quick": "save/load through {str path, Path, text handle, StringIO} x {same} "
    "x 1..12 and 100, 300 (also 1025 .. 70001 through like ends) rows of hard-to-print doubles x {unreflected, "
    "reflected} x masks; every header length 0..99 x 6 header styles x 4 "
    "delimiters x {path, handle, buffer}; every refresh history of <=4 "
    "operations over 11 for 5 kinds of source (three delimiters; <=3 for Path and other delimiters) x 2 conventions",
    "thorough": "as quick with all row counts 1..120 and refresh histories of <=5",
}
ASSUMPTIONS = ["header lines do not start with a number; at least one data row"]
BLOCK = 4

HARD = [
    1 / 3, 0.1 + 0.2, 1e-300, 123456.78901234567, 179.99999999999997, 180.00000000000003, 359.9999999999999, 2.0**-40,
    658.0, 1e22, 5e-324, np.pi, -0.0, -12.5, 1.7976931348623157e308, 90.0,
]


def rows(n, off=0):
    a = np.empty((n, 4))
    for i in range(n):
        for j in range(4):
            k = i * 4 + j + off
            a[i, j] = HARD[k % len(HARD)] if (i + j) % 2 == 0 else 400.0 + 0.1 * k + 1 / (k + 3)
    return a


def nice(n, off=0):
    k = np.arange(n) + off
    return np.c_[400.0 + 7 * (k % 5), 50.0 + 5 * (k % 4), 10 + 0.123 * k, (37.7 * k) % 360]


SINKS = ["str", "path", "handle", "buffer"]
STYLES = ["text", "hash", "blank", "mixed", "tabs", "digit"]


def header(style, n):
    out = []
    for i in range(n):
        if style == "text":
            out.append("wavelength AOI psi delta")
        elif style == "hash":
            out.append(f"# comment {i} 12.0")
        elif style == "blank":
            out.append("")
        elif style == "digit":
            # starts with digits without being a number
            out.append(["24/06/2021 10:31", "3samples", "10:31:00", "1.5.2", "2nd run", "-", "+1x", "658nm"][i % 8])
        elif style == "tabs":
            out.append("label\t1.0\t2.0\t3.0")
        else:
            out.append(["Sample: x", "", "#note", "nm\tdeg\tdeg\tdeg", "a,b;c d"][i % 5])
    return out


def cases(tier):
    sizes = list(range(1, 13)) + [100, 300] if tier == "quick" else list(range(1, 121)) + [300, 2000]
    for n in sizes:
        for sink, src in itertools.product(SINKS, SINKS):
            yield ["save", n, sink, src]
    for n in (1025, 4097, 10001, 32769, 70001):
        for k in SINKS:
            yield ["save", n, k, k]
    for style in STYLES:
        for delim in ("\t", ",", ";", " "):
            for src in ("str", "handle", "buffer"):
                yield ["header", style, delim, src]
    depth = 4 if tier == "quick" else 5
    for src in ("str", "path", "handle", "comma", "semi"):
        for refl in (False, True):
            for k in range(0, depth):
                for h in itertools.product(range(len(RNAMES)), repeat=k):
                    if k >= 3 and tier == "quick" and src in ("path", "comma", "semi"):
                        continue
                    yield ["refresh", src, refl, list(h)]


def bits(a):
    return np.ascontiguousarray(a, dtype=float).tobytes()


def same_table(ctx, ds, want, msg, mask=None, **d):
    want = np.asarray(want, float).reshape(-1, 4)
    got = np.array([np.asarray(x) for x in ds.data])
    ctx.check(got.shape == (4, len(want)), msg + ": number of rows", got=got.shape, want=want.shape, **d)
    ctx.check(bits(got.T) == bits(want), msg + ": values", got=got.T[:6], want=want[:6], **d)
    ctx.check(len(ds) == len(want), msg + ": length", **d)
    m = np.asarray(ds.mask)
    ctx.check(m.shape == (len(want),) and bool(m.all()), msg + ": mask", got=m, **d)


def run_save(ctx, n, sink, src):
    tmp = ctx.tmpdir()
    p = os.path.join(tmp, f"save_{os.getpid()}.txt")
    a = rows(n)
    for refl, mask in itertools.product((False, True), ("none", "half")):
        if refl:
            a = nice(n)
        ds = DataSE(tuple(a.T), reflect_delta=refl)
        want = a.copy()
        if refl:
            want[:, 3] = ref.reflect(want[:, 3])
        if mask == "half" and n > 1:
            ds.mask = np.arange(n) % 2 == 0
        buf = io.StringIO()
        if sink == "str":
            ds.save(p)
        elif sink == "path":
            ds.save(pathlib.Path(p))
        elif sink == "handle":
            with open(p, "w") as f:
                ds.save(f)
        else:
            ds.save(buf)
        text = buf.getvalue() if sink == "buffer" else open(p).read()
        d = dict(rows=n, sink=sink, source=src, reflected=refl, mask=mask)
        ctx.check(len(ds) == (n if mask == "none" or n == 1 else (n + 1) // 2), "saving changed the dataset", **d)
        if sink == "buffer":
            with open(p, "w") as f:
                f.write(text)

        def load():
            if src == "str":
                return DataSE(p)
            if src == "path":
                return DataSE(pathlib.Path(p))
            if src == "handle":
                with open(p) as f:
                    return DataSE(f)
            return DataSE(io.StringIO(text))

        back = load()
        same_table(ctx, back, want, "save and load", **d)
        # load() into an existing, different dataset
        other = DataSE(tuple(nice(5).T))
        other.mask = np.arange(5) < 2
        other.load(p if src != "buffer" else io.StringIO(text))
        same_table(ctx, other, want, "load into an existing dataset", **d)
        # twice around
        b2 = io.StringIO()
        back.save(b2)
        same_table(ctx, DataSE(io.StringIO(b2.getvalue())), want, "second round trip", **d)
        ctx.step(4)
        ctx.trace()
        ctx.state((n, sink, src, refl, mask))
        ctx.outcome(n)


def run_header(ctx, style, delim, src):
    p = os.path.join(ctx.tmpdir(), f"head_{os.getpid()}.txt")
    for n in range(0, 100):
        for nrow in (1, 2, 5):
            a = nice(nrow, n)
            lines = header(style, n) + [delim.join(repr(float(x)) for x in r) for r in a]
            if delim == " " and style == "mixed":
                pass
            text = "\n".join(lines) + ("\n" if n % 2 else "")
            with open(p, "w") as f:
                f.write(text)
            d = dict(header_lines=n, style=style, delimiter=delim, source=src, rows=nrow)
            if src == "str":
                ds = DataSE(p, delimiter=delim)
            elif src == "handle":
                with open(p) as f:
                    ds = DataSE(f, delimiter=delim)
            else:
                ds = DataSE(io.StringIO(text), delimiter=delim)
            same_table(ctx, ds, a, "file with header lines", **d)
            ctx.step()
            ctx.state((style, delim, src, n, nrow))
    ctx.trace()


# ------------------------------------------------------------ refresh histories
class R:
    def __init__(self, ctx, src, refl):
        self.p = os.path.join(ctx.tmpdir(), f"ref_{os.getpid()}.txt")
        self.src, self.refl = src, refl
        self.delim = {"comma": ",", "semi": ";"}.get(src, "\t")
        self.write(nice(4))
        self.fh = None
        if src == "str":
            self.ds = DataSE(self.p, reflect_delta=refl)
        elif src == "path":
            self.ds = DataSE(pathlib.Path(self.p), reflect_delta=refl)
        elif src in ("comma", "semi"):
            self.ds = DataSE(self.p, delimiter=self.delim, reflect_delta=refl)
        else:
            self.fh = open(self.p)
            self.ds = DataSE(self.fh, reflect_delta=refl)
        self.cur = self.conv(self.filerows)  # rows of the dataset
        self.mask = np.ones(len(self.cur), bool)

    def conv(self, rows):
        r = np.array(rows, float)
        if self.refl:
            r[:, 3] = ref.reflect(r[:, 3])
        return r

    def write(self, rows, head="wavelength\tAOI\tPsi\tDelta"):
        # in place, as an instrument appending or rewriting its file would
        mode = "r+" if os.path.exists(self.p) else "w"
        with open(self.p, mode) as f:
            f.truncate(0)
            f.write(head + "\n" if head else "")
            for r in rows:
                f.write(self.delim.join(repr(float(x)) for x in r) + "\n")
        self.filerows = np.array(rows)


def r_refresh(w):
    w.ds.refresh()
    w.cur = w.conv(w.filerows)
    w.mask = np.ones(len(w.cur), bool)


def r_longer(w):
    w.write(np.r_[w.filerows, nice(3, 11)])


def r_shorter(w):
    w.write(w.filerows[:1], head="")


def r_edge(w):
    """every Delta just around 180"""
    a = nice(4, 5)
    a[:, 3] = [180.5, 180.0, 179.5, 180.0000001]
    w.write(a)


def r_other(w):
    w.write(nice(6, 23), head="a\nb\nc")


def r_mask(w):
    w.mask = np.arange(len(w.cur)) % 2 == 0
    w.ds.mask = w.mask


def r_assign(w):
    a = nice(2, 40)
    a[:, 3] = [20.0, 100.0]
    w.ds.data = tuple(a.T)
    w.cur = a
    w.mask = np.ones(2, bool)


def r_save(w):
    """saving elsewhere does not redirect refresh"""
    w.ds.save(w.p + ".copy")


def r_copy(w):
    """work on with a copy"""
    if w.src != "handle":
        w.ds = copy.deepcopy(w.ds)


def r_pickle(w):
    if w.src != "handle":
        w.ds = pickle.loads(pickle.dumps(w.ds))


def r_wrap(w):
    if w.src != "handle":
        w.ds = DataSE(w.ds)
        w.mask = np.ones(len(w.cur), bool)


ROPS = [
    ("refresh", r_refresh), ("longer", r_longer), ("shorter", r_shorter), ("other", r_other), ("edge", r_edge), ("mask", r_mask),
    ("assign", r_assign), ("save", r_save), ("copy", r_copy), ("pickle", r_pickle), ("wrap", r_wrap),
]
RNAMES = [n for n, _ in ROPS]


def run_refresh(ctx, src, refl, hist):
    # the last operation is expanded; every history ends with a refresh too
    for last in range(len(ROPS)):
        h = hist + [last]
        w = R(ctx, src, refl)
        try:
            for i in h:
                ROPS[i][1](w)
                ctx.step()
            d = dict(source=src, reflected=refl, history=[RNAMES[i] for i in h])
            sel = w.cur[w.mask]
            got = np.array([np.asarray(x) for x in w.ds.data]).T
            ctx.check(got.shape == sel.shape and bits(got) == bits(sel), "dataset after a history", got=got, want=sel, **d)
            w.ds.refresh()
            same_table(ctx, w.ds, w.conv(w.filerows), "refresh", **d)
            if src != "handle":
                fresh = DataSE(w.p, delimiter=w.delim, reflect_delta=refl)
                ctx.check(bits(np.array(fresh.data)) == bits(np.array(w.ds.data)), "refresh differs from a new dataset", **d)
            # same convention as a new one: judged by what an objective reports
            objective_ok(ctx, w.ds, w.ds.data, refl, "Delta convention after refresh", **d)
            ctx.trace()
            ctx.state((src, refl, w.cur.tobytes(), w.mask.tobytes(), w.filerows.tobytes()))
        finally:
            if w.fh is not None:
                w.fh.close()


def run(case, ctx):
    {"save": run_save, "header": run_header, "refresh": run_refresh}[case[0]](ctx, *case[1:])
