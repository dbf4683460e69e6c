"""C03: every (wavelength, angle) row is computed on its own."""
import functools
import itertools

import numpy as np

from mc import ref
from mc.sut import *
from refnx.reflect import Tanh

ID = "C03"
BOUNDS = {
    "quick": "4 models x every sequence of 0..4 rows over 9 rows (near-equal "
    "wavelengths, equal wavelengths at several angles, repeats); every batch "
    "size 1..140 and 20 sizes to 4100 x 7 orders; 4 batches of 5003 different wavelengths or angles, batches of 20011 and 70001 rows of one wavelength; 9 input representations; every pair and triple of rows that differ by 1e-9..0.3 in wavelength, angle or both",
    "thorough": "as quick with sequences up to 5 rows, batch sizes 1..600",
}
ASSUMPTIONS = [
    "a row alone, evaluated on a freshly built model, is the reference",
    "agreement to 1e-9 degrees (bitwise equality is not required)",
]
BLOCK = 4

ROWS = [
    (400.0, 70.0), (658.0, 60.0), (658.0, 0.0), (658.0, 45.0),
    (400.0000001, 70.0), (532.0, 75.0), (657.9999, 60.0), (1200.0, 45.0), (658.0, 60.0004),
]


def m_const():
    return ReflectModelSE(nk(1)() | nk(1.46)(321) | nk(1.5 + 0.05j)(800) | nk(3.85 + 0.02j)())


def m_disp():
    s = (
        RI((1.33, 0))()
        | Lorentz([4.0, 8.0], [0.3, 0.6], [2.2, 5.0], Einf=1.6)(150)
        | Cauchy(1.45, 0.004)(500, vfsolv=0.3)
        | RI((np.array([0.3, 0.5, 0.9]), np.array([3.4, 3.6, 3.5]), np.array([0.3, 0.1, 0.0])))()
    )
    return ReflectModelSE(s, delta_offset=3.0)


def m_mixed():
    s = (
        Cauchy(1.33, 0.002)()
        | MixedSlabSE(400, Cauchy(1.5, 0.01), TaucLorentz(60.0, 2.5, 3.8, 1.7), 0.4, 3)
        | Sellmeier(1.1, 0.095, 0.011)(200, 4, vfsolv=0.5)
        | Cauchy(1.9, 0.05)()
    )
    s.ema = "bruggeman"
    s.reverse_structure = True
    s.solvent = Cauchy(1.36, 0.003)
    return ReflectModelSE(s)


def m_graded():
    s = Cauchy(1.0)() | Cauchy(1.45, 0.01)(20, 2) | Cauchy(2.0, 0.05)(0, 1)
    s[1].interfaces = Tanh()
    return ReflectModelSE(s)


MODELS = {"const": m_const, "disp": m_disp, "mixed": m_mixed, "graded": m_graded}


NEAR = [0.0, 1e-9, 1e-6, 1e-4, 9e-4, 4e-3, 0.02, 0.3]


@functools.lru_cache(maxsize=None)
def alone(name, row):
    p, d = MODELS[name]()(np.array([row]))
    return float(p[0]), float(d[0])


def cases(tier):
    depth = 4 if tier == "quick" else 5
    for name in MODELS:
        for rep in range(9):
            yield ["repr", name, rep]
    for k in range(0, 3):
        for name in MODELS:
            for seq in itertools.product(range(len(ROWS)), repeat=k):
                yield ["seq", name, list(seq)]
    for k in range(3, depth + 1):
        for name in ("const", "disp", "mixed"):
            for seq in itertools.product(range(len(ROWS)), repeat=k - 1):
                yield ["seqs", name, list(seq)]
    sizes = list(range(1, 141 if tier == "quick" else 601))
    sizes += [150, 199, 200, 201, 255, 256, 257, 300, 360, 499, 500, 501, 511, 512, 513, 777, 1000, 1001, 1023,
              1024, 1025, 2048, 2049, 4100]
    for n in sizes:
        yield ["batch", n]
    for k in range(6):
        yield ["many", k]
    for name in MODELS:
        for k in range(len(NEAR)):
            yield ["near", name, k]


def verify(ctx, name, rows, arr=None, model=None, **detail):
    m = model or MODELS[name]()
    x = np.array(rows, float).reshape(len(rows), 2) if arr is None else arr
    keep = np.array(x, copy=True) if isinstance(x, np.ndarray) else [list(r) for r in x]
    psi, delta = m(x)
    if isinstance(x, np.ndarray):
        ctx.check(np.array_equal(x, keep), "the input array was modified", model=name)
    else:
        ctx.check([list(r) for r in x] == keep, "the input list was modified", model=name)
    want = np.array([alone(name, tuple(r)) for r in rows], float).reshape(len(rows), 2)
    psi, delta = np.asarray(psi), np.asarray(delta)
    ctx.check(psi.shape == (len(rows),) and delta.shape == (len(rows),), "one entry per row",
              got=[psi.shape, delta.shape], rows=len(rows), model=name)
    ctx.step(len(rows))
    ctx.trace()
    if len(rows):
        bad = ~((np.abs(psi - want[:, 0]) < 1e-9) & (ref.circ(delta, want[:, 1]) < 1e-9))
        if bad.any():
            i = int(np.argmax(bad))
            ctx.fail("a row depends on the other rows", model=name, n=len(rows), row=i, at=rows[i],
                     got=[psi[i], delta[i]], want=want[i], rows=rows[:40], **detail)
    ctx.compared += 1


def run(case, ctx):
    kind = case[0]
    if kind == "seq":
        rows = [ROWS[i] for i in case[2]]
        ctx.state((case[1], tuple(case[2])))
        verify(ctx, case[1], rows)
    elif kind == "seqs":
        m = MODELS[case[1]]()
        for last in range(len(ROWS)):
            rows = [ROWS[i] for i in case[2]] + [ROWS[last]]
            ctx.state((case[1], tuple(case[2]), last))
            verify(ctx, case[1], rows, model=m)
    elif kind == "batch":
        n = case[1]
        for name in ("const", "disp"):
            if n > 300 and name == "disp":
                continue
            wav = 300.0 + np.arange(n) * 0.5
            ctx.state((name, n))
            orders = {
                "ascending": [(w, 65.0) for w in wav],
                "descending": [(w, 65.0) for w in wav[::-1]],
                "same": [(658.0, 60.0)] * n,
                "aois": [(658.0, float(a)) for a in np.arange(n) * 80.0 / max(n, 1)],
                "interleaved": [((400.0, 532.0, 658.0)[i % 3], float(40 + i % 7 * 5)) for i in range(n)],
                "blocks": [((400.0, 658.0)[(2 * i) // max(n, 1)], float(40 + i % 11 * 4)) for i in range(n)],
                "fold": [(float(w), 70.0) for w in np.concatenate([wav[: n // 2], wav[: n - n // 2][::-1]])],
            }
            for o, rows in orders.items():
                if n > 300 and o in ("ascending", "descending", "fold") and n not in (512, 513, 1024):
                    continue
                rows = [(float(a), float(b)) for a, b in rows]
                verify(ctx, name, rows, order=o)
    elif kind == "near":
        # rows that are nearly the same
        for e, f in itertools.product(NEAR, NEAR):
            x, y = NEAR[case[2]], (NEAR[case[2]] + e + f) % 0.31
            rows = [(550.0, 65.0), (550.0 + x, 65.0 + e), (550.0 - f, 65.0 + y)]
            ctx.state((case[1], case[2], e, f))
            for r in (rows[:2], rows, rows[::-1]):
                verify(ctx, case[1], r)
    elif kind == "many":
        # thousands of different wavelengths, and of different angles, in one call
        k = case[1]
        n = 5003
        i = np.arange(n)
        if k % 2:
            i = (i * 1231) % n
        if k >= 4:
            # one wavelength, very many rows
            n = (20011, 70001)[k - 4]
            rows = [(658.0, 1.0 + a % 4003 * 0.022) for a in range(n)]
            ctx.state(("many", k))
            verify(ctx, "const", rows, order=k)
            return
        rows = [(300.0 + 0.137 * a, 30.0 + (a * 7919 % 5003) * 0.0117) for a in i.tolist()] if k < 2 else \
            [((450.0, 658.0)[a % 2], 1.0 + a * 0.0177) for a in i.tolist()]
        ctx.state(("many", k))
        verify(ctx, "const", rows, order=k)
    elif kind == "repr":
        name, rep = case[1:]
        rows = [(658.0, 60.0), (400.0, 70.0), (532.0, 75.0), (658.0, 45.0)]
        base = np.array(rows)
        ctx.state((name, rep))
        if rep == 0:
            verify(ctx, name, rows, arr=base.astype(int))
        elif rep == 1:
            verify(ctx, name, rows, arr=base.astype(np.float32))
        elif rep == 2:
            verify(ctx, name, rows, arr=[list(r) for r in rows])
        elif rep == 3:
            verify(ctx, name, rows, arr=np.asfortranarray(base))
        elif rep == 4:
            big = np.zeros((8, 4))
            big[::2, ::2] = base
            verify(ctx, name, rows, arr=big[::2, ::2])
        elif rep == 5:
            ro = base.copy()
            ro.flags.writeable = False
            verify(ctx, name, rows, arr=ro)
        elif rep == 6:
            verify(ctx, name, rows, arr=base[::-1][::-1])
        elif rep == 7:
            verify(ctx, name, [], arr=np.zeros((0, 2)))
        elif rep == 8:
            # the call and the explicit model method agree
            m = MODELS[name]()
            a, b = m(base), m.model(base)
            ctx.close(np.array(a), np.array(b), "model() and __call__ differ", rtol=1e-12, atol=1e-10)
            verify(ctx, name, [tuple(map(float, r)) for r in base.astype(np.int32)], arr=base.astype(np.int32))
