"""C05: assembling structures is ordered concatenation of layers."""
import itertools

import numpy as np

from mc.sut import *

ID = "C05"
BOUNDS = {
    "quick": "every bracketing of a | chain of <=4 operands over {material, "
    "slab, mixed slab, structure, repeated slab, repeated structure, empty}; "
    "every edit history of <=3 operations over {NOPS}; every reversal of 0..6 interior layers x zero/distinct roughness; every repeat count 0..40 and some up to 200",
    "thorough": "chains of <=5 operands, edit histories of <=4 operations",
}
ASSUMPTIONS = ["oracle: a Python list of layer identities"]
BLOCK = 2

WAV = 555.0


class Pool:
    """named operands; the value of an expression is a list of tokens"""

    def __init__(self):
        # several operands share a name, or have none: names mean nothing
        self.mat = Cauchy(1.4, 0.01, name="film")
        self.mat2 = RI((1.7, 0.1))
        self.slab = Cauchy(1.5, 0.02, name="film")(110, 3)
        self.slab2 = RI((2.0, 0.2))(55, 4, vfsolv=0)
        self.mix = MixedSlabSE(77, nk(1.3), nk(1.9), 0.3, 5, name="film")
        self.t1 = RI((1.1, 0), name="t1")(11, 1)
        self.t2 = RI((1.2, 0.01), name="t2")(12, 2)
        self.struct = StructureSE([self.t1, self.t2], name="struct")
        self.empty = StructureSE()

    def leaf(self, k):
        """(object, token list)"""
        if k == "M":
            return self.mat, [("mat", self.mat)]
        if k == "S":
            return self.slab, [("slab", self.slab)]
        if k == "X":
            return self.mix, [("slab", self.mix)]
        if k == "T":
            return self.struct, [("slab", self.t1), ("slab", self.t2)]
        if k == "S3":
            return self.slab2 * 3, [("slab", self.slab2)] * 3
        if k == "T2":
            return self.struct * 2, [("slab", self.t1), ("slab", self.t2)] * 2
        if k == "S1":
            return self.slab2 * 1, [("slab", self.slab2)]
        if k == "E":
            return self.empty, []
        if k == "S0":
            return self.slab2 * 0, []
        raise ValueError(k)


LEAVES = ["M", "S", "X", "T", "S3", "T2", "E", "S1", "S0"]


def shapes(n):
    if n == 1:
        yield 0
        return
    for i in range(1, n):
        for a in shapes(i):
            for b in shapes(n - i):
                yield [a, b]


def evaluate(shape, leaves):
    if shape == 0:
        return leaves.pop(0)
    a = evaluate(shape[0], leaves)
    b = evaluate(shape[1], leaves)
    return (a[0] | b[0], a[1] + b[1])


def same_layers(ctx, s, tokens, msg, **detail):
    got = list(s.components)
    ok = len(got) == len(tokens)
    if ok:
        for g, (kind, obj) in zip(got, tokens):
            if kind == "slab":
                ok = ok and g is obj
            else:
                ok = ok and isinstance(g, SlabSE) and g.ri is obj
                ok = ok and g.thick.value == 0 and g.rough.value == 0 and g.vfsolv.value == 0
    ctx.check(ok, msg, got=[repr(g)[:60] for g in got], want=[repr(t[1])[:60] for t in tokens], **detail)
    ctx.check(isinstance(s, StructureSE), "result is not a StructureSE", **detail)
    ctx.check(len(s) == len(tokens), "length", **detail)


def row(c):
    """reference slab row of one layer at WAV"""
    if isinstance(c, MixedSlabSE):
        a, b = c.ri_A.complex(WAV), c.ri_B.complex(WAV)
        f = c.vf_B.value
        n = np.sqrt((1 - f) * a**2 + f * b**2 + 0j)
        return [c.thick.value, n.real, n.imag, c.rough.value, 0.0]
    n = complex(c.ri.complex(WAV))
    return [c.thick.value, n.real, n.imag, c.rough.value, c.vfsolv.value]


def table_ok(ctx, s, msg, **detail):
    comps = list(s.components)
    if not comps:
        ctx.check(s.slabs() is None, msg + ": empty structure has no slabs", **detail)
        return
    if not (isinstance(comps[0], SlabSE) and isinstance(comps[-1], SlabSE)):
        ctx.raises(s.slabs, msg + ": mixed slab as medium", exc=ValueError, **detail)
        return
    want = np.array([row(c) for c in comps])
    for rev in (False, True, False):
        s.reverse_structure = rev
        got = s.slabs(wavelength=WAV)
        w = want
        if rev:
            w = want[::-1].copy()
            w[0, 3] = 0
            w[1:, 3] = want[1:, 3][::-1]
        ctx.close(got, w, msg + ": slab table", rtol=1e-12, atol=1e-13, reversed=rev, **detail)
    p = list(s.parameters.flattened())
    q = [x for c in comps for x in c.parameters.flattened()]
    ctx.check(len(p) == len(q) and all(a is b for a, b in zip(p, q)), msg + ": parameters in layer order", **detail)


# ------------------------------------------------------------- edit histories
def _edit_ops():
    ops = {}

    def op(name):
        def deco(f):
            ops[name] = f
            return f

        return deco

    def tok(obj):
        return ("mat" if isinstance(obj, ScattererSE) else "slab", obj)

    for nm in ("slab", "mix", "mat"):
        def _app(w, nm=nm):
            o = getattr(w.p, nm)
            w.s.append(o)
            w.l.append(tok(o))

        ops["append_" + nm] = _app

        def _ior(w, nm=nm):
            o = getattr(w.p, nm)
            w.s |= o
            w.l = w.l + [tok(o)]

        ops["ior_" + nm] = _ior

        def _or(w, nm=nm):
            o = getattr(w.p, nm)
            new = w.s | o
            w.old.append((w.s, list(w.l)))
            w.s, w.l = new, w.l + [tok(o)]

        ops["or_" + nm] = _or

        def _ror(w, nm=nm):
            o = getattr(w.p, nm)
            new = o | w.s
            w.old.append((w.s, list(w.l)))
            w.s, w.l = new, [tok(o)] + w.l

        ops["ror_" + nm] = _ror

    @op("ior_struct")
    def _(w):
        w.s |= w.p.struct
        w.l = w.l + [("slab", w.p.t1), ("slab", w.p.t2)]

    @op("or_struct")
    def _(w):
        new = w.s | w.p.struct
        w.old.append((w.s, list(w.l)))
        w.s, w.l = new, w.l + [("slab", w.p.t1), ("slab", w.p.t2)]

    @op("ior_self")
    def _(w):
        w.s |= w.s
        w.l = w.l + w.l

    @op("or_self")
    def _(w):
        new = w.s | w.s
        w.old.append((w.s, list(w.l)))
        w.s, w.l = new, w.l + w.l

    @op("mul2")
    def _(w):
        new = w.s * 2
        w.old.append((w.s, list(w.l)))
        w.s, w.l = new, w.l * 2

    @op("mul1")
    def _(w):
        new = w.s * 1
        w.old.append((w.s, list(w.l)))
        w.s, w.l = new, list(w.l)

    @op("extend")
    def _(w):
        w.s.extend([w.p.slab2, w.p.mat, w.p.mix, w.p.slab])
        w.l += [("slab", w.p.slab2), ("mat", w.p.mat), ("slab", w.p.mix), ("slab", w.p.slab)]

    @op("extend_gen")
    def _(w):
        w.s.extend(x for x in (w.p.mat2, w.p.slab))
        w.l += [("mat", w.p.mat2), ("slab", w.p.slab)]

    @op("extend_struct")
    def _(w):
        w.s.extend(w.p.struct)
        w.l += [("slab", w.p.t1), ("slab", w.p.t2)]

    @op("insert0")
    def _(w):
        w.s.insert(0, w.p.slab2)
        w.l.insert(0, ("slab", w.p.slab2))

    @op("insert1")
    def _(w):
        w.s.insert(1, w.p.mat)
        w.l.insert(1, ("mat", w.p.mat))

    @op("insert-1")
    def _(w):
        w.s.insert(-1, w.p.mix)
        w.l.insert(-1, ("slab", w.p.mix))

    for i in (0, 1, -1):
        def _set(w, i=i):
            if len(w.l) > max(i, 0):
                o = w.p.mat if i == 1 else w.p.slab2
                w.s[i] = o
                w.l[i] = tok(o)

        ops[f"set{i}"] = _set

        def _del(w, i=i):
            if len(w.l) > max(i, 0):
                del w.s[i]
                del w.l[i]

        ops[f"del{i}"] = _del

    @op("pop")
    def _(w):
        if w.l:
            o = w.s.pop()
            t = w.l.pop()
            assert t[0] == "mat" or o is t[1], "pop returned another layer"

    @op("setslice")
    def _(w):
        w.s[1:2] = [w.p.slab, w.p.mat2, w.p.slab2]
        w.l[1:2] = [("slab", w.p.slab), ("mat", w.p.mat2), ("slab", w.p.slab2)]

    @op("edit_layer")
    def _(w):
        w.p.slab.thick.value += 7
        w.p.slab2.rough.value += 1
        w.p.mat.A.value += 0.01

    @op("reverse_flag")
    def _(w):
        w.s.reverse_structure = True

    @op("wavelength")
    def _(w):
        w.s.wavelength = 432.0
        w.s.slabs() if w.l and isinstance(w.s[0], SlabSE) and isinstance(w.s[-1], SlabSE) else None

    @op("newslab")
    def _(w):
        sl = w.p.mat2(31, 2, vfsolv=0)
        w.s |= sl
        w.l = w.l + [("slab", sl)]

    return ops


EDITS = _edit_ops()
ENAMES = list(EDITS)
BOUNDS["quick"] = BOUNDS["quick"].replace("{NOPS}", str(len(EDITS)))


class W:
    def __init__(self):
        self.p = Pool()
        a, b = nk(1.01)(), nk(3.3 + 0.1j)(0, 6)
        self.s = StructureSE([a, b])
        self.l = [("slab", a), ("slab", b)]
        self.old = []


def cases(tier):
    kmax = 4 if tier == "quick" else 5
    for k in range(2, kmax + 1):
        for shape in shapes(k):
            for first in itertools.product(LEAVES, repeat=min(k - 1, 2)):
                yield ["expr", k, shape, list(first)]
    for k in range(0, 7):
        yield ["rev", k]
    for n in list(range(0, 41)) + [50, 64, 100, 128, 129, 200] + ([256, 500, 1000] if tier != "quick" else []):
        yield ["mul", n]
    for k in range(1, 3):
        for h in itertools.product(ENAMES, repeat=k):
            yield ["edit", list(h)]
    for k in range(3, (3 if tier == "quick" else 4) + 1):
        for h in itertools.product(ENAMES, repeat=k - 1):
            yield ["edit", list(h) + ["*"]]


def run_expr(ctx, shape, kinds):
    p = Pool()
    leaves = [p.leaf(k) for k in kinds]
    if any(isinstance(l[0], StructureSE) and l[1] == [] for l in leaves) and len(leaves) == 1:
        return
    before = (list(p.struct.components), list(p.empty.components))
    ops_before = [list(l[0].components) if isinstance(l[0], StructureSE) else None for l in leaves]
    objs = [l[0] for l in leaves]
    s, tokens = evaluate(shape, list(leaves))
    ctx.step(len(kinds) - 1)
    ctx.trace()
    ctx.state(("expr", repr(shape), tuple(kinds)))
    d = dict(expression=[shape, kinds])
    same_layers(ctx, s, tokens, "expression does not denote its layers in order", **d)
    table_ok(ctx, s, "expression", **d)
    ctx.check(
        [id(c) for c in p.struct.components] == [id(c) for c in before[0]] and len(p.empty) == 0,
        "an operand of | was modified", **d,
    )
    for o, b in zip(objs, ops_before):
        if b is not None:
            ctx.check([id(c) for c in o.components] == [id(c) for c in b], "an operand of | was modified", **d)
            ctx.check(o is not s, "the result of | is one of its operands", **d)
    # editing a layer is seen in the result
    p.slab.thick.value = 500.0
    p.t2.rough.value = 9.0
    table_ok(ctx, s, "after editing shared layers", **d)
    ctx.outcome((len(tokens), kinds[0], kinds[-1]))


def verify(w, ctx, hist):
    d = dict(history=hist)
    same_layers(ctx, w.s, w.l, "structure edits", **d)
    for s, l in w.old:
        same_layers(ctx, s, l, "operand of an earlier | or * changed", **d)
    same_layers(ctx, w.p.struct, [("slab", w.p.t1), ("slab", w.p.t2)], "operand structure changed", **d)
    table_ok(ctx, w.s, "structure edits", **d)
    ctx.trace()
    ctx.state(tuple(h if not isinstance(h, tuple) else h for h in hist))
    ctx.outcome(tuple(type(t[1]).__name__ for t in w.l))


def run_rev(ctx, k):
    """k interior layers, every assignment of distinct / zero roughnesses and thicknesses"""
    mats = [RI((1.0 + 0.2 * i, 0.01 * i)) for i in range(k + 2)]
    for zero, big in itertools.product(itertools.product((0, 1), repeat=min(k + 2, 5)), (1, 1e-3, 333.3)):
        sl = []
        for i, mt in enumerate(mats):
            z = zero[i] if i < len(zero) else 0
            sl.append(mt(13.0 * i + 2, 0.0 if z else (1.25 + 0.75 * i) * big))
        s = StructureSE(sl)
        table_ok(ctx, s, "reversal", layers=k, zero=zero)
        s = StructureSE()
        s.reverse_structure = True
        for x in sl:
            s |= x
        table_ok(ctx, s, "reversal", layers=k, zero=zero)
        ctx.step(2)
        ctx.trace(2)
        ctx.state(("rev", k, zero, big))


def run_mul(ctx, n):
    p = Pool()
    for num in (n, np.int64(n)):
        for obj, toks in ((p.slab, [("slab", p.slab)]), (p.mix, [("slab", p.mix)]), (p.struct, [("slab", p.t1), ("slab", p.t2)])):
            r = obj * num
            if isinstance(r, StructureSE) or n != 1:  # one repeat of a layer may be the layer itself
                same_layers(ctx, r, toks * n, "repetition", n=n)
            end = nk(2.2)()
            s = p.mat | r | end
            same_layers(ctx, s, [("mat", p.mat)] + toks * n + [("slab", end)], "repetition", n=n)
            table_ok(ctx, s, "repetition", n=n)
            ctx.step(3)
            ctx.trace()
    ctx.state(("mul", n))


def run(case, ctx):
    if case[0] == "rev":
        return run_rev(ctx, case[1])
    if case[0] == "mul":
        return run_mul(ctx, case[1])
    if case[0] == "expr":
        _, k, shape, first = case
        rest = k - len(first)
        for tail in itertools.product(LEAVES, repeat=rest):
            run_expr(ctx, shape, first + list(tail))
        return
    hist = case[1]
    tails = ENAMES if hist[-1] == "*" else [None]
    for t in tails:
        h = hist if t is None else hist[:-1] + [t]
        w = W()
        for name in h:
            ctx.step()
            EDITS[name](w)
        verify(w, ctx, h)
