"""C13: parameter vectors reach exactly the intended parameters."""
import itertools

import numpy as np
from refnx.analysis import Parameter, Parameters, GlobalObjective

from mc import ref
from mc.samples import ROWS
from mc.sut import *

ID = "C13"
BOUNDS = {
    "quick": "9 sharing topologies (none, shared layer, shared material, shared "
    "parameter, constrained, solvent, mixed, unnamed, equally named) x every subset of 8 varying "
    "candidates x {structure, model, objective, objective with noise} x vector "
    "kinds {varying, all, every wrong length} and 4 container types; 8 fixed or varying noise terms incl. 0; "
    "every parameter of 5 kinds of material (1..5 oscillators) in 9 places; values outside 3 kinds of bounds through every setter; 7 step sizes (1e-15 to 0.5 relative) of each and of all values through every setter; all "
    "vary/fix/set histories of length <= 3",
    "thorough": "as quick with every subset of 10 candidates and histories of length <= 4",
}
ASSUMPTIONS = ["oracle: a record of values keyed by parameter identity and a model freshly built from it"]
BLOCK = 4

PTS = np.array([(450.0, 60.0), (658.0, 70.0)])
# "anon" and "dup": as "material" with unnamed / equally named parameters
TOPO = ["plain", "layer", "material", "param", "constraint", "solvent", "mixed", "anon", "dup"]

BASE = dict(
    off=1.5, t1=120.0, A=1.45, B=0.004, C=0.0, r1=2.0, v1=0.2, t2=300.0, Am=3.0, Br=0.4, En=5.0, Einf=1.9, r2=1.0, v2=0.0,
    Eg=1.2, tlA=20.0, tlC=2.0, tlE=4.0, tlI=1.5, t3=80.0, vf=0.3, r3=0.5, sA=1.33, sB=0.003, sC=0.0, t4=40.0,
    Sa=1.1, Se=0.1, Sp=0.001, Si=1.2, ln=-2.5,
)
VARY = ["t1", "A", "v1", "Am", "vf", "off", "t3", "sA", "En", "ln"]


class W:
    """a live system whose every number comes from self.v"""

    def __init__(self, topo, v=None, ln=True):
        self.topo = topo
        self.v = dict(BASE)
        if v:
            self.v.update(v)
        v = self.v
        P = {}
        self.P = P

        def par(k):
            P[k] = Parameter(v[k], name={"anon": None, "dup": "same"}.get(topo, k))
            return P[k]

        N = {"anon": "", "dup": "same"}
        ca = Cauchy(par("A"), par("B"), par("C"), name=N.get(topo, "ca"))
        lo = Lorentz(par("Am"), par("Br"), par("En"), Einf=par("Einf"), name=N.get(topo, "lo"))
        tl = TaucLorentz(par("tlA"), par("tlC"), par("tlE"), par("Eg"), Einf=par("tlI"), name=N.get(topo, "tl"))
        se = Sellmeier(par("Sa"), par("Se"), par("Sp"), Einf=par("Si"), name=N.get(topo, "se"))
        l1 = ca(par("t1"), par("r1"), vfsolv=par("v1"))
        l2 = lo(par("t2"), par("r2"), vfsolv=par("v2"))
        l3 = MixedSlabSE(par("t3"), ca, tl, par("vf"), par("r3"))
        self.extra = []
        sol = None
        layers = [l1, l2, l3]
        if topo == "layer":
            layers = [l1, l2, l1, l3, l1]
        elif topo in ("material", "anon", "dup"):
            layers = [l1, l2, ca(par("t4"), 0), lo(11.0, 0), l3]
        elif topo == "param":
            layers = [l1, l2, se(P["t1"], P["r1"]), l3, nk(1.8)(P["t1"], 0, vfsolv=P["v1"])]
        elif topo == "constraint":
            l4 = se(par("t4"), 0)
            P["t4"].constraint = 2 * P["t1"] + 5
            P["B"].constraint = P["A"] * 0.002
            layers = [l1, l4, l2, l3]
        elif topo == "solvent":
            sol = Cauchy(par("sA"), par("sB"), par("sC"), name="sol")
        elif topo == "mixed":
            sol = ca
            layers = [l1, l3, l2, l3]
        self.s = StructureSE([nk(1.0)()] + layers + [nk(3.85 + 0.02j)()], solvent=sol)
        self.m = ReflectModelSE(self.s, delta_offset=par("off"))
        rows = np.array(ROWS[:4])
        self.o = ObjectiveSE(self.m, DataSE(tuple(rows.T)), lnsigma=par("ln") if ln else None)
        self.o2 = ObjectiveSE(self.m, DataSE(tuple(rows.T)))
        # what is reachable
        self.names = {id(p): k for k, p in P.items()}

    def values(self):
        """expected current value of every named parameter"""
        v = dict(self.v)
        if self.topo == "constraint":
            v["t4"] = 2 * v["t1"] + 5
            v["B"] = v["A"] * 0.002
        return {k: v[k] for k in self.P}

    def targets(self):
        return {"structure": self.s, "model": self.m, "objective": self.o, "objective2": self.o2}


def reachable(w, target):
    ks = set(w.P) - {"ln", "off"}
    if w.topo != "param":
        ks -= {"Sa", "Se", "Sp", "Si"} if w.topo != "constraint" else set()
    if target != "structure":
        ks.add("off")
    if target == "objective":
        ks.add("ln")
    return ks


def flat(t):
    return list(t.parameters.flattened())


def expose(ctx, w, msg, **d):
    for name, t in w.targets().items():
        ids = [w.names.get(id(p)) for p in flat(t)]
        got = {k for k in ids if k}
        want = reachable(w, name)
        ctx.check(got == want, msg + ": adjustable quantities", target=name, missing=sorted(want - got), extra=sorted(got - want), **d)


def agree(ctx, w, msg, predict=True, **d):
    want = w.values()
    got = {k: float(p) for k, p in w.P.items()}
    bad = [k for k in want if abs(got[k] - want[k]) > 1e-12 * (1 + abs(want[k]))]
    ctx.check(not bad, msg + ": parameter values", wrong={k: [got[k], want[k]] for k in bad}, **d)
    if predict:
        f = W(w.topo, w.v)
        a, b = w.m(PTS), f.m(PTS)
        ok = np.all(np.abs(a[0] - b[0]) < 1e-8) and np.all(ref.circ(a[1], b[1]) < 1e-7)
        ctx.check(bool(ok), msg + ": prediction does not use the values", got=a, want=b, **d)


def varying_names(ctx, w, name, t, **d):
    """distinct varying parameters in the order of the flattened parameters"""
    order = []
    for p in flat(t):
        if p.vary and id(p) not in [id(q) for q in order]:
            order.append(p)
    if name.startswith("objective"):
        vp = list(t.varying_parameters())
        ctx.check([id(p) for p in vp] == [id(p) for p in order], "varying parameters: each once, fixed order",
                  target=name, got=[p.name for p in vp], want=[p.name for p in order], **d)
        vp2 = list(t.varying_parameters())
        ctx.check([id(p) for p in vp] == [id(p) for p in vp2], "order of the varying parameters changes", target=name, **d)
    return [w.names[id(p)] for p in order]


def bump(k, x):
    return x * 1.01 + (0.013 if k in ("v1", "vf", "v2") else 0.002)


SETTERS = {
    "structure": [("pvals", lambda t, v: setattr(t.parameters, "pvals", v))],
    "model": [("pvals", lambda t, v: setattr(t.parameters, "pvals", v)), ("call", lambda t, v: t(PTS, p=v))],
    "objective": [
        ("setp", lambda t, v: t.setp(v)), ("residuals", lambda t, v: t.residuals(v)), ("chisqr", lambda t, v: t.chisqr(v)),
        ("logp", lambda t, v: t.logp(v)), ("logl", lambda t, v: t.logl(v)), ("logpost", lambda t, v: t.logpost(v)),
    ],
}
SETTERS["objective2"] = SETTERS["objective"]


def pars(v):
    return Parameters([Parameter(x) for x in v])


CONT = [np.array, list, tuple, pars]


def cases(tier):
    cand = VARY[:8] if tier == "quick" else VARY
    for topo in TOPO:
        for r in range(0, len(cand) + 1):
            for sub in itertools.combinations(cand, r):
                yield ["vec", topo, list(sub) + (["ln"] if tier == "quick" and r % 2 else [])]
    for topo in TOPO:
        yield ["tiny", topo]
        yield ["outside", topo]
    yield ["noise"]
    for kind in KINDS:
        for n in (1, 2, 3, 5) if kind in ("Lorentz", "Gauss", "TaucLorentz") else (1,):
            yield ["material", kind, n]
    ops = HOPS if tier == "quick" else HOPS
    for topo in TOPO:
        for k in range(1, (3 if tier == "quick" else 4) + 1):
            for first in itertools.product(range(len(ops)), repeat=k - 1):
                yield ["hist", topo, list(first)]


def run_vec(ctx, topo, sub):
    sub = [k for k in sub]
    ctx.state((topo, tuple(sub)))
    w = W(topo)
    d = dict(topology=topo, vary=sub)
    for k in sub:
        if k in w.P and w.P[k].constraint is None:
            w.P[k].setp(vary=True, bounds=(-1e4, 1e4))
    expose(ctx, w, "exposed", **d)
    i = 0
    for name, t in w.targets().items():
        order = varying_names(ctx, w, name, t, **d)
        want = {k for k in sub if k in reachable(w, name) and w.P[k].constraint is None}
        ctx.check(set(order) == want and len(order) == len(want), "varying vector", target=name, got=order, want=sorted(want), **d)
        full = flat(t)
        for sname, setter in SETTERS[name]:
            i += 1
            cont = CONT[i % 4]
            # varying values
            if order and len(order) != len(full):
                vals = [bump(k, w.v[k]) for k in order]
                setter(t, cont(vals))
                w.v.update(zip(order, vals))
                agree(ctx, w, "vector of varying values", predict=(i % 4 == 0), target=name, via=sname, **d)
            ctx.step()
        # every value: shared parameters occur several times with one value
        keys = [w.names.get(id(p)) for p in full]
        sname, setter = SETTERS[name][i % len(SETTERS[name])]
        new = {k: bump(k, w.v[k]) for k in w.P}
        vec = [new[k] if k else float(p) for k, p in zip(keys, full)]
        setter(t, CONT[(i + len(sub)) % 4](vec))
        for k in set(k for k in keys if k):
            w.v[k] = new[k]
        agree(ctx, w, "vector of all values", target=name, via=sname, **d)
        ctx.trace()
        # any other length is refused
        ok_len = {len(order), len(full)}
        for n in sorted({0, 1, 2, 3, 4, len(order) + 1, max(0, len(order) - 1), len(full) - 1, len(full) + 1, 2 * len(full)} - ok_len):
            for sname, setter in SETTERS[name]:
                ctx.raises(lambda: setter(t, [7.7] * n), "a vector of wrong length is accepted", exc=ValueError,
                           target=name, via=sname, length=n, **d)
        agree(ctx, w, "after refused vectors", predict=False, target=name, **d)


def run_tiny(ctx, topo):
    """every change of value is taken over exactly, however small or large"""
    ks = [k for k in ("t1", "A", "C", "v2", "off", "t3", "ln", "sC")]
    for name in ("structure", "model", "objective", "objective2"):
        for sname, setter in SETTERS[name]:
            w = W(topo)
            use = [k for k in ks if k in w.P and k in reachable(w, name) and w.P[k].constraint is None]
            for k in use:
                w.P[k].setp(vary=True, bounds=(-1e9, 1e9))
            t = w.targets()[name]
            seen, order = set(), []
            for p in flat(t):
                if p.vary and id(p) not in seen:
                    seen.add(id(p))
                    order.append(p)
            ctx.check(sorted(w.names[id(p)] for p in order) == sorted(use), "varying parameters", target=name, topology=topo)
            x0 = [float(p) for p in order]
            for rel in (1e-15, -1e-12, 1e-9, -1e-6, 1e-5, 1e-3, 0.5):
                for full in (False, True):
                    for only in [None] + list(range(len(order))):
                        tgt = [x + (rel * (abs(x) if x else 1.0) if only in (None, i) else 0.0) for i, x in enumerate(x0)]
                        if full:
                            m = {id(p): x for p, x in zip(order, tgt)}
                            vec = [m.get(id(p), float(p)) for p in flat(t)]
                        else:
                            vec = tgt
                        setter(t, vec)
                        got = [float(p) for p in order]
                        ctx.check(got == tgt, "a small change of value is not taken over exactly", target=name, via=sname, topology=topo,
                                  got=got, want=tgt, step=rel, vector="all" if full else "varying")
                        setter(t, np.array(x0))
                        got = [float(p) for p in order]
                        ctx.check(got == x0, "a small change of value is not undone exactly", target=name, via=sname, topology=topo, got=got, want=x0, step=rel)
                        ctx.step()
                        ctx.state((topo, name, sname, rel, full, only))
            ctx.trace()


def run_outside(ctx, topo):
    """values outside their bounds (or infinitely far apart from the others) are taken over as they are"""
    ks = [k for k in ("t1", "A", "v2", "off", "t3", "ln", "sA", "vf")]
    for name in ("structure", "model", "objective", "objective2"):
        for sname, setter in SETTERS[name]:
            for lo, hi in ((0.9, 1.1), (1.01, 1.2), (0.5, 0.99)):
                w = W(topo)
                use = [k for k in ks if k in w.P and k in reachable(w, name) and w.P[k].constraint is None]
                for k in use:
                    x = w.v[k]
                    b = sorted((x * lo, x * hi)) if x else (lo - 1, hi - 1)
                    w.P[k].setp(vary=True, bounds=tuple(b))
                t = w.targets()[name]
                order = list(dict((id(p), p) for p in flat(t) if p.vary).values())
                x0 = [float(p) for p in order]
                for f in (0.97, 1.05, 0.8, 1.3):
                    for full in (False, True):
                        tgt = [x * f + (0 if x else f - 1) for x in x0]
                        m = {id(p): x for p, x in zip(order, tgt)}
                        setter(t, [m.get(id(p), float(p)) for p in flat(t)] if full else tgt)
                        got = [float(p) for p in order]
                        ctx.check(got == tgt, "a value near or outside its bounds is not taken over exactly", target=name, via=sname,
                                  topology=topo, got=got, want=tgt, vector="all" if full else "varying")
                        bad = [p.name for p in order if not p.vary]
                        ctx.check(not bad, "setting a value fixed a parameter", target=name, via=sname)
                        ctx.step()
                ctx.trace()
                ctx.state((topo, name, sname, lo, "outside"))


def run_noise(ctx):
    """the noise term is exposed and settable whatever its value, fixed or not"""
    for x, vary, how in itertools.product((0, 0.0, -0.0, 1e-300, -3.0, 5, 1.0, -1e3), (False, True), ("number", "param")):
        w = W("plain")
        o = ObjectiveSE(w.m, w.o2.data, lnsigma=x if how == "number" else Parameter(x))
        d = dict(value=x, varying=vary, given=how)
        o.lnsigma.setp(vary=vary)
        w.P["t1"].setp(vary=True, bounds=(0, 1e4))
        full = flat(o)
        ctx.check(sum(p is o.lnsigma for p in full) == 1 and len(full) == len(flat(w.m)) + 1, "the noise term is not exposed", **d)
        ctx.check(len(o.varying_parameters()) == 1 + vary, "varying parameters with a noise term", **d)
        vec = [9.75 if p is o.lnsigma else 131.5 if p is w.P["t1"] else float(p) for p in full]
        o.setp(vec)
        ctx.check(float(o.lnsigma) == 9.75 and float(w.P["t1"]) == 131.5, "a vector of all values with a noise term", **d)
        vec = [x if p is o.lnsigma else 99.5 for p in full if p.vary]
        o.setp(vec)
        ctx.check(float(o.lnsigma) == (x if vary else 9.75) and float(w.P["t1"]) == 99.5, "a vector of varying values with a noise term", **d)
        ctx.step()
        ctx.trace()
        ctx.state(("noise", str(x), vary, how))


def _osc(n, a, b, c):
    return [a + 0.1 * i for i in range(n)], [b + 0.05 * i for i in range(n)], [c + 0.4 * i for i in range(n)]


KINDS = {
    "Cauchy": lambda n, v: Cauchy(*v), "Sellmeier": lambda n, v: Sellmeier(v[0], v[1], v[2], Einf=v[3]),
    "Lorentz": lambda n, v: Lorentz(v[:n], v[n : 2 * n], v[2 * n : 3 * n], Einf=v[-1]),
    "Gauss": lambda n, v: Gauss(v[:n], v[n : 2 * n], v[2 * n : 3 * n], Einf=v[-1]),
    "TaucLorentz": lambda n, v: TaucLorentz(v[:n], v[n : 2 * n], v[2 * n : 3 * n], v[-2], Einf=v[-1]),
}
START = {
    "Cauchy": lambda n: [1.5, 0.01, 0.0001], "Sellmeier": lambda n: [1.1, 0.1, 0.001, 1.2],
    "Lorentz": lambda n: sum(_osc(n, 2.0, 0.3, 3.0), []) + [1.7], "Gauss": lambda n: sum(_osc(n, 1.0, 0.6, 3.0), []) + [1.7],
    "TaucLorentz": lambda n: sum(_osc(n, 9.0, 0.6, 3.0), []) + [1.1, 1.6],
}
PLACES = ["front", "layer", "back", "mixA", "mixB", "both", "solvent", "twice", "anon mix"]


def place(mat, where):
    fix, kw = nk(1.6), {}
    L = [nk(1.0)(), fix(200.0, 0, vfsolv=0.3), nk(3.9)()]
    if where == "front":
        L[0] = mat()
    elif where == "layer":
        L.insert(1, mat(150.0))
    elif where == "back":
        L[-1] = mat()
    elif where == "mixA":
        L.insert(1, MixedSlabSE(150.0, mat, fix, 0.4, 0))
    elif where == "mixB":
        L.insert(1, MixedSlabSE(150.0, fix, mat, 0.4, 0))
    elif where == "both":
        L.insert(1, MixedSlabSE(150.0, mat, mat, 0.4, 0))
    elif where == "solvent":
        kw["solvent"] = mat
    elif where == "twice":
        L[1:1] = [mat(90.0), fix(30.0), mat(20.0, 0, vfsolv=0.1)]
    else:
        L.insert(1, MixedSlabSE(150.0, Cauchy(1.4), mat, 0.4, 0))
    return StructureSE(L, **kw)


def run_material(ctx, kind, n):
    """every parameter of every material in every place is exposed, settable and used"""
    v0 = START[kind](n)
    for where, name in itertools.product(PLACES, ("", "m")):
        P = [Parameter(x, name=name) for x in v0]
        s = place(KINDS[kind](n, P), where)
        m = ReflectModelSE(s)
        o = ObjectiveSE(m, DataSE(tuple(np.array(ROWS[:4]).T)), lnsigma=-3.0 if n % 2 else None)
        for t in (s, m, o):
            ids = [id(p) for p in flat(t)]
            missing = [i for i, p in enumerate(P) if id(p) not in ids]
            ctx.check(not missing, "parameters of a material are not exposed", kind=kind, oscillators=n, place=where, target=type(t).__name__, missing=missing)
        for i, p in enumerate(P):
            p.setp(vary=True, bounds=(-1e3, 1e3))
            new = v0[i] * 1.02 + 1e-4
            o.setp([new])
            v = list(v0)
            v[i] = new
            got, want = m(PTS), ReflectModelSE(place(KINDS[kind](n, v), where))(PTS)
            ok = [float(q) for q in P] == v and np.all(np.abs(got[0] - want[0]) < 1e-8) and np.all(ref.circ(got[1], want[1]) < 1e-7)
            ctx.check(bool(ok), "a parameter of a material is not used", kind=kind, oscillators=n, place=where, parameter=i)
            o.setp([v0[i]])
            p.setp(vary=False)
            ctx.step()
        ctx.trace()
        ctx.state((kind, n, where, name))


def _h_vary(k):
    def f(w):
        if k in w.P and w.P[k].constraint is None:
            w.P[k].setp(vary=True, bounds=(-1e4, 1e4))
            w.vary.add(k)
    return f


def _h_fix(k):
    def f(w):
        if k in w.P and w.P[k].constraint is None:
            w.P[k].setp(vary=False)
            w.vary.discard(k)
    return f


def _h_set(name, how):
    def f(w):
        t = w.targets()[name]
        order = [w.names[id(p)] for p in dict((id(p), p) for p in flat(t) if p.vary).values()]
        if not order or len(order) == len(flat(t)):
            return
        vals = [bump(k, w.v[k]) for k in order]
        dict(SETTERS[name])[how](t, vals)
        w.v.update(zip(order, vals))
    return f


def _h_direct(w):
    w.P["t1"].value = w.v["t1"] = 77.0


def _h_layer(w):
    """edit the structure: the exposed parameters follow"""
    k = f"new{len(w.P)}"
    p = Parameter(33.0, name=k, vary=True, bounds=(-1e4, 1e4))
    w.P[k] = p
    w.names[id(p)] = k
    w.v[k] = 33.0
    w.s.insert(1, nk(1.7)(p, 0))
    w.news.append(k)
    w.vary.add(k)


def _h_dellayer(w):
    if w.news:
        k = w.news.pop()
        for i, c in enumerate(list(w.s)):
            if getattr(c, "thick", None) is w.P[k]:
                del w.s[i]
                break
        del w.P[k]
        del w.v[k]
        w.vary.discard(k)


HOPS = [
    _h_vary("t1"), _h_vary("A"), _h_vary("ln"), _h_fix("t1"), _h_set("objective", "setp"), _h_set("model", "call"),
    _h_set("structure", "pvals"), _h_set("objective2", "residuals"), _h_direct, _h_layer, _h_dellayer, _h_vary("vf"),
]


def verify_hist(ctx, w, hist):
    d = dict(topology=w.topo, history=hist)
    base = w.values()
    got = {k: float(p) for k, p in w.P.items()}
    bad = [k for k in base if abs(got[k] - base[k]) > 1e-12 * (1 + abs(base[k]))]
    ctx.check(not bad, "values after a history", wrong={k: [got[k], base[k]] for k in bad}, **d)
    for name, t in w.targets().items():
        order = varying_names(ctx, w, name, t, **d)
        want = {k for k in w.vary if k in reachable(w, name)}
        ctx.check(set(order) == want, "varying after a history", target=name, got=order, want=sorted(want), **d)
    v = {k: x for k, x in w.v.items() if not k.startswith("new")}
    f = W(w.topo, v)
    for k in w.news:
        f.s.insert(1, nk(1.7)(w.v[k], 0))
    a, b = w.m(PTS), f.m(PTS)
    ok = np.all(np.abs(a[0] - b[0]) < 1e-8) and np.all(ref.circ(a[1], b[1]) < 1e-7)
    ctx.check(bool(ok), "prediction after a history", got=a, want=b, **d)
    ctx.trace()
    ctx.state((w.topo, tuple(sorted(w.vary)), tuple(sorted(w.v.items(), key=str))))
    ctx.outcome(tuple(np.round(b[0], 6)))


def run(case, ctx):
    if case[0] == "vec":
        run_vec(ctx, case[1], case[2])
        return
    if case[0] == "tiny":
        run_tiny(ctx, case[1])
        return
    if case[0] == "noise":
        return run_noise(ctx)
    if case[0] == "outside":
        run_outside(ctx, case[1])
        return
    if case[0] == "material":
        run_material(ctx, case[1], case[2])
        return
    _, topo, first = case
    for last in range(len(HOPS)):
        w = W(topo)
        w.vary, w.news = set(), []
        for i in first + [last]:
            HOPS[i](w)
            ctx.step()
        verify_hist(ctx, w, first + [last])
