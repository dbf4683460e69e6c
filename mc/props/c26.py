"""C26: co-refinement."""
import itertools

import numpy as np
from refnx.analysis import CurveFitter, GlobalObjective, Parameter

from mc import ref
from mc.sut import *

ID = "C26"
BOUNDS = {
    "quick": "sets of 1..3 objectives, each derived from the previous one by one of 10 sharing patterns (none, "
    "parameter, constraint, material, layer, structure, model, dataset, model and dataset, same objective) x all "
    "Delta conventions (2 of 8 for triples) x with/without noise term; in every order; after every history of <=2 "
    "(triples, or with noise term: one less) out of 11 operations (evaluations of single objectives and of the whole with new vectors, model and structure use, direct "
    "changes, another global objective, covariance); fits from the optimum and from 3 displaced starts",
    "thorough": "as quick with every history of <=3 operations for pairs and all conventions for triples",
}
ASSUMPTIONS = [
    "GlobalObjective and CurveFitter are refnx's; default lambdas",
    "log-prior of shared parameters is refnx's business (it counts them per objective) and is not compared",
]
BLOCK = 2
PATTERNS = ["none", "param", "constraint", "material", "layer", "structure", "model", "data", "modeldata", "same"]
FRONT = [1.0, 1.333, 1.1]
GRID = [
    [(658.0, 60.0), (658.0, 70.0), (658.0, 65.0)],
    # as many points as the first and beginning at the same angle
    [(532.0, 60.0), (658.0, 70.0), (700.0, 50.0)],
    [(450.0, 68.0), (450.0, 60.0)],
]


class Obj:
    """reference record of one objective"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def but(self, **k):
        return Obj(**{**self.__dict__, **k})


class World:
    def __init__(self, patterns, conv, lns=()):
        self.V = {}
        self.P = {}
        self.con = {}
        self.o = []
        for i in range(len(patterns) + 1):
            self.o.append(self.make(i, patterns[i - 1] if i else "none", conv[i], i in lns))

    def par(self, key, val, vary=False, bounds=None):
        self.V[key] = val
        p = Parameter(val, name=key)
        if vary:
            p.setp(vary=True, bounds=bounds or (val * 0.5, val * 1.5))
        self.P[key] = p
        return key

    def make(self, i, pat, refl, noise):
        prev = self.o[-1] if self.o else None
        if pat == "same":
            return prev
        # film
        if pat == "param":
            t = prev.t
        elif pat == "constraint":
            t = f"t{i}"
            self.con[t] = prev.t
            self.P[t] = Parameter(1.0, name=t)
            self.P[t].constraint = self.P[prev.t] * 2
        elif pat not in ("layer", "structure", "model", "modeldata"):
            t = self.par(f"t{i}", 1500.0 + 170 * i, True)
        if pat in ("none", "param", "constraint", "data"):
            A = self.par(f"A{i}", 1.45 + 0.05 * i, True)
            mat = Cauchy(self.P[A], 0.004 + 0.001 * i)
            B = 0.004 + 0.001 * i
        elif pat == "material":
            A, B, mat = prev.A, prev.B, prev.mat
        if pat in ("layer", "structure", "model", "modeldata"):
            t, A, B, mat, layer = prev.t, prev.A, prev.B, prev.mat, prev.layer
        else:
            layer = mat(self.P[t], 0, vfsolv=0.0)
        # structure
        if pat in ("structure", "model", "modeldata"):
            front, st = prev.front, prev.st
        else:
            front = FRONT[i]
            st = nk(front)() | layer | nk(1.46)(20) | nk(3.87 + 0.02j)()
        # model
        if pat in ("model", "modeldata"):
            off, model = prev.off, prev.model
        else:
            off = self.par(f"off{i}", 0.5 * i, vary=(i == 1), bounds=(-5, 5))
            model = ReflectModelSE(st, delta_offset=self.P[off])
        r = Obj(t=t, A=A, B=B, mat=mat, layer=layer, front=front, st=st, off=off, model=model)
        # data
        if pat in ("data", "modeldata"):
            r.rows, r.refl, r.data = prev.rows, prev.refl, prev.data
        else:
            g = np.array(GRID[i])
            psi, delta = self.predict(r, g[:, 0], g[:, 1], refl)
            bump = np.linspace(-4, 7, len(g))
            r.rows = np.c_[g, psi + bump, (delta - 3 * bump + 1) % 360]
            # one point whose plain difference exceeds half a turn
            r.rows[-1, 3] = delta[-1] + 200 if delta[-1] < 160 else delta[-1] - 200
            if refl:
                r.rows[-1, 3] %= 360
            r.refl = refl
            d = DataSE(tuple(r.rows.T.copy()), reflect_delta=refl)
            if refl:
                r.rows[:, 3] = ref.reflect(r.rows[:, 3])
            r.data = d
        r.lns = self.par(f"lns{i}", -2.0 - i, True, (-6, 0)) if noise else None
        r.obj = ObjectiveSE(model, r.data, lnsigma=self.P[r.lns] if noise else None)
        return r

    def val(self, k):
        return 2 * self.val(self.con[k]) if k in self.con else self.V[k]

    def predict(self, r, wav, aoi, refl):
        n1 = np.real(ref.cauchy((self.val(r.A), r.B, 0.0), np.asarray(wav, float)))
        f = np.ones(np.shape(wav), complex)
        n = np.array([f * r.front, n1 + 0j, f * 1.46, f * (3.87 + 0.02j)])
        psi, delta = ref.psi_delta(n, [0, self.val(r.t) / 10, 2.0, 0], aoi, wav)
        if refl:
            delta = ref.reflect(delta)
        return psi, delta + self.val(r.off)

    def resid(self, r):
        psi, delta = self.predict(r, r.rows[:, 0], r.rows[:, 1], r.refl)
        return np.r_[psi - r.rows[:, 2], ref.circ(delta, r.rows[:, 3])]

    def logl(self, r):
        e = self.resid(r)
        var = 1.0
        if r.lns:
            m = np.r_[self.predict(r, r.rows[:, 0], r.rows[:, 1], r.refl)]
            var = 1 + np.exp(2 * self.val(r.lns)) * m**2
        return -0.5 * np.sum(e**2 / var)

    def varying(self, order):
        """distinct varying keys used by these objectives (set)"""
        ks = set()
        for j in order:
            r = self.o[j]
            for k in (r.t, r.A, r.off, r.lns):
                while k in self.con:
                    k = None  # constrained parameters do not vary
                if k and self.P[k].vary:
                    ks.add(k)
        return ks

    def vector(self, g, which):
        """new values for the varying parameters of g, in g's own order"""
        vec = []
        for p in g.varying_parameters():
            k = p.name
            f = [0.97, 1.04, 1.015][which % 3]
            v = self.V[k]
            v = v * f if not k.startswith("off") else 0.4 * (which % 3) - 0.2
            self.V[k] = v
            vec.append(v)
        return vec


def verify(ctx, w, order, **d):
    objs = [w.o[j].obj for j in order]
    g = GlobalObjective(objs)
    want = [w.resid(w.o[j]) for j in order]
    vp = list(g.varying_parameters())
    ctx.check(len({id(p) for p in vp}) == len(vp) and {p.name for p in vp} == w.varying(order), "distinct varying parameters", got=[p.name for p in vp], want=sorted(w.varying(order)), **d)
    ctx.close(g.residuals(), np.concatenate(want), "global residuals", rtol=1e-8, atol=1e-6, order=order, **d)
    c = sum(float(np.dot(e, e)) for e in want)
    ctx.close(g.chisqr(), c, "global chi-squared", rtol=1e-7, atol=1e-6, order=order, **d)
    ll = sum(w.logl(w.o[j]) for j in order)
    ctx.close(g.logl(), ll, "global log-likelihood", rtol=1e-7, atol=1e-6, order=order, **d)
    ctx.close(g.logpost(), g.logp() + ll, "global log-posterior", rtol=1e-7, atol=1e-6, order=order, **d)
    # with the current values passed explicitly
    ctx.close(g.residuals(np.array([float(p) for p in vp])), np.concatenate(want), "global residuals of a vector", rtol=1e-8, atol=1e-6, order=order, **d)
    for j in order:
        ctx.close(w.o[j].obj.residuals(), w.resid(w.o[j]), "residuals alone", rtol=1e-8, atol=1e-6, objective=j, **d)
        ctx.close(w.o[j].obj.chisqr(), np.sum(w.resid(w.o[j]) ** 2), "chi-squared alone", rtol=1e-7, atol=1e-6, objective=j, **d)
    for k, p in w.P.items():
        ctx.check(abs(float(p) - w.val(k)) < 1e-12, "parameter value", key=k, got=float(p), want=w.val(k), **d)
    ctx.step()


def op_res0(w, g):
    w.o[0].obj.residuals()


def op_last(w, g):
    w.o[-1].obj.logl()
    w.o[-1].obj.chisqr()


def op_vec1(w, g):
    g.residuals(w.vector(g, 0))


def op_vec2(w, g):
    g.logl(w.vector(g, 1))


def op_single(w, g):
    r = w.o[-1].obj
    r.chisqr(w.vector(r, 2))


def op_model(w, g):
    w.o[0].model(np.array([(777.0, 33.0)]))
    w.o[-1].model([(355.0, 80.0), (900.0, 10.0)])


def op_struct(w, g):
    w.o[0].st.wavelength = 500.0
    w.o[0].st.slabs()
    w.o[0].st.ri_profile()


def op_direct(w, g):
    k = w.o[0].t
    w.P[k].value = w.V[k] = w.V[k] * 1.05


def op_other(w, g):
    h = GlobalObjective([w.o[-1].obj, w.o[0].obj])
    h.logpost(w.vector(h, 1))


def op_covar(w, g):
    g.covar()


def op_refl(w, g):
    """an objective with the other convention on the same model"""
    r = w.o[0]
    ObjectiveSE(r.model, DataSE(tuple(np.array([(500.0, 60.0, 20.0, 200.0)]).T), reflect_delta=not r.refl)).residuals()


OPS = dict(res0=op_res0, last=op_last, vec1=op_vec1, vec2=op_vec2, single=op_single, model=op_model, struct=op_struct,
           direct=op_direct, other=op_other, covar=op_covar, refl=op_refl)


def cases(tier):
    q = tier == "quick"
    for c in itertools.product((False, True), repeat=1):
        yield [[], list(c), "hist"]
    for p in PATTERNS:
        for c in itertools.product((False, True), repeat=2):
            yield [[p], list(c), "hist"]
    for p in itertools.product(PATTERNS, repeat=2):
        for i, c in enumerate(itertools.product((False, True), repeat=3)):
            if q and i not in (2, 5):
                continue
            yield [list(p), list(c), "hist"]
    for p in PATTERNS:
        for c in ((False, False), (True, False)):
            yield [[p], list(c), "fit"]
    yield [[], [False], "fit"]
    yield [[], [True], "fit"]
    for p in (["param", "layer"], ["model", "none"], ["structure", "material"], ["constraint", "param"]):
        yield [p, [False, True, False], "fit"]


def run(case, ctx):
    pats, conv, mode = case
    n = len(pats) + 1
    if mode == "fit":
        return fits(ctx, pats, conv)
    for lns in ((), (0,), tuple(range(n))):
        if n == 3 and ctx.tier == "quick" and lns == (0,):
            continue
        depth = 2 if n < 3 or ctx.tier != "quick" else 1
        if ctx.tier == "quick" and lns:
            depth -= 1
        if n < 3 and ctx.tier != "quick" and not lns:
            depth = 3
        for k in range(depth + 1):
            for h in itertools.product(OPS, repeat=k):
                w = World(pats, conv, lns)
                g = GlobalObjective([r.obj for r in w.o])
                for name in h:
                    if name == "covar" and lns:
                        continue
                    OPS[name](w, g)
                orders = list(itertools.permutations(range(n)))
                if k:
                    orders = [orders[0], orders[-1]]
                for order in orders:
                    verify(ctx, w, order, patterns=pats, conventions=conv, noise=lns, history=h)
                ctx.trace()
                ctx.state((tuple(pats), tuple(conv), lns, h))
                ctx.outcome(repr([round(float(np.sum(w.resid(r) ** 2)), 4) for r in w.o]))


def fits(ctx, pats, conv):
    n = len(pats) + 1
    for order in itertools.permutations(range(n)):
        for start in (1.0, 1.02, 0.96, 1.005):
            w = World(pats, conv)
            d = dict(patterns=pats, conventions=conv, order=order, start=start)
            # exact data
            for r in w.o:
                psi, delta = w.predict(r, r.rows[:, 0], r.rows[:, 1], r.refl)
                r.rows = np.c_[r.rows[:, :2], psi, delta]
            shared = {}
            for r in w.o:
                # a shared dataset fits the first model that uses it
                if id(r.data) in shared:
                    r.rows = shared[id(r.data)]
                else:
                    shared[id(r.data)] = r.rows
                    r.data.data = tuple(r.rows.T.copy())
            if "data" in pats and start == 1.0:
                continue  # two models, one dataset: this is not an optimum
            for k, p in w.P.items():
                if k.startswith("t") and k not in w.con:
                    p.value = w.V[k] = w.V[k] * start
            g = GlobalObjective([w.o[j].obj for j in order])
            c0 = sum(np.sum(w.resid(w.o[j]) ** 2) for j in order)
            truth = dict(w.V)
            res = CurveFitter(g).fit("least_squares")
            for p, x in zip(g.varying_parameters(), res.x):
                w.V[p.name] = float(x)
                ctx.check(float(p) == float(x), "result of the fit not stored", parameter=p.name, got=float(p), want=float(x), **d)
            if start == 1.0:
                for k in truth:
                    ctx.check(abs(w.V[k] - truth[k]) <= 1e-4 * (1 + abs(truth[k])), "fit left the optimum", parameter=k, got=w.V[k], want=truth[k], **d)
            c1 = sum(np.sum(w.resid(w.o[j]) ** 2) for j in order)
            ctx.check(c1 <= c0 + 1e-9, "fit made the misfit worse", got=c1, start_value=c0, **d)
            verify(ctx, w, order, **{k: v for k, v in d.items() if k != "order"})
            ctx.trace()
            ctx.state(repr(d))
