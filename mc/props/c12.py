"""C12: log-prior, log-likelihood, log-posterior, prior transform."""
import itertools

import numpy as np
from scipy import stats
from refnx.analysis import Parameter, Interval, PDF

from mc import ref
from mc.samples import *
from mc.sut import *

ID = "C12"
BOUNDS = {
    "quick": "every assignment of 5 prior kinds {fixed, interval, half-open, "
    "normal, truncated} to 4 parameters x {no, fixed, varying} noise term x "
    "{no, extra term} x {no, structure term} (the mixed two only when t1 or A is fixed) x shared/unshared parameter; every "
    "vector of a 3^n grid (inside, on and outside the bounds); every masked "
    "dataset of 4 points; NaN in every data cell; 12 noise terms "
    "from e^-30 to e^30 x 4 ways of giving them x {fixed, varying}; 12 x 11 magnitudes of the user's and the structure's own terms incl. -inf; normal priors at 16 distances up to 3000 sigma x 5 widths; volume fractions without user bounds at 14 values",
    "thorough": "as quick over 3 samples and 5^n vectors",
}
ASSUMPTIONS = ["oracle: scipy.stats densities and the Airy solution of mc/ref.py"]
BLOCK = 4

PRIORS = ["fix", "int", "half", "norm", "trunc"]
NAMES = ["t1", "A", "vf", "off"]


class CountingModel(ReflectModelSE):
    calls = 0

    def __call__(self, x, p=None):
        CountingModel.calls += 1
        return super().__call__(x, p=p)


class PriorSlab(SlabSE):
    """a layer with its own log-probability term"""

    def logp(self):
        return -0.5 * ((self.thick.value - 30.0) / 11.0) ** 2


def bounds_of(kind, x):
    """(bounds object, list of test values (value, inside), logpdf, ppf)"""
    w = 0.1 * abs(x) + 0.05
    if kind == "int":
        lo, hi = x - w, x + 2 * w
        return ((lo, hi), [x, x + w, hi + w, lo - 0.5 * w, lo],
                lambda v: -np.log(hi - lo) if lo <= v <= hi else -np.inf, lambda u: lo + u * (hi - lo))
    if kind == "half":
        lo = x - w
        return (Interval(lo, np.inf), [x, x + 9 * w, lo - w, lo, lo - 0.01 * w],
                lambda v: 0.0 if v >= lo else -np.inf, None)
    if kind == "norm":
        d = stats.norm(x, w)
        return (PDF(d), [x, x + w, x - 3 * w, x + 0.1 * w, x - w], d.logpdf, d.ppf)
    if kind == "trunc":
        d = stats.truncnorm(-1, 1, loc=x, scale=w)
        return (PDF(d), [x, x + 0.5 * w, x + 2 * w, x - 0.9 * w, x - 1.5 * w], d.logpdf, d.ppf)
    raise ValueError(kind)


def cases(tier):
    kinds = ["wet"] if tier == "quick" else ["wet", "film", "metal"]
    for kind in kinds:
        for pri in itertools.product(PRIORS, repeat=4):
            for ln in ("none", "fixed", "vary"):
                yield ["prob", kind, list(pri), ln]
    for kind in ("film", "wet", "metal"):
        for refl in (False, True):
            yield ["noise", kind, refl]
            yield ["masks", kind, refl]
            yield ["nan", kind, refl]
            yield ["terms", kind, refl]
            yield ["far", kind, refl]
    yield ["shared"]
    yield ["fractions"]


def build(kind, pri, ln, extra, term, refl=False, rows=None):
    s = Sample(kind, vary=())
    if term:
        i = list(s.structure).index(s.l2)
        s.l2 = PriorSlab(s.v["t2"], s.l2.ri, 0)
        s.structure[i] = s.l2
    s.model = CountingModel(s.structure, delta_offset=s.v["off"])
    pri_of = {}
    for nm, k in zip(NAMES, pri):
        if k != "fix":
            b = bounds_of(k, s.v[nm])
            s.par(nm).setp(vary=True, bounds=b[0])
            pri_of[nm] = b
    rows = np.array(ROWS[:4] if rows is None else rows, float)
    ds = DataSE(tuple(rows.T), reflect_delta=refl)
    lnp = None
    if ln == "fixed":
        lnp = -4.0
    elif ln == "vary":
        b = bounds_of("int", -3.0)
        lnp = Parameter(-3.0, name="noise", vary=True, bounds=b[0])
        pri_of["ln"] = b
    s.v["ln"] = {"none": None, "fixed": -4.0, "vary": -3.0}[ln]
    seen = []

    def ex(model, data):
        seen.append((model, data))
        return -0.37 * float(model.structure[1].thick.value) / 100 - len(data)

    o = ObjectiveSE(s.model, ds, lnsigma=lnp, logp_extra=ex if extra else None)
    return s, o, ds, rows, pri_of, lnp, seen


def ref_logl(s, rows, refl, v, ln, extra, term):
    r = rows.copy()
    if refl:
        r[:, 3] = ref.reflect(r[:, 3])
    res = resid(s, r, refl, v)
    s2 = 1.0
    if ln is not None:
        psi, delta = s.predict(r[:, 0], r[:, 1], refl, v)
        s2 = 1 + np.exp(2 * ln) * np.r_[psi, delta] ** 2
    out = -0.5 * np.sum(res**2 / s2)
    if term:
        out += -0.5 * ((v["t2"] - 30.0) / 11.0) ** 2
    if extra:
        out += -0.37 * v["t1"] / 100 - len(rows)
    return out


def eq(ctx, got, want, msg, **d):
    if want == -np.inf:
        ctx.check(got == -np.inf, msg, got=got, want=want, **d)
    else:
        ctx.check(bool(abs(got - want) <= 1e-5 + 1e-8 * abs(want)), msg, got=got, want=want, **d)


def run_prob(ctx, kind, pri, ln):
    both = [(False, False), (True, True)]
    if ctx.tier == "thorough" or "fix" in pri[:2]:
        both = list(itertools.product((False, True), repeat=2))
    for extra, term in both:
        s, o, ds, rows, pri_of, lnp, seen = build(kind, pri, ln, extra, term)
        d = dict(kind=kind, priors=pri, lnsigma=ln, extra=extra, structure_term=term)
        vp = list(o.varying_parameters())
        key = {id(s.par(n)): n for n in NAMES}
        if lnp is not None and ln == "vary":
            key[id(lnp)] = "ln"
        order = [key[id(p)] for p in vp]
        ctx.check(sorted(order) == sorted(pri_of), "varying parameters", got=order, want=sorted(pri_of), **d)
        nv = 3 if ctx.tier == "quick" else 5
        # quick: one coordinate at a time plus the corners; thorough: the grid
        vecs = []
        if ctx.tier == "quick":
            base = [pri_of[k][1][0] for k in order]
            vecs.append(base)
            for i, k in enumerate(order):
                for x in pri_of[k][1][1:nv]:
                    vecs.append(base[:i] + [x] + base[i + 1 :])
            vecs.append([pri_of[k][1][1] for k in order])
            vecs.append([pri_of[k][1][2] for k in order])
        else:
            vecs = [list(c) for c in itertools.product(*[pri_of[k][1][:3] for k in order])]
            base = vecs[0]
            for i, k in enumerate(order):
                for x in pri_of[k][1][3:]:
                    vecs.append(base[:i] + [x] + base[i + 1 :])
        for vec in vecs:
            v = dict(s.v)
            v.update(zip(order, vec))
            wp = float(sum(pri_of[k][2](x) for k, x in zip(order, vec)))
            wl = ref_logl(s, rows, False, v, v["ln"], extra, term)
            dd = dict(d, vector=dict(zip(order, vec)))
            eq(ctx, o.logp(vec), wp, "log-prior", **dd)
            CountingModel.calls = 0
            n0 = len(seen)
            post = o.logpost(vec)
            if wp == -np.inf:
                ctx.check(post == -np.inf, "posterior of an impossible prior", got=post, **dd)
                ctx.check(CountingModel.calls == 0, "model evaluated although the prior is impossible", **dd)
                ctx.check(len(seen) == n0, "extra term evaluated although the prior is impossible", **dd)
            else:
                eq(ctx, post, wp + wl, "log-posterior", **dd)
                ctx.check((len(seen) > n0) == extra, "extra term not consulted", **dd)
            if all(np.isfinite(x) for x in vec) and v["vf"] >= 0 and v["vf"] <= 1:
                eq(ctx, o.logl(vec), wl, "log-likelihood", **dd)
                eq(ctx, o.logl(), wl, "log-likelihood at the current values", **dd)
                if extra:
                    ctx.check(seen[-1][0] is s.model and seen[-1][1] is ds, "arguments of the extra term", **dd)
            ctx.check(all(float(p) == x for p, x in zip(vp, vec)), "values were not set", **dd)
            ctx.step(3)
            ctx.trace()
            ctx.outcome(round(wl, 4))
            ctx.state((kind, tuple(pri), ln, extra, term, tuple(vec)))
        # prior transform, coordinate by coordinate
        if all(pri_of[k][3] is not None for k in order) and order:
            us = [0.0, 0.25, 0.5, 0.9] if ctx.tier == "thorough" else [0.25, 0.5, 0.9]
            ends = [0.0, 1e-12, 1e-6, 1e-4, 0.9995, 1 - 1e-6, 1 - 1e-12, 1.0]
            for u in ends:
                w = np.array([pri_of[k][3](u) for k in order])
                g = o.prior_transform(np.full(len(order), u))
                ok = np.isfinite(w)
                ctx.close(np.asarray(g)[ok], w[ok], "prior transform near the ends of the unit interval", rtol=1e-9, atol=1e-12, u=u, **d)
                for i, k in enumerate(order):
                    uu = [0.5] * len(order)
                    uu[i] = u
                    g = o.prior_transform(np.array(uu))
                    w1 = np.array([pri_of[kk][3](x) for kk, x in zip(order, uu)])
                    ok = np.isfinite(w1)
                    ctx.close(np.asarray(g)[ok], w1[ok], "prior transform near the ends of the unit interval", rtol=1e-9, atol=1e-12, u=uu, **d)
            before = [float(p) for p in o.parameters.flattened()]
            for u in itertools.product(us, repeat=len(order)) if len(order) <= 3 else zip(*[us[i % len(us):] + us[: i % len(us)] for i in range(len(order))]):
                if 0.0 in u and any(pri[NAMES.index(k)] == "norm" for k in order if k in NAMES):
                    continue
                g = o.prior_transform(np.array(u))
                w = np.array([pri_of[k][3](x) for k, x in zip(order, u)])
                ctx.close(g, w, "prior transform", rtol=1e-9, atol=1e-12, u=u, **d)
            ctx.check(before == [float(p) for p in o.parameters.flattened()], "prior transform changed the parameters", **d)


def run_masks(ctx, kind, refl):
    for bits in itertools.product((True, False), repeat=4):
        if not any(bits):
            continue
        for ln, extra, term in itertools.product(("none", "fixed"), (False, True), (False, True)):
            s, o, ds, rows, *_ = build(kind, ["int", "int", "fix", "fix"], ln, extra, term, refl)
            ds.mask = bits
            v = dict(s.v)
            w = ref_logl(s, rows[np.array(bits)], refl, v, v["ln"], extra, term)
            eq(ctx, o.logl(), w, "log-likelihood of a masked dataset", kind=kind, reflected=refl, mask=bits, ln=ln)
            ctx.step()
            ctx.trace()
            ctx.state((kind, refl, bits, ln, extra, term))


def run_nan(ctx, kind, refl):
    for r, c in itertools.product(range(4), (2, 3)):
        rows = np.array(ROWS[:4], float)
        rows[r, c] = np.nan
        for ln in ("none", "fixed"):
            s, o, ds, *_ = build(kind, ["int", "int", "fix", "fix"], ln, False, False, refl, rows)
            d = dict(kind=kind, reflected=refl, cell=[r, c])
            ctx.raises(o.logl, "a NaN misfit is accepted", exc=RuntimeError, **d)
            ctx.raises(o.logpost, "a NaN misfit is accepted by logpost", exc=RuntimeError, **d)
            m = np.ones(4, bool)
            m[r] = False
            ds.mask = m
            w = ref_logl(s, rows[m], refl, s.v, s.v["ln"], False, False)
            eq(ctx, o.logl(), w, "a masked NaN has an influence", **d)
            ctx.step()
            ctx.state((kind, refl, r, c, ln))
    ctx.trace()


def run_noise(ctx, kind, refl):
    """every magnitude of the noise term, given in every way"""
    rows = np.array(ROWS[:4], float)
    LN = [-30.0, -8.5, -4.0, -1.0, -1e-9, 0.0, 1e-9, 0.3, 1.0, 2.5, 7.0, 30.0]
    for how, vary in itertools.product(("number", "param", "setp", "value"), (False, True)):
        s = Sample(kind)
        o = None
        for ln in LN:
            if o is None or how in ("number", "param"):
                p = ln if how == "number" else Parameter(ln, name="noise", vary=vary, bounds=(-40, 40))
                o = ObjectiveSE(s.model, DataSE(tuple(rows.T), reflect_delta=refl), lnsigma=p)
            if how == "value":
                o.lnsigma.value = ln
            elif how == "setp":
                o.lnsigma.setp(ln)
            elif how == "number" and vary:
                o.lnsigma.setp(vary=True, bounds=(-40, 40))
            v = dict(s.v)
            w = ref_logl(s, rows, refl, v, ln, False, False)
            d = dict(kind=kind, reflected=refl, ln=ln, how=how, varying=vary)
            eq(ctx, o.logl(), w, "log-likelihood with a noise term", **d)
            # a varying noise term comes in through the vector as well
            vec = [float(x) for x in o.varying_parameters()]
            if how == "param" and vary:
                other = [7.7 if x is p else float(x) for x in o.varying_parameters()]
                eq(ctx, o.logl(other), ref_logl(s, rows, refl, v, 7.7, False, False), "log-likelihood with a noise term", **d)
            eq(ctx, o.logl(vec), w, "log-likelihood with a noise term", **d)
            ctx.step()
            ctx.state((kind, refl, how, vary, ln))
    ctx.trace()


class TermSlab(SlabSE):
    term = 0.0

    def logp(self):
        return TermSlab.term


def run_terms(ctx, kind, refl):
    """every magnitude of the user's and the structure's terms"""
    rows = np.array(ROWS[:4], float)
    T = [0.0, 1e-7, -1e-7, -0.5, 1, 37.5, np.float64(-12.25), 1e5, -1e5, -1e12, -np.inf]
    s = Sample(kind)
    i = list(s.structure).index(s.l2)
    s.l2 = TermSlab(s.v["t2"], s.l2.ri, 0)
    s.structure[i] = s.l2
    box = {}
    for ln in (None, -2.0):
        base = ref_logl(s, rows, refl, s.v, ln, False, False)
        for user, term in itertools.product(["none"] + T, T):
            box["t"] = user
            TermSlab.term = term
            ex = None if user == "none" else lambda model, data: box["t"]
            o = ObjectiveSE(s.model, DataSE(tuple(rows.T), reflect_delta=refl), lnsigma=ln, logp_extra=ex)
            want = base + term + (0.0 if user == "none" else user)
            d = dict(kind=kind, reflected=refl, user=user, structure=term, ln=ln)
            lp = o.logp()
            eq(ctx, o.logl(), want, "log-likelihood with additional terms", **d)
            eq(ctx, o.logpost(), lp + want, "log-posterior with additional terms", **d)
            ctx.step()
            ctx.state((kind, refl, str(user), term, ln))
    TermSlab.term = 0.0
    ctx.trace()


def run_far(ctx, kind, refl):
    """a prior may be very small without being impossible"""
    rows = np.array(ROWS[:4], float)
    for rel in (1e-7, 1e-3, 0.05, 3.0, 1e4):
        for ln in (None, -2.0):
            s = Sample(kind)
            x = s.v["t1"]
            dist = stats.norm(x, rel * x)
            s.par("t1").setp(vary=True, bounds=PDF(dist))
            s.par("A").setp(vary=False)
            o = ObjectiveSE(s.model, DataSE(tuple(rows.T), reflect_delta=refl), lnsigma=ln)
            for z in (0.0, 0.1, 1.0, 6.0, 12.0, 25.0, 37.0, 39.0, 45.0, 60.0, 100.0, 140.0, 300.0, 700.0, 1000.0, 3000.0):
                t = x + z * rel * x
                if t > 1e5:
                    continue
                v = dict(s.v, t1=t)
                wp, wl = float(dist.logpdf(t)), ref_logl(s, rows, refl, v, ln, False, False)
                d = dict(kind=kind, reflected=refl, width=rel, z=z, ln=ln)
                eq(ctx, o.logp([t]), wp, "log-prior far from its centre", **d)
                eq(ctx, o.logl([t]), wl, "log-likelihood far from the centre of the prior", **d)
                eq(ctx, o.logpost([t]), wp + wl, "log-posterior far from the centre of the prior", **d)
                eq(ctx, o.logpost(), wp + wl, "log-posterior far from the centre of the prior", **d)
                ctx.step()
                ctx.state((kind, refl, "far", rel, z, ln))
    ctx.trace()


def run_shared(ctx):
    """a parameter used at several places counts once in the prior"""
    for nshare in (2, 3, 4):
        for mode in ("param", "layer", "material"):
            p = Parameter(100.0, name="t", vary=True, bounds=(50.0, 250.0))
            mat = Cauchy(Parameter(1.5, name="A", vary=True, bounds=(1.4, 1.7)), 0.004)
            if mode == "param":
                ls = [nk(1.4 + 0.1 * i)(p, 0) for i in range(nshare)]
            elif mode == "layer":
                ls = [mat(p, 0)] * nshare
            else:
                ls = [mat(p if i == 0 else 40.0, 0) for i in range(nshare)]
            st = StructureSE([nk(1.0)()] + ls + [nk(3.8 + 0.02j)()])
            rows = np.array(ROWS[:3])
            o = ObjectiveSE(ReflectModelSE(st), DataSE(tuple(rows.T)))
            w = -np.log(200.0) + (0.0 if mode == "param" else -np.log(0.3))
            eq(ctx, o.logp(), w, "a shared parameter is counted more than once in the prior", mode=mode, times=nshare)
            for t in (49.0, 251.0):
                vec = [t] if mode == "param" else [t, 1.5]
                eq(ctx, o.logp(vec), -np.inf, "outside the bound", mode=mode, times=nshare)
                ctx.check(o.logpost(vec) == -np.inf, "outside the bound", mode=mode)
            ctx.step()
            ctx.trace()
            ctx.state(("shared", nshare, mode))


def run_fractions(ctx):
    """a volume fraction lies in [0, 1] also when the user gives no bounds"""
    rows = np.array(ROWS[:3], float)
    for how in range(4):
        a, b = Cauchy(1.45, 0.003), RI((1.6, 0.01))
        if how == 0:
            lay = SlabSE(200.0, a, 0, vfsolv=0.3)
        elif how == 1:
            lay = a(200.0, 0, 0.3)
        elif how == 2:
            lay = SlabSE(200.0, a, 0)
        else:
            lay = MixedSlabSE(200.0, a, b, 0.3, 0)
        par = lay.vf_B if how == 3 else lay.vfsolv
        par.vary = True
        o = ObjectiveSE(ReflectModelSE(nk(1.0)() | lay | nk(1.33)()), DataSE(tuple(rows.T)))
        for v in (-1.0, -1e-3, -1e-9, 0.0, 1e-9, 1e-3, 0.3, 0.999, 1 - 1e-9, 1.0, 1 + 1e-9, 1.001, 1.005, 2.0):
            want = 0.0 if 0 <= v <= 1 else -np.inf
            d = dict(layer=how, fraction=v)
            eq(ctx, o.logp([v]), want, "prior of a volume fraction", **d)
            if want < 0:
                eq(ctx, o.logpost([v]), -np.inf, "posterior outside the range of a volume fraction", **d)
            ctx.step()
            ctx.state((how, v))
        for u in (0.0, 0.25, 0.5, 1.0):
            ctx.close(o.prior_transform(np.array([u])), [u], "prior transform of a volume fraction", atol=1e-12, layer=how, u=u)
    ctx.trace()


def run(case, ctx):
    {"prob": run_prob, "masks": run_masks, "nan": run_nan, "noise": run_noise, "terms": run_terms, "far": run_far, "shared": run_shared, "fractions": run_fractions}[case[0]](ctx, *case[1:])
