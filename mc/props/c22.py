"""C22: covariance estimates."""
import itertools

import numpy as np

from mc import ref
from mc.samples import ROWS, Sample, resid
from mc.sut import *

ID = "C22"
BOUNDS = {
    "quick": "4 samples x every set of 1..3 varying parameters out of 6 (offset, thicknesses, "
    "dispersion, solvent fraction), each as given and with every subset of {offset, second "
    "thickness, B} at zero, negative offset/B, offsets of 0.01 and two turns x 3 row sets x {unreflected, reflected}, plain and masked; every "
    "cyclic/reversed row order; 5 ineffective parameters x 7 companion sets x {zero, non-zero}; "
    "1..4 rows from every starting row, leaving 1..4 degrees of freedom",
    "thorough": "as quick with 1..5 varying parameters, 6 row sets and all 24 orders of 4 rows",
}
ASSUMPTIONS = [
    "solvent fractions are inside (0, 1): at 0 the residuals are one-sided (negative fractions do not mix)",
    "residuals are smooth at the evaluated point (no Delta misfit within 1 degree of 0 or 180, no predicted "
    "Delta within 1 degree of 0/180 for reflected data) and the problem is well conditioned; other points are counted as outside",
    "reference Jacobian: central differences of the reference prediction, agreement to 0.3 % of the standard deviations",
]
BLOCK = 2

MORE = [(480.0 + 37.0 * i, 50.0 + (7.0 * i) % 26, 8.0 + (13.7 * i) % 60, (23.0 + 71.3 * i) % 360) for i in range(8)]
SETS = {"eight": ROWS, "sixteen": list(ROWS) + MORE, "five": ROWS[1:6], "more": MORE, "six": MORE[2:], "twelve": list(ROWS[:6]) + MORE[:6]}


def cases(tier):
    q = tier == "quick"
    nmax = 3 if q else 5
    for kind in ("film", "wet", "metal", "thick"):
        for k in range(1, nmax + 1):
            for vary in itertools.combinations(Sample.KEYS, k):
                yield ["covar", kind, list(vary)]
        for rough in ("l1.rough", "l2.rough", "front.thick", "back.thick", "back.rough"):
            yield ["singular", kind, rough]


STEP = dict(off=1e-2, t1=1e-2, A=1e-6, B=1e-6, vf=1e-6, t2=1e-2)


def ref_covar(sample, rows, reflected, vary):
    r0 = resid(sample, rows, reflected)
    n = len(rows)
    d = r0[n:]
    if np.any(d < 1) or np.any(d > 179):
        return None
    if reflected:
        raw = sample.predict(np.array(rows)[:, 0], np.array(rows)[:, 1], False, dict(off=0.0))[1]
        if np.any(np.abs((raw + 90) % 180 - 90) < 1):
            return None
    J = np.empty((len(r0), len(vary)))
    for j, k in enumerate(vary):
        h = STEP[k]
        # two step sizes combined (fourth order)
        def cd(h):
            return (resid(sample, rows, reflected, {k: sample.v[k] + h}) - resid(sample, rows, reflected, {k: sample.v[k] - h})) / (2 * h)

        J[:, j] = (4 * cd(h) - cd(2 * h)) / 3
    if not np.all(np.isfinite(J)):
        return None
    nrm = np.linalg.norm(J, axis=0)
    if np.any(nrm == 0):
        return None
    s = np.linalg.svd(J / nrm, compute_uv=False)
    if s[-1] < 1e-3:
        return None
    if len(r0) <= len(vary):
        return None
    C = np.linalg.inv((J / nrm).T @ (J / nrm)) / np.outer(nrm, nrm)
    return C * (r0 @ r0) / (len(r0) - len(vary))


def order_of(obj, sample, vary):
    """the order in which the objective lists its varying parameters"""
    ids = {id(sample.par(k)): k for k in vary}
    return [ids[id(p)] for p in obj.varying_parameters()]


def snapshot(obj):
    ps = list(obj.parameters.flattened())
    return [float(p) for p in ps], [p.vary for p in ps], [np.array(x).tobytes() for x in obj.data.data], np.array(obj.data.mask).tobytes()


def one(ctx, sample, rows, reflected, vary, mask=None, /, **d):
    a = np.array(rows, float)
    ds = DataSE(tuple(a.T), reflect_delta=reflected)
    a[:, 3] = ref.reflect(a[:, 3]) if reflected else a[:, 3]
    if mask is not None:
        ds.mask = mask
        a = a[mask]
    obj = ObjectiveSE(sample.model, ds)
    before = snapshot(obj)
    want = ref_covar(sample, a, reflected, order_of(obj, sample, vary))
    got = np.asarray(obj.covar()) if want is not None else None
    if want is None:
        try:
            obj.covar()
        except np.linalg.LinAlgError:
            pass
        ctx.skip()
    ctx.equal(snapshot(obj), before, "covariance changed the objective", **d)
    ctx.step()
    if want is None:
        return None
    k = len(vary)
    ctx.check(got.shape == (k, k), "shape", got=got.shape, **d)
    sd = np.sqrt(np.diag(want))
    ctx.check(
        bool(np.all(np.isfinite(got))) and bool(np.all(np.abs(got - want) <= 3e-3 * np.outer(sd, sd))),
        "covariance", got=got, want=want, **d,
    )
    ctx.check(bool(np.all(np.abs(got - got.T) <= 1e-9 * np.outer(sd, sd))), "symmetry", got=got, **d)
    ctx.check(bool(np.all(np.linalg.eigvalsh((got / np.outer(sd, sd) + (got / np.outer(sd, sd)).T) / 2) > 0)), "positive definite", got=got, **d)
    ctx.trace()
    ctx.state((sample.kind, tuple(vary), reflected, tuple(sorted(sample.v.items())), len(a)))
    ctx.outcome(tuple(np.round(np.log10(np.diag(got)), 2)))
    return got


def run(case, ctx):
    kind = case[1]
    if case[0] == "covar":
        vary = case[2]
        for reflected, n, i in itertools.product((False, True), (1, 2, 3, 4), range(len(SETS["sixteen"]))):
            # hardly more residuals than parameters
            if 1 <= 2 * n - len(vary) <= 4:
                s = Sample(kind, offset=4.0, vary=vary)
                if "vf" in vary and s.v["vf"] == 0:
                    s.set("vf", 0.15)
                rows = (list(SETS["sixteen"]) * 2)[i : i + n]
                one(ctx, s, rows, reflected, vary, sample=kind, vary_=vary, reflected_=reflected, first=i, n=n)
        zeros = [z for z in ("off", "t2", "B") if z in vary]
        sets = ("eight", "sixteen", "five") if ctx.tier == "quick" else list(SETS)
        combos = [(zz, ()) for zk in range(0, len(zeros) + 1) for zz in itertools.combinations(zeros, zk)]
        # negative and very unequal magnitudes
        neg = {"off": -7.0, "B": -0.006}
        nk_ = [k for k in neg if k in vary]
        for k in range(1, len(nk_) + 1):
            for c in itertools.combinations(nk_, k):
                combos.append(((), tuple((z, neg[z]) for z in c)))
        if "off" in vary:
            combos += [((), (("off", 0.01),)), ((), (("off", -0.01),)), ((), (("off", 724.0),))]
        for zz, signed in combos:
            for reflected in (False, True):
                if True:
                    s = Sample(kind, offset=4.0, vary=vary)
                    if "vf" in vary and s.v["vf"] == 0:
                        s.set("vf", 0.15)
                    # values that use all their digits
                    for z in vary:
                        s.set(z, s.v[z] * (1 + 1e-7 / 3))
                    for z in zz:
                        s.set(z, 0.0)
                    for z, x in signed:
                        s.set(z, x)
                    base = None
                    for name in sets:
                        rows = SETS[name]
                        d = dict(sample=kind, vary=vary, zero=zz, signed=signed, reflected=reflected, rows=name)
                        g = one(ctx, s, rows, reflected, vary, **d)
                        if name == "eight":
                            base = g
                    # reordering the points
                    if base is not None:
                        sd = np.sqrt(np.diag(base))
                        rows = list(SETS["eight"])
                        orders = [rows[::-1], rows[3:] + rows[:3]]
                        if ctx.tier != "quick":
                            orders += [[rows[i] for i in p] + rows[4:] for p in itertools.permutations(range(4))]
                        for o in orders:
                            g = one(ctx, s, o, reflected, vary, sample=kind, vary_=vary, order=o)
                            ctx.check(bool(np.all(np.abs(g - base) <= 1e-4 * np.outer(sd, sd))), "order of the points", got=g, want=base)
                        # masked points have no influence
                        m = np.r_[np.ones(8, bool), np.zeros(4, bool)]
                        g = one(ctx, s, rows + MORE[:4], reflected, vary, m, sample=kind, vary_=vary, masked=True)
                        ctx.check(bool(np.all(np.abs(g - base) <= 1e-4 * np.outer(sd, sd))), "masked points", got=g, want=base)
    else:
        which = case[2]
        companions = [[], ["t1"], ["A"], ["off"], ["t1", "A"], ["off", "t2"], ["t1", "A", "off"]]
        for comp in companions:
            for zero, reflected in itertools.product((False, True), repeat=2):
                s = Sample(kind, offset=4.0, vary=comp)
                st = s.structure
                p = {"l1.rough": s.l1.rough, "l2.rough": s.l2.rough, "front.thick": st[0].thick, "back.thick": st[-1].thick,
                     "back.rough": st[-1].rough}[which]
                p.setp(value=0.0 if zero else 3.0, vary=True, bounds=(-10, 10))
                p.name = "idle parameter"
                a = np.array(SETS["eight"])
                obj = ObjectiveSE(s.model, DataSE(tuple(a.T), reflect_delta=reflected))
                before = snapshot(obj)
                d = dict(sample=kind, ineffective=which, companions=comp, zero=zero)
                try:
                    r = obj.covar()
                except np.linalg.LinAlgError as e:
                    ctx.check("idle parameter" in str(e), "the error names the parameter", got=str(e), **d)
                    for k in comp:
                        ctx.check(repr(s.par(k)) not in str(e), "the error names an effective parameter", got=str(e), **d)
                else:
                    ctx.fail("ineffective parameter not reported", got=r, **d)
                ctx.equal(snapshot(obj), before, "failed covariance changed the objective", **d)
                # fixing it makes the estimate available again
                p.vary = False
                if comp:
                    obj.covar()
                    ctx.equal([float(x) for x in obj.parameters.flattened()], before[0], "covariance changed values", **d)
                ctx.step(2)
                ctx.trace()
                ctx.state((kind, which, tuple(comp), zero, reflected))
