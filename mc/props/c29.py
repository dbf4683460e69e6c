"""C29: independent objects used from several threads (controlled scheduler)."""
import copy
import io
import itertools
import os
import pickle
import sys
import threading

import numpy as np
from refnx.analysis import Parameter

import refellips
from refellips.dataSE import open_EP4file, open_FilmSenseFile, open_HORIBAfile, open_M2000file
from mc.props import c17, c18, c19, c20
from mc.sut import *

ID = "C29"
BOUNDS = {
    "quick": "22 activities A, each paired with itself on other data, 8 model-side or 7 file-side partners B and 4 bridging ones (predictions through every dispersion law, mixing rule, "
    "solvation, reversal, graded interfaces, profiles, slab tables, objectives, covariance, datasets, all five "
    "loaders, materials, copies, pickles, edits) on separate models, structures, objectives and datasets that share "
    "materials, layers, fixed parameters and input arrays: two real threads, A preempted at every executed line of refellips (first "
    "execution of each line on each object, last of each line), B runs to its end, A resumes (preemption bound 1, line "
    "granularity); preemption bound 2 at 6 evenly spread distinct lines of each side "
    "(all combinations) for every unordered pair of the 7 model/objective activities; blocked threads hand over",
    "thorough": "as quick with all ordered pairs of activities, the first 40 executions of each line and bound 2 at 25 points per side",
}
ASSUMPTIONS = [
    "calls into numpy, scipy, pandas and refnx are atomic (preemption happens at lines of refellips)",
    "two threads never use the same model, structure, objective or dataset object, nor change a shared parameter",
]
CASE_TIMEOUT = 700
ROOT = os.path.dirname(os.path.abspath(refellips.__file__)) + os.sep
TESTS = ROOT + "tests" + os.sep


# ------------------------------------------------------------------ the scheduler
class Sched:
    """
    Runs thunks in threads, exactly one at a time.  ``plan`` is a list of
    (thread, n): the thread runs until its n-th scheduling point and hands
    over to the thread of the next entry; None means until it ends.
    """

    def __init__(self, thunks, plan, log=None, wait=2.0):
        self.thunks = thunks
        self.plan = plan
        self.pos = 0
        self.count = [0] * len(thunks)
        self.go = [threading.Event() for _ in thunks]
        self.done = [threading.Event() for _ in thunks]
        self.out = [None] * len(thunks)
        self.log = log
        self.wait = wait
        self.blocked = 0
        self.keep = []  # so that an id is never used twice

    def point(self, me, key):
        if self.log is not None:
            self.log[me].append(key)
            self.count[me] += 1
            return
        self.count[me] += 1
        if self.pos < len(self.plan):
            t, n = self.plan[self.pos]
            if t == me and n == self.count[me]:
                self.pos += 1
                self.handover(me)
                if not self.ahead(me):
                    sys.settrace(None)

    def ahead(self, me):
        return self.log is not None or any(t == me and n for t, n in self.plan[self.pos :])

    def handover(self, me):
        """let the thread of the current plan entry run until it hands back"""
        if self.pos >= len(self.plan):
            return
        t, _ = self.plan[self.pos]
        if t == me or self.done[t].is_set():
            return
        self.go[me].clear()
        self.go[t].set()
        # a thread that waits for something this one holds cannot go on: take over again
        if not self.go[me].wait(self.wait):
            self.blocked += 1

    def finish(self, me):
        self.done[me].set()
        for i, g in enumerate(self.go):
            if i != me:
                g.set()

    def body(self, me):
        def local(frame, event, arg):
            if event == "line":
                # when recording, tell executions on different objects apart
                obj = None
                if self.log is not None:
                    obj = frame.f_locals.get("self")
                    self.keep.append(obj)
                self.point(me, (frame.f_code.co_filename, frame.f_lineno, id(obj)))
            return local

        def tr(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn.startswith(ROOT) and not fn.startswith(TESTS):
                return local
            return None

        self.go[me].wait()
        if self.ahead(me):
            sys.settrace(tr)
        try:
            r = ("ok", self.thunks[me]())
        except Exception as e:
            r = ("raised", type(e).__name__, str(e)[:300])
        finally:
            sys.settrace(None)
        self.out[me] = r
        self.finish(me)

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.thunks))]
        for t in ts:
            t.start()
        self.go[self.plan[0][0] if self.plan else 0].set()
        for t in ts:
            t.join(60)
        return self.out


# ------------------------------------------------------------------ the activities
PTS = [
    np.array([(658.0, 60.0), (658.0, 70.0), (450.0, 60.0)]),
    np.array([(532.0, 65.0), (450.0, 75.0)]),
]


class World:
    """shared fixed materials, layers and parameters; everything else per thread"""

    MAKE = dict(
        air=lambda w: RI((1.0, 0.0), name="air"),
        water=lambda w: Cauchy(1.324, 0.003046, name="water"),
        film=lambda w: Cauchy(1.45, 0.005, name="film"),
        si=lambda w: RI([np.array([300.0, 500.0, 900.0]), np.array([4.9, 4.3, 3.6]), np.array([3.1, 0.07, 0.004])], name="si"),
        sell=lambda w: Sellmeier(1.1, 0.095, 0.011, 1.05),
        lor=lambda w: Lorentz([2.0, 0.4], [0.3, 0.8], [4.0, 6.5], 1.4),
        gau=lambda w: Gauss([1.0, 0.7], [0.4, 0.9], [3.2, 5.0], 1.3),
        tl=lambda w: TaucLorentz([20.0, 11.0], [1.1, 2.3], [3.5, 5.0], 1.6, 1.2),
        layer=lambda w: w.film(450.0, 3.0, vfsolv=0.25),
        mixed=lambda w: MixedSlabSE(120.0, w.film, w.si, 0.3, 2.0),
        fixed=lambda w: Parameter(77.0, name="shared"),
    )

    def __init__(self, tmp):
        self.tmp = tmp
        self.pts = PTS

    def __getattr__(self, k):
        if k not in self.MAKE:
            raise AttributeError(k)
        v = self.__dict__[k] = self.MAKE[k](self)
        return v


def stackup(w, *mid, back=None, **kw):
    return StructureSE([w.air(), *mid, (back or w.si)()], **kw)


def prediction(mid, pts, **kw):
    def make(w):
        m = ReflectModelSE(stackup(w, *mid(w), **kw), delta_offset=1.5)
        return lambda: np.array(m(w.pts[pts]))

    return make


def disp(attr, wavs):
    def make(w):
        mat = getattr(w, attr)
        return lambda: [np.asarray(mat.complex(x)) for x in wavs]

    return make


def objective(mid, seedrows, refl=False, op="resid"):
    def make(w):
        t = Parameter(910.0, name="t", vary=True, bounds=(100, 1900))
        mids = [w.film(t, 0)] + mid(w)
        rows = np.array([(658.0, 60.0, 31.0, 155.0), (450.0, 75.0, 44.0, 300.0), (532.0, 65.0, 12.0, 10.0)]) + seedrows
        ds = DataSE(rows.T, reflect_delta=refl)
        ds.mask = np.array([True, True, seedrows == 0])
        o = ObjectiveSE(ReflectModelSE(stackup(w, *mids)), ds)

        def go():
            if op == "resid":
                return [o.residuals([1422.0 + seedrows]), o.chisqr()]
            if op == "logpost":
                return [o.logpost([1388.0 + seedrows]), float(t.value)]
            return [o.covar(), o.setp([355.0]), float(t.value)]

        return go

    return make


def graded(seed):
    from refnx.reflect import Erf

    def make(w):
        l = SlabSE(30.0 + seed, w.film, 3.0 + seed / 10, interface=Erf())
        m = ReflectModelSE(StructureSE([w.air(), l, w.si(0, 4.0)]))
        return lambda: np.array(m(w.pts[1]))

    return make


def slabs(wav, rev=False, **kw):
    def make(w):
        s = stackup(w, w.layer, w.mixed, w.lor(30.0), reverse_structure=rev, wavelength=wav, **kw)
        return lambda: [np.array(s.slabs()), complex(0)]

    return make


def profile(wav):
    def make(w):
        s = stackup(w, w.layer, w.sell(80.0, 5.0), wavelength=wav)
        return lambda: [np.asarray(x) for x in s.ri_profile(max_delta_z=3.0)]

    return make


def dataset(k):
    def make(w):
        rows = np.array([(658.0, 60.0, 31.0, 155.0), (450.0, 75.0, 44.0, 300.0), (532.0 + k, 65.0, 12.0, 10.0)])
        p = os.path.join(w.tmp, f"ds{k}.txt")
        q = f"old{k}.txt"  # relative: the working directory is nobody's to change
        DataSE(rows.T - k).save(os.path.join(w.tmp, q))

        def go():
            d = DataSE(rows.T + k, name=f"n{k}", reflect_delta=bool(k))
            d.mask = [True, False, bool(k)]
            groups = [(float(a), np.array(b)) for a, *b in d.unique_wavelength_data()]
            d.save(p)
            e = DataSE(p, reflect_delta=bool(k))
            e.refresh()
            f = DataSE(q)
            return [np.array(f.data), groups, np.array(d.data), np.array(e.data), repr(d), len(e)]

        return go

    return make


def ep4(k):
    rows = [c17.row(500.0 + 10 * (i % 2), 60.0, 20.0 + i + k, 100.0 + 3 * i, t=float(i // 2)) for i in range(4)]
    text = c17.render(rows, True, False)

    def make(w):
        p = os.path.join(w.tmp, f"e{k}{c17.STAMP}")
        with open(p, "w") as f:
            f.write(text)

        def go():
            r = open_EP4file(p)
            return [[np.array(d.data), str(d.name)] for d in r]

        return go

    return make


def m2000(k):
    if k == 0:
        text = c18.single_text(c18.data(3), 2, "\n", True)
    else:
        text = c18.dyn_text([r + (0.0232 * (1 + i // 2),) for i, r in enumerate(c18.data(4, 5))], 3, "\n", True)

    def make(w):
        def go():
            r = open_M2000file(io.StringIO(text))
            rs = [r] if k == 0 else [r[q] for q in r]
            return [[np.array(d.data), sorted(d.metadata.items())] for d in rs]

        return go

    return make


def filmsense(k):
    wav = [450.0, 530.0 + k, 660.0]
    pts = [c19.ncs(20.0 + 5 * i + k, 100.0 + 40 * i, 1) for i in range(3)]
    text = c19.std_text(wav, pts, 65.0 + k, 4, 6, "\n", True)

    def make(w):
        def go():
            d = open_FilmSenseFile(io.StringIO(text))
            return [np.array(d.data), sorted(d.metadata.items())]

        return go

    return make


def horiba(k):
    blocks = [
        ("SAMPLE NAME", [f"brush {k}"]), ("INCIDENCE ANGLE", [f"{65 + k}.00"]), ("NOTES", ["x", "y"] if k else ["z"]),
        ("DATA", c20.data_block(c20.drows(3 + k), ["nm", "Psi", "Delta"])),
    ]
    text = c20.render(blocks)

    def make(w):
        def go():
            d = open_HORIBAfile(io.StringIO(text))
            return [np.array(d.data), sorted((a, str(b)) for a, b in d.metadata.items())]

        return go

    return make


def matfile(name):
    def make(w):
        return lambda: [np.asarray(load_material(name).complex(x)) for x in (450.0, 633.0)]

    return make


def clone(k):
    def make(w):
        s = stackup(w, w.layer, w.tl(40.0 + k))
        m = ReflectModelSE(s)

        def go():
            c = copy.deepcopy(m) if k else pickle.loads(pickle.dumps(m))
            return [np.array(c(w.pts[1])), len(c.parameters.flattened())]

        return go

    return make


def edit(k):
    def make(w):
        def go():
            s = w.air | w.layer | w.mixed
            s |= w.gau(30.0 + k)
            s.insert(1, w.water(10.0 * (k + 1)))
            s.append(w.si)
            s.solvent = w.water if k else w.sell
            s.wavelength = 480.0 + 100 * k
            return [np.array(s.slabs()), len(s), len(s.parameters.flattened()), repr(s)[:40]]

        return go

    return make


def ema(rule):
    def make(w):
        a = np.array([1.5, 0.2 + 3j, 2.4 + 0.1j])
        b = np.array([1.33, 1.6, 0.1 + 2j])
        return lambda: [overall_ri(a, b, v, ema=rule, depolarisation_factor=0.4) for v in (0.2, 0.9)]

    return make


ACTS = {
    "solvated": prediction(lambda w: [w.layer, w.mixed], 0, ema="maxwell-garnett", depolarisation_factor=0.4),
    "bruggeman": prediction(lambda w: [w.layer, w.mixed], 1, ema="bruggeman", depolarisation_factor=0.25),
    "oscillators": prediction(lambda w: [w.sell(60.0), w.lor(40.0), w.gau(20.0), w.tl(30.0)], 1, reverse_structure=True),
    "graded": graded(0.0),
    "residuals": objective(lambda w: [w.layer], 0.0),
    "residuals2": objective(lambda w: [w.tl(30.0), SlabSE(w.fixed, w.water, 0)], 3.0, refl=True),
    "logpost": objective(lambda w: [w.mixed], 1.0, op="logpost"),
    "covar": objective(lambda w: [w.mixed], 1.0, refl=True, op="covar"),
    "slabs": slabs(611.0, True, ema="bruggeman"),
    "profile": profile(640.0),
    "mixing": ema("maxwell-garnett"),
    "dispersion": disp("tl", (300.0, np.array([500.0, 600.0]))),
    "gauss": disp("gau", (350.0, np.array([700.0, 800.0]))),
    "dataset": dataset(0),
    "ep4": ep4(0),
    "m2000": m2000(0),
    "kinetic": m2000(1),
    "filmsense": filmsense(0),
    "horiba": horiba(0),
    "material": matfile("silica"),
    "clone": clone(0),
    "edit": edit(1),
}
TWICE = {"m2000": m2000(0), "kinetic": m2000(1), "ep4": ep4(1), "filmsense": filmsense(1), "horiba": horiba(1),
         "material": matfile("silicon"), "clone": clone(1), "edit": edit(0), "graded": graded(20.0)}
TWICE.update(
    solvated=prediction(lambda w: [w.layer], 1, ema="linear"),
    bruggeman=prediction(lambda w: [w.layer, w.mixed], 0, ema="bruggeman", depolarisation_factor=0.7),
    oscillators=prediction(lambda w: [w.tl(44.0), w.gau(22.0), w.lor(11.0)], 0),
    residuals=objective(lambda w: [w.layer], 2.0), residuals2=objective(lambda w: [w.tl(30.0)], 1.0),
    covar=objective(lambda w: [w.layer], 0.0, op="covar"), logpost=objective(lambda w: [w.layer], 2.0, op="logpost"),
    mixing=ema("bruggeman"), slabs=slabs(500.0), profile=profile(455.0), dispersion=disp("tl", (350.0, 800.0)),
    gauss=disp("gau", (300.0, np.array([500.0, 600.0, 900.0]))), dataset=dataset(1),
)
MODEL = ["solvated", "bruggeman", "oscillators", "residuals", "residuals2", "slabs", "covar"]
FILES = ["dataset", "ep4", "m2000", "kinetic", "filmsense", "horiba", "material"]
INTRUDERS = ["bruggeman", "oscillators", "residuals2", "graded", "slabs", "edit", "mixing", "dispersion"]
BRIDGE = ["bruggeman", "residuals2", "dataset", "kinetic"]


def act(name, second):
    """the second of two equal activities works on other data where it can"""
    return TWICE[name] if second and name in TWICE else ACTS[name]


def cases(tier):
    for a in ACTS:
        for b in ACTS:
            if a == b or b in BRIDGE or b in (FILES if a in FILES else INTRUDERS) or tier != "quick":
                yield ["one", a, b]
    for a, b in itertools.combinations_with_replacement(MODEL, 2):
        yield ["two", a, b]


def flat(x):
    if isinstance(x, (list, tuple)):
        return [y for v in x for y in flat(v)]
    return [x]


def agree(got, want):
    if got is None or got[0] != want[0]:
        return False
    if got[0] == "raised":
        return got == want
    a, b = flat(got[1]), flat(want[1])
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(y, (str, type(None))):
            if x != y:
                return False
            continue
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return False
        if x.dtype.kind in "OUS" or y.dtype.kind in "OUS":
            if not np.array_equal(x, y):
                return False
        elif not np.allclose(x, y, rtol=1e-9, atol=1e-11, equal_nan=True):
            return False
    return True


def serial(fa, tmp):
    return ("ok", fa(World(tmp))())


def run(case, ctx):
    kind, a, b = case
    fa, fb = act(a, False), act(b, a == b)
    tmp = ctx.tmpdir()
    cwd = os.getcwd()
    os.chdir(tmp)
    try:
        return interleavings(ctx, kind, a, b, fa, fb, tmp)
    finally:
        os.chdir(cwd)


def interleavings(ctx, kind, a, b, fa, fb, tmp):
    want = [serial(fa, tmp), serial(fb, tmp)]
    again = [serial(fa, tmp), serial(fb, tmp)]
    ctx.check(agree(again[0], want[0]) and agree(again[1], want[1]), "serial evaluation is not repeatable", activities=[a, b])

    def execute(plan, log=None):
        w = World(tmp)
        s = Sched([fa(w), fb(w)], plan, log)
        out = s.run()
        ctx.step(len(plan))
        ctx.trace()
        for i, name in enumerate((a, b)):
            ctx.check(
                agree(out[i], want[i]), "result depends on what another thread does", activity=name, thread=i,
                other=(b, a)[i], plan=plan, got=out[i], want=want[i],
            )
        ctx.outcome((a, b, s.blocked, tuple(s.count)))
        return s

    log = [[], []]
    execute([(0, None), (1, None)], log)
    full = ctx.tier == "thorough"
    if kind == "one":
        # every line of A: its first executions and the last one
        seen, last = {}, {}
        for k, key in enumerate(log[0], 1):
            last[key[:2]] = k
        for k, key in enumerate(log[0], 1):
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > (40 if full else 1) and last[key[:2]] != k:
                continue
            ctx.state((a, b, k))
            execute([(0, k), (1, None), (0, None)])
        ctx.check(len(log[0]) > 0, "no scheduling point", activity=a)
        return
    pts = []
    for i in (0, 1):
        first = {}
        for k, key in enumerate(log[i], 1):
            first.setdefault(key, k)
        ks = sorted(first.values())
        n = 25 if full else 6
        pts.append(sorted({ks[j * (len(ks) - 1) // max(n - 1, 1)] for j in range(n)}))
    for k1 in pts[0]:
        for k2 in pts[1]:
            ctx.state((a, b, "two", k1, k2))
            execute([(0, k1), (1, k2), (0, None), (1, None)])
    # the same with the other thread first
    for k2 in pts[1]:
        for k1 in pts[0]:
            execute([(1, k2), (0, k1), (1, None), (0, None)])
