"""Small samples with a reference prediction, shared by the objective checks."""
import numpy as np

from refnx.analysis import Parameter

from mc import ref
from mc.sut import *


class Sample:
    """
    air | film (Cauchy A, B; t1; solvent fraction) | film 2 (constant) | silicon
    Values live in ``v`` (the reference record) and in the real objects.
    """

    KEYS = ["off", "t1", "A", "B", "vf", "t2"]

    def __init__(self, kind, v=None, offset=0.0, vary=("t1", "A"), bounds=None):
        self.kind = kind
        base = {
            "film": dict(t1=450.0, A=1.45, B=0.005, vf=0.0, t2=25.0),
            "wet": dict(t1=1500.0, A=1.52, B=0.004, vf=0.35, t2=60.0),
            "metal": dict(t1=120.0, A=1.6, B=0.01, vf=0.1, t2=300.0),
            "thick": dict(t1=9000.0, A=1.48, B=0.003, vf=0.0, t2=0.0),
        }[kind]
        self.v = dict(base, off=offset)
        if v:
            self.v.update(v)
        self.front = {"film": 1.0, "wet": 1.333, "metal": 1.0, "thick": 1.0}[kind]
        self.n2 = {"film": 1.46 + 0j, "wet": 1.46 + 0j, "metal": 0.2 + 3.2j, "thick": 2.0 + 0.1j}[kind]
        self.nb = {"film": 3.85 + 0.02j, "wet": 3.9 + 0.03j, "metal": 1.5 + 0j, "thick": 3.85 + 0.02j}[kind]
        v = self.v
        self.mat = Cauchy(v["A"], v["B"], name="film")
        self.l1 = self.mat(v["t1"], 0, vfsolv=v["vf"])
        self.l2 = nk(self.n2)(v["t2"], 0)
        self.structure = StructureSE([nk(self.front)(), self.l1, self.l2, nk(self.nb)()], solvent=nk(self.front))
        self.model = ReflectModelSE(self.structure, delta_offset=v["off"])
        bounds = bounds or {}
        for k in vary:
            lo, hi = bounds.get(k, (self.v[k] * 0.2 - 1, self.v[k] * 2 + 1))
            self.par(k).setp(vary=True, bounds=(lo, hi))

    def par(self, k):
        return {
            "off": self.model.delta_offset, "t1": self.l1.thick, "A": self.mat.A, "B": self.mat.B,
            "vf": self.l1.vfsolv, "t2": self.l2.thick,
        }[k]

    def set(self, k, val):
        self.par(k).value = val
        self.v[k] = val

    def predict(self, wav, aoi, reflected=False, v=None):
        """reference Psi, Delta"""
        v = dict(self.v, **(v or {}))
        wav = np.atleast_1d(np.asarray(wav, float))
        aoi = np.atleast_1d(np.asarray(aoi, float))
        n1 = np.real(ref.cauchy((v["A"], v["B"], 0.0), wav))
        n1 = np.sqrt((1 - v["vf"]) * n1**2 + v["vf"] * self.front**2)
        n = np.array([
            np.full(wav.shape, self.front + 0j), n1 + 0j, np.full(wav.shape, self.n2), np.full(wav.shape, self.nb),
        ])
        d = [0.0, v["t1"] / 10, v["t2"] / 10, 0.0]
        psi, delta = ref.psi_delta(n, d, aoi, wav)
        if reflected:
            delta = ref.reflect(delta)
        return psi, delta + v["off"]


def resid(sample, rows, reflected=False, v=None):
    """reference residuals for rows (wav, aoi, psi, delta)"""
    rows = np.asarray(rows, float).reshape(-1, 4)
    if not len(rows):
        return np.zeros(0)
    psi, delta = sample.predict(rows[:, 0], rows[:, 1], reflected, v)
    return np.r_[psi - rows[:, 2], ref.circ(delta, rows[:, 3])]


ROWS = [
    (450.0, 60.0, 31.0, 155.0), (658.0, 70.0, 12.5, 300.5), (450.0, 75.0, 44.0, 0.0),
    (700.0, 60.0, 60.0, 181.0), (658.0, 70.0, 3.0, 359.75), (532.5, 65.0, 25.0, 90.0),
    (899.0, 55.0, 18.0, 222.0), (451.0, 75.0, 80.0, 45.0),
]
