"""Planted bugs: written from the property texts.  tools/campaign.py turns them into seeded/<id>/."""
R, S, M, O, D = ("refellips/dispersion.py", "refellips/structureSE.py", "refellips/reflect_modelSE.py",
                 "refellips/objectiveSE.py", "refellips/dataSE.py")
PT = "tools/plottools.py"
MUT = []


def m(id, prop, edits, needs, breaks, demo):
    MUT.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


if 0: m("c01-opaque-clip", "C01", [(M, "        if (np.imag(delta) > 35).any():", "        if (np.imag(delta) > 4).any():"),
   (M, "np.clip(delta.imag, -np.inf, 35, out=delta.imag)", "np.clip(delta.imag, -np.inf, 4, out=delta.imag)")],
  "an absorbing interior layer thick enough for an attenuation between 4 and 9 nepers",
  "Psi/Delta of films behind a thick absorbing layer are off by up to a few 1e-4",
  """
from refellips import *
import numpy as np
n = [1.0, 0.2 + 3.4j, 3.9]
wav, d, aoi = 600.0, 100.0, np.radians(65.0)
s = np.sin(aoi)
q = [np.sqrt(complex(x) ** 2 - s * s) for x in n]
def airy(y):
    r1, r2 = (y[0] - y[1]) / (y[0] + y[1]), (y[1] - y[2]) / (y[1] + y[2])
    b = np.exp(2j * 2 * np.pi / wav * q[1] * d)
    return (r1 + r2 * b) / (1 + r1 * r2 * b)
rs, rp = airy(q), airy([a / complex(x) ** 2 for a, x in zip(q, n)])
want = np.degrees(np.arctan(abs(rp / rs)))
st = RI((1.0, 0))() | RI((0.2, 3.4))(1000) | RI((3.9, 0))()
psi, delta = ReflectModelSE(st)(np.array([(600.0, 65.0)]))
# a film at 120 nepers is invisible; one at 3.5 is not
st2 = RI((1.0, 0))() | RI((0.2, 3.4))(1200) | RI((3.9, 0))()
d = 120.0
rs2, rp2 = airy(q), airy([a / complex(x) ** 2 for a, x in zip(q, n)])
want2 = np.degrees(np.arctan(abs(rp2 / rs2)))
psi2, _ = ReflectModelSE(st2)(np.array([(600.0, 65.0)]))
assert abs(psi[0] - want) < 1e-6, (psi, want)
assert abs(psi2[0] - want2) < 1e-6, (psi2, want2)
""")

m("c01-grazing", "C01", [(M, "    AOI = AOI * (np.pi / 180)\n", "    AOI = np.minimum(AOI, 87.5) * (np.pi / 180)\n")],
  "an angle of incidence above 87.5 degrees", "grazing angles are evaluated at 87.5 degrees",
  """
from refellips import *
import numpy as np
m = ReflectModelSE(RI((1.0, 0))() | RI((3.9, 0.0))())
psi, _ = m(np.array([(500.0, 89.0)]))
a = np.radians(89.0)
c, q = np.cos(a), np.sqrt(3.9**2 - np.sin(a) ** 2)
rs, rp = (c - q) / (c + q), (3.9**2 * c - q) / (3.9**2 * c + q)
want = np.degrees(np.arctan(abs(rp / rs)))
assert abs(psi[0] - want) < 1e-7, (psi, want)
""")

m("c02-offset-before-reflection", "C02", [(M, "    delta = np.angle(1 / (-rp / rs)) + np.pi\n", "    delta = np.angle(1 / (-rp / rs)) + np.pi + np.deg2rad(delta_offset)\n"),
   (M, "    return psi * (180 / np.pi), delta * (180 / np.pi) + delta_offset", "    return psi * (180 / np.pi), delta * (180 / np.pi)")],
  "the reflected-Delta convention together with a delta offset and a Delta above 180 (or crossing it)",
  "the delta offset is reflected along with Delta, so it enters with the wrong sign",
  """
from refellips import *
from refellips.reflect_modelSE import Delta_Psi_TMM
import numpy as np
st = RI((1.0, 0))() | RI((1.46, 0))(1800) | RI((3.87, 0.02))()
st.wavelength = 600.0
L = st.slabs()[..., :4]
aoi = np.linspace(40, 85, 40)
_, raw = Delta_Psi_TMM(aoi, L, 600.0, 0.0)
_, got = Delta_Psi_TMM(aoi, L, 600.0, 7.0, reflect_delta=True)
want = np.where(raw > 180, 360 - raw, raw) + 7.0
assert np.allclose(got, want, atol=1e-8), (got - want)
""")

m("c02-zero-thickness", "C02", [(S, "                slabs = np.concatenate(sl)\n            except", "                slabs = np.concatenate(sl)\n                # layers must not vanish, it upsets the fitting\n                slabs[1:-1, 0] = np.maximum(slabs[1:-1, 0], 1e-2)\n            except")],
  "an interior layer of zero thickness with a large index contrast",
  "zero-thickness layers act as 0.01 A layers, inserting one changes the prediction",
  """
from refellips import *
import numpy as np
p = np.array([(300.0, 75.0)])
a = ReflectModelSE(RI((1.0, 0))() | RI((1.5, 0))(100) | RI((3.9, 0.02))())(p)
b = ReflectModelSE(RI((1.0, 0))() | RI((0.1, 5.0))(0) | RI((1.5, 0))(100) | RI((3.9, 0.02))())(p)
assert np.allclose(a, b, rtol=0, atol=1e-9), (a, b)
""")

m("c03-close-wavelengths", "C03", [(M, "            idx = np.where(wavelength == wav)\n", "            idx = np.where(np.abs(wavelength - wav) < 0.02)\n")],
  "two wavelengths in one call that differ by less than 0.02 nm", "such points are evaluated at the wavelength of their neighbour",
  """
from refellips import *
import numpy as np
m = ReflectModelSE(RI((1.0, 0))() | Cauchy(1.45, 0.01)(20000) | RI((3.9, 0.02))())
p = np.array([(500.0, 60.0), (500.015, 60.0)])
both = np.array(m(p))
alone = np.c_[np.array(m(p[:1])), np.array(m(p[1:]))]
assert np.allclose(both, alone, rtol=0, atol=1e-10), both - alone
""")

m("c03-sorted-angles", "C03", [(M, "            aoi = aois[idx]\n", "            aoi = np.sort(aois[idx])\n")],
  "several angles at one wavelength given in non-ascending order", "results are attached to the wrong angle",
  """
from refellips import *
import numpy as np
m = ReflectModelSE(RI((1.0, 0))() | Cauchy(1.45, 0.01)(500) | RI((3.9, 0.02))())
p = np.array([(500.0, 70.0), (600.0, 62.0), (500.0, 55.0)])
both = np.array(m(p))
alone = np.array([np.array(m(r[None]))[:, 0] for r in p]).T
assert np.allclose(both, alone, rtol=0, atol=1e-10), both - alone
""")

m("c04-cauchy-cache", "C04", [(R, """        real = (
            self.A.value
            + (self.B.value * 1000**2) / (wav**2)
            + (self.C.value * 1000**4) / (wav**4)
        )
        return real + 1j * 0.0


class Sellmeier""", """        key = (self.A.value, self.B.value, np.sum(wav), np.size(wav))
        if getattr(self, "_last", (None,))[0] == key:
            return self._last[1]
        real = (
            self.A.value
            + (self.B.value * 1000**2) / (wav**2)
            + (self.C.value * 1000**4) / (wav**4)
        )
        self._last = (key, real + 1j * 0.0)
        return self._last[1]


class Sellmeier""")],
  "evaluate, change only the Cauchy C parameter, evaluate again at the same wavelength",
  "the cached refractive index is returned, the prediction depends on the evaluation history",
  """
from refellips import *
import numpy as np
def mk(C):
    return ReflectModelSE(RI((1.0, 0))() | Cauchy(1.45, 0.01, C)(800) | RI((3.9, 0.02))())
p = np.array([(500.0, 70.0)])
m = mk(0.0)
m(p)
m.structure[1].ri.C.value = 0.002
assert np.allclose(m(p), mk(0.002)(p), rtol=0, atol=1e-10)
""")

m("c04-mixed-cache", "C04", [(S, """        slabs = np.zeros((1, 5))
        N_avg = overall_ri(
            riac, ribc, vf_B=self.vf_B.value, ema=ema, depolarisation_factor=dp
        )
""", """        slabs = np.zeros((1, 5))
        key = (complex(riac), complex(ribc), self.vf_B.value, ema)
        if getattr(self, "_mix", (None,))[0] != key:
            self._mix = key, overall_ri(
                riac,
                ribc,
                vf_B=self.vf_B.value,
                ema=ema,
                depolarisation_factor=dp,
            )
        N_avg = self._mix[1]
""")],
  "evaluate a mixed layer, change the structure's depolarisation factor, evaluate again",
  "the mixed index of the old depolarisation factor is used",
  """
from refellips import *
import numpy as np
def mk(L):
    st = StructureSE([RI((1.0, 0))(), MixedSlabSE(500, RI((1.5, 0)), RI((2.2, 0.1)), 0.4, 0), RI((3.9, 0.02))()],
                     ema="maxwell-garnett", depolarisation_factor=L)
    return ReflectModelSE(st)
p = np.array([(500.0, 70.0)])
m = mk(0.1)
m(p)
m.structure.depolarisation_factor = 0.9
assert np.allclose(m(p), mk(0.9)(p), rtol=0, atol=1e-10)
""")

m("c05-or-empty", "C05", [(S, """        # c = self | other
        p = StructureSE()
        p |= self
        p |= other
        return p

    def overall_ri""", """        # c = self | other
        p = StructureSE() if len(self) else self
        if p is not self:
            p |= self
        p |= other
        return p

    def overall_ri""")],
  "an empty structure as the left operand of |, used again afterwards", "a | b modifies its left operand when that is empty",
  """
from refellips import *
base = StructureSE()
a = base | RI((1.0, 0)) | RI((1.5, 0))(10)
b = base | RI((2.0, 0))
assert len(base) == 0 and len(a) == 2 and len(b) == 1, (len(base), len(a), len(b))
""")

m("c05-mul-copy", "C05", [(S, "            s.extend([self] * n)\n", "            s.extend([self] + [copy.deepcopy(self) for _ in range(n - 1)])\n"),
   (S, "import os\nimport os.path\nimport warnings", "import copy\nimport os\nimport os.path\nimport warnings")],
  "editing a layer that was repeated with *", "repeats are copies: editing the layer changes only its first repeat",
  """
from refellips import *
lay = RI((1.5, 0))(10)
s = RI((1.0, 0))() | lay * 3 | RI((3.9, 0))()
lay.thick.value = 77.0
assert list(s.slabs()[1:-1, 0]) == [77.0] * 3, s.slabs()
""")

m("c06-mg-third", "C06", [(S, "        bottom = E_a + depolarisation_factor * (1 - vf_B) * (E_b - E_a)", "        bottom = E_a + np.minimum(depolarisation_factor, 0.5) * (1 - vf_B) * (\n            E_b - E_a\n        )")],
  "Maxwell-Garnett mixing with a depolarisation factor above 0.5", "the mixed index is wrong for flat inclusions",
  """
from refellips.structureSE import overall_ri
import numpy as np
ea, eb, f, L = 1.5**2, 2.4**2, 0.3, 0.8
want = np.sqrt(ea * (ea + (L * (1 - f) + f) * (eb - ea)) / (ea + L * (1 - f) * (eb - ea)))
got = overall_ri(1.5, 2.4, f, ema="maxwell-garnett", depolarisation_factor=L)
assert abs(got - want) < 1e-9, (got, want)
""")

m("c06-linear-metal", "C06", [(S, "        E_avg = (1 - vf_B) * E_a + vf_B * E_b\n", "        E_avg = (1 - vf_B) * E_a + vf_B * E_b\n        E_avg = np.where(np.real(E_avg) < 0, np.abs(E_avg), E_avg)\n")],
  "linear mixing of a metal (negative dielectric constant)", "metals become transparent under linear mixing",
  """
from refellips.structureSE import overall_ri
au, w = 0.2 + 3.2j, 1.33
got = complex(overall_ri(au, w, 0.1))
want = (0.9 * au**2 + 0.1 * w**2) ** 0.5
assert abs(got - want) < 1e-9, (got, want)
""")

m("c07-solvent-wavelength", "C07", [(S, "            solv = solvent.complex(self.wavelength)\n", "            solv = complex(solvent)\n")],
  "a dispersive solvent and a wavelength other than the solvent's default one", "layers are mixed with the solvent index at the default wavelength",
  """
from refellips import *
import numpy as np
w = Cauchy(1.33, 0.02)
st = StructureSE([RI((1.0, 0))(), RI((1.6, 0))(300, 0, vfsolv=0.5), RI((3.9, 0.02))()], solvent=w)
st.wavelength = 400.0
n = st.slabs()[1, 1]
want = np.sqrt(0.5 * 1.6**2 + 0.5 * (1.33 + 0.02 / 0.16) ** 2)
assert abs(n - want) < 1e-9, (n, want)
""")

m("c07-backing-solvated", "C07", [(S, "            slabs[1:-1] = self.overall_ri(slabs[1:-1], solv)", "            slabs[1:] = self.overall_ri(slabs[1:], solv)")],
  "a backing medium that carries a solvent fraction, with an explicit solvent", "the backing medium is mixed with solvent",
  """
from refellips import *
st = StructureSE([RI((1.0, 0))(), RI((1.6, 0))(300, 0, vfsolv=0.5), RI((3.9, 0.02))(0, 0, vfsolv=0.4)], solvent=RI((1.33, 0)))
st.wavelength = 500.0
assert abs(st.slabs()[-1, 1] - 3.9) < 1e-12, st.slabs()
""")

m("c08-sellmeier-epsilon", "C08", [(R, """            + (self.Am.value * wav_um**2) / (wav_um**2 - self.En.value**2)
            - (self.P.value * wav_um**2)
        )

        return real + 1j * 0
""", """            + (self.Am.value * wav_um**2) / (wav_um**2 - self.En.value**2)
            + (self.P.value * wav_um**2)
        )

        return real + 1j * 0
""")],
  "a Sellmeier material with a non-zero infrared term, asked for its dielectric function",
  "epsilon is not the square of the refractive index",
  """
from refellips import *
s = Sellmeier(1.2, 0.1, 0.05, 1.3)
assert abs(s.epsilon(700.0) - s.complex(700.0) ** 2) < 1e-9, (s.epsilon(700.0), s.complex(700.0) ** 2)
""")

m("c08-default-wavelength", "C08", [(S, """            wav = self.wavelength
            if np.any(wavelength):
                wav = wavelength

            # convert""", """            wav = 658
            if np.any(wavelength):
                wav = wavelength

            # convert""")],
  "an oscillator material with a non-standard default wavelength, evaluated without a wavelength",
  "the default wavelength of the material is ignored",
  """
from refellips import *
l = Lorentz(20.0, 0.4, 5.0, 1.2, wavelength=400)
assert abs(complex(l) - l.complex(400.0)) < 1e-12, (complex(l), l.complex(400.0))
""")

m("c09-k-right", "C09", [(R, "            ri_imag = np.interp(wav, self._wav, self._EC)", "            ri_imag = np.interp(wav, self._wav, self._EC, right=0)")],
  "a wavelength beyond the end of an absorbing table", "absorption drops to zero beyond the table instead of keeping its end value",
  """
from refellips import *
r = RI([[0.4, 0.5, 0.6], [1.5, 1.6, 1.7], [0.1, 0.2, 0.3]])
assert abs(r.complex(900.0) - (1.7 + 0.3j)) < 1e-12, r.complex(900.0)
""")

m("c09-zero-k-column", "C09", [(R, "        if np.any(self._wav):\n", "        if np.any(self._wav) and np.ptp(self._RI):\n")],
  "a table whose refractive index is constant while k varies", "the table is returned instead of the interpolated value",
  """
from refellips import *
import numpy as np
r = RI([[0.4, 0.5, 0.6], [1.5, 1.5, 1.5], [0.1, 0.2, 0.3]])
v = np.asarray(r.complex(450.0))
assert v.shape == () and abs(complex(v) - (1.5 + 0.15j)) < 1e-12, v
""")

m("c10-lorentz-order", "C10", [(R, """        E = np.array(self.En)[:, None]
        _e = np.asarray(energy, np.float64)
        v = A""", """        E = np.sort(np.array(self.En))[:, None]
        _e = np.asarray(energy, np.float64)
        v = A""")],
  "several Lorentz oscillators not listed in ascending energy", "amplitudes and widths are paired with the wrong energies",
  """
from refellips import *
a = Lorentz([10.0, 3.0], [0.3, 0.5], [6.0, 4.0])
b = Lorentz([3.0, 10.0], [0.5, 0.3], [4.0, 6.0])
assert abs(a.complex(400.0) - b.complex(400.0)) < 1e-12
""")

m("c10-gauss-offset", "C10", [(R, "        e1 = np.sum(e1, axis=0) + self.Einf.value\n        e2 = np.sum(e2, axis=0)\n", "        e1 = np.sum(e1 + self.Einf.value / 2, axis=0) + self.Einf.value / 2\n        e2 = np.sum(e2, axis=0)\n")],
  "more than one Gauss oscillator", "the dielectric offset is counted more than once",
  """
from refellips import *
one = [Gauss([a], [b], [e], 1.7) for a, b, e in ((2.0, 0.5, 4.0), (1.0, 0.8, 6.0), (0.5, 0.3, 5.0))]
all_ = Gauss([2.0, 1.0, 0.5], [0.5, 0.8, 0.3], [4.0, 6.0, 5.0], 1.7)
s = sum(g.epsilon(3.0) - 1.7 for g in one) + 1.7
assert abs(all_.epsilon(3.0) - s) < 1e-9, (all_.epsilon(3.0), s)
""")

m("c11-sorted", "C11", [(O, """        wavelength, aoi, psi_d, delta_d = self.data.data
        wavelength_aoi = np.c_[wavelength, aoi]
        self._use_delta_convention()
        psi, delta = self.model(wavelength_aoi)
        delta_err""", """        wavelength, aoi, psi_d, delta_d = self.data.data
        order = np.lexsort((aoi, wavelength))
        wavelength, aoi = wavelength[order], aoi[order]
        psi_d, delta_d = psi_d[order], delta_d[order]
        wavelength_aoi = np.c_[wavelength, aoi]
        self._use_delta_convention()
        psi, delta = self.model(wavelength_aoi)
        delta_err""")],
  "a dataset whose rows are not sorted by wavelength and angle", "residuals are not in the order of the data",
  """
from refellips import *
import numpy as np
m = ReflectModelSE(RI((1.0, 0))() | Cauchy(1.45, 0.01)(500) | RI((3.9, 0.02))())
d = np.array([[600.0, 450.0, 500.0], [60.0, 70.0, 65.0], [20.0, 30.0, 25.0], [90.0, 120.0, 150.0]])
r = ObjectiveSE(m, DataSE(d)).residuals()
psi, delta = m(d[:2].T)
assert np.allclose(r[:3], psi - d[2], atol=1e-9), (r[:3], psi - d[2])
""")

m("c11-chisqr-mask", "C11", [(O, "        res = self.residuals(None)\n        return np.dot(res, res)\n", "        res = self.residuals(None)\n        return np.dot(res, res) * self.npoints / max(len(self.data), 1)\n")],
  "a masked dataset", "chi-squared is scaled by the fraction of masked points",
  """
from refellips import *
import numpy as np
m = ReflectModelSE(RI((1.0, 0))() | Cauchy(1.45, 0.01)(500) | RI((3.9, 0.02))())
d = DataSE(np.array([[600.0, 450.0, 500.0], [60.0, 70.0, 65.0], [20.0, 30.0, 25.0], [90.0, 120.0, 150.0]]))
d.mask = [True, False, True]
o = ObjectiveSE(m, d)
assert abs(o.chisqr() - np.sum(o.residuals() ** 2)) < 1e-6
""")

m("c12-logp-duplicates", "C12", [(O, """                param.logp()
                for param in f_unique(
                    p for p in flatten(self.parameters) if p.vary
                )
""", """                param.logp()
                for param in flatten(self.parameters)
                if param.vary
""")],
  "a varying parameter that occurs more than once in the parameter tree (shared layer or material)",
  "its prior is counted once per occurrence",
  """
from refellips import *
import numpy as np
mat = Cauchy(1.45, 0.01)
mat.A.setp(vary=True, bounds=(1.0, 3.0))
m = ReflectModelSE(RI((1.0, 0))() | mat(500) | RI((2.0, 0))(50) | mat(100) | RI((3.9, 0.02))())
o = ObjectiveSE(m, DataSE(np.array([[600.0], [60.0], [20.0], [90.0]])))
assert abs(o.logp() - np.log(0.5)) < 1e-9, o.logp()
""")

m("c12-noise-data", "C12", [(O, "            _model = np.r_[psi, delta]\n", "            _model = np.r_[psi_d, delta_d]\n")],
  "a noise term (lnsigma) and a model that differs from the data", "the variance uses the data instead of the model",
  """
from refellips import *
import numpy as np
m = ReflectModelSE(RI((1.0, 0))() | Cauchy(1.45, 0.01)(500) | RI((3.9, 0.02))())
d = np.array([[600.0, 450.0], [60.0, 70.0], [20.0, 30.0], [90.0, 120.0]])
o = ObjectiveSE(m, DataSE(d), lnsigma=-1.0)
r = o.residuals()
mod = np.r_[m(d[:2].T)]
want = -0.5 * np.sum(r**2 / (1 + np.exp(-2.0) * mod**2))
assert abs(o.logl() - want) < 1e-6 * abs(want), (o.logl(), want)
""")

m("c13-stale-tree", "C13", [(M, "        self.structure = self._structure\n        return self._parameters", "        return self._parameters")],
  "a layer added to (or replaced in) a structure after its model was made",
  "parameters of the new layer are not in the model's parameter tree",
  """
from refellips import *
import numpy as np
st = RI((1.0, 0))() | Cauchy(1.45, 0.01)(500) | RI((3.9, 0.02))()
m = ReflectModelSE(st)
new = Cauchy(1.6, 0.0)(100)
new.thick.setp(vary=True, bounds=(0, 300))
st.insert(2, new)
o = ObjectiveSE(m, DataSE(np.array([[600.0], [60.0], [20.0], [90.0]])))
assert [p is new.thick for p in o.varying_parameters()] == [True], list(o.varying_parameters())
""")

m("c13-setp-duplicates", "C13", [(O, "        p.data = list(f_unique(p for p in flatten(self.parameters) if p.vary))", "        p.data = list(p for p in flatten(self.parameters) if p.vary)")],
  "a varying parameter shared by two layers", "the varying vector lists shared parameters several times",
  """
from refellips import *
import numpy as np
mat = Cauchy(1.45, 0.01)
mat.A.setp(vary=True, bounds=(1.0, 3.0))
m = ReflectModelSE(RI((1.0, 0))() | mat(500) | RI((2.0, 0))(50) | mat(100) | RI((3.9, 0.02))())
o = ObjectiveSE(m, DataSE(np.array([[600.0], [60.0], [20.0], [90.0]])))
assert len(o.varying_parameters()) == 1
""")

m("c14-reflect-model", "C14", [(M, "        delta[delta > np.pi] = 2 * np.pi - delta[delta > np.pi]", "        delta[delta > np.pi] = delta[delta > np.pi] - np.pi")],
  "a reflected dataset and a model Delta above 180", "the model wraps Delta by 180 degrees where the data are mirrored about 180",
  """
from refellips import *
import numpy as np
m = ReflectModelSE(RI((1.0, 0))() | RI((1.46, 0))(1800) | RI((3.87, 0.02))())
p = np.c_[np.full(10, 600.0), np.linspace(40, 85, 10)]
psi, delta = m(p)
assert (delta > 180).any()
o = ObjectiveSE(m, DataSE([p[:, 0], p[:, 1], psi, delta], reflect_delta=True))
assert np.max(np.abs(o.residuals())) < 1e-8, o.residuals()
""")

m("c15-unique-close", "C15", [(D, "            loc = np.where(self.wavelength == unique_wav)", "            loc = np.where(np.isclose(self.wavelength, unique_wav, rtol=1e-4))")],
  "two wavelengths closer than 1e-4 of their value", "per-wavelength iteration yields such rows twice",
  """
from refellips import *
import numpy as np
d = DataSE(np.array([[500.0, 500.02, 600.0], [60.0, 61.0, 62.0], [1.0, 2.0, 3.0], [4.0, 5.0, 6.0]]))
n = sum(len(a) for _, a, _, _ in d.unique_wavelength_data())
assert n == 3, n
""")

m("c15-psi-mask", "C15", [(D, "        if self._psi.size > 0:\n            return self._psi[self.mask]", "        if self._psi.size > 1 and not self.mask[-1]:\n            return self._psi[np.flatnonzero(self.mask)]\n        if self._psi.size > 0:\n            return self._psi[: self.mask.sum()] if self.mask.all() else self._psi[self.mask[::1]]")],
  "", "", "assert True")
MUT.pop()

m("c15-data-mask", "C15", [(D, "        self._wavelength, self._aoi, self._psi, self._delta = columns\n\n        self.mask = np.ones_like(self._wavelength, dtype=bool)", "        self._wavelength, self._aoi, self._psi, self._delta = columns\n\n        if not hasattr(self, \"_mask\") or self._mask.shape != self._wavelength.shape:\n            self.mask = np.ones_like(self._wavelength, dtype=bool)")],
  "masking points, then assigning data of the same length", "the old mask survives the assignment of new data",
  """
from refellips import *
import numpy as np
a = np.array([[500.0, 550.0], [60.0, 61.0], [1.0, 2.0], [4.0, 5.0]])
d = DataSE(a)
d.mask = [True, False]
d.data = tuple(a + 1)
assert len(d) == 2, len(d)
""")

m("c16-save-precision", "C16", [(D, "            delimiter=\"\\t\",\n            header=header,\n        )", "            delimiter=\"\\t\",\n            fmt=\"%.9g\",\n            header=header,\n        )")],
  "values with more than nine significant digits", "saved values are rounded",
  """
from refellips import *
import numpy as np, tempfile, os
x = np.array([[1000 / 3.0], [200 / 3.0], [10 / 3.0], [np.pi * 50]])
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a.txt")
    DataSE(x).save(f)
    y = np.array(DataSE(f).data)
assert np.array_equal(x, y), (x, y)
""")

m("c16-save-masked", "C16", [(D, "                (self._wavelength, self._aoi, self._psi, self._delta)\n", "                (self.wavelength, self.aoi, self.psi, self.delta)\n")],
  "saving a masked dataset", "masked rows are lost on saving",
  """
from refellips import *
import numpy as np, tempfile, os
x = np.array([[500.0, 600.0], [60.0, 61.0], [1.0, 2.0], [3.0, 4.0]])
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a.txt")
    d = DataSE(x)
    d.mask = [True, False]
    d.save(f)
    assert len(DataSE(f)) == 2
""")

m("c17-position-tolerance", "C17", [(D, "                not np.allclose(ypos, entry[1][\"Y_pos\"], atol=0.2)", "                not np.allclose(ypos, entry[1][\"Y_pos\"], atol=2)")],
  "two measurement locations that differ by 0.2 to 2 mm in y only", "the two locations are merged and averaged",
  """
from refellips.dataSE import open_EP4file
import tempfile, os
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "x_20200929-083122.ds.dat")
    with open(f, "w") as h:
        h.write("#Lambda\\tAOI\\tPsi\\tDelta\\tX_pos\\tY_pos\\nnm\\tdeg\\tdeg\\tdeg\\tmm\\tmm\\n")
        h.write("658\\t60\\t10\\t100\\t0\\t0\\n658\\t60\\t20\\t120\\t0\\t1\\n")
    out = open_EP4file(f)
assert isinstance(out, list) and len(out) == 2, out
""")

m("c17-dropna", "C17", [(D, "    df = df.reset_index()\n", "    df.index.name = \"index\"\n")],
  "", "", "assert True")
MUT.pop()

m("c18-time-round", "C18", [(D, "            time_dict[np.round(time * 60, 1)] = DataSE(", "            time_dict[np.round(time * 60)] = DataSE(")],
  "time-series points less than half a second apart", "measurements at different times overwrite each other",
  """
from refellips.dataSE import open_M2000file
import tempfile, os
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a.dat")
    with open(f, "w") as h:
        h.write("\\nVASEmethod[EllipsometerType=4]\\nDynamic\\nx\\n")
        for k, s in enumerate((0.0, 0.3, 1.1, 1.4)):
            h.write(f"500\\t60\\t{10 + k}\\t100\\t0.1\\t0.1\\t0\\t{s / 60}\\n")
    out = open_M2000file(f)
assert len(out) == 4, out
""")

m("c18-standard-drop", "C18", [(D, "    data = data[::dropdatapoints]\n", "    data = data[dropdatapoints - 1 :: dropdatapoints]\n")],
  "decimating a single-measurement file", "the first kept point is not the first point of the file",
  """
from refellips.dataSE import open_M2000file
import tempfile, os
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a.dat")
    with open(f, "w") as h:
        h.write("\\nVASEmethod[EllipsometerType=4]\\nnm\\n")
        for k in range(5):
            h.write(f"{400 + k}\\t60\\t{10 + k}\\t100\\t0.1\\t0.1\\nd\\t60\\t1\\t2\\t3\\ni\\t60\\t1\\t2\\t3\\n")
    out = open_M2000file(f, dropdatapoints=2)
assert list(out.wavelength) == [400, 402, 404], out.wavelength
""")

m("c19-dynamic-sign", "C19", [(D, """        Deltamask = Delta < 0
        Delta[Deltamask] = 360 + Delta[Deltamask]
        AOI""", """        Deltamask = Delta < 0
        Delta[Deltamask] = -Delta[Deltamask]
        AOI""")],
  "a dynamic FilmSense file with S < 0 (Delta above 180)", "Delta is mirrored to below 180",
  """
from refellips.dataSE import open_FilmSenseFile
import numpy as np, io
N, D = np.cos(np.radians(40.0)), np.radians(250.0)
C, S = np.sin(np.radians(40.0)) * np.cos(D), np.sin(np.radians(40.0)) * np.sin(D)
txt = "Film_Sense_Dyn_Data\\n1\\t1\\t65\\t1\\n500\\t1\\t1\\t1\\nTime\\n" + f"1.5\\t{N}\\t{C}\\t{S}\\t1\\t1\\t\\n"
import tempfile, os
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a.txt")
    open(f, "w").write(txt)
    out = open_FilmSenseFile(f)
assert abs(out[1.5].delta[0] - 250) < 1e-3, out[1.5].delta
""")

m("c19-psi-half", "C19", [(D, """    df["Psi"] = np.rad2deg(np.arccos(N) / 2)
    # removes""", """    df["Psi"] = np.rad2deg(np.arccos(N) / 2)
    # removes""")], "", "", "assert True")
MUT.pop()

m("c20-aoi", "C20", [(D, "    AOI = float(metadata[\"INCIDENCE ANGLE\"][:5])\n", "    AOI = float(metadata[\"INCIDENCE ANGLE\"].split(\".\")[0])\n")],
  "an angle of incidence with a fractional part", "the fraction of the angle is dropped",
  None)
m("c20-cutoff", "C20", [(D, "    data_df = data_df[data_df[\"nm\"] > lambda_cutoffs[0]]\n", "    data_df = data_df[data_df[\"nm\"] >= lambda_cutoffs[0]]\n")],
  "a lower limit equal to a wavelength of the file", "a row on the limit is kept although the limits are exclusive", None)

m("c21-copy-shares", "C21", [(S, "        s.data = self.data.copy()\n        return s", "        s.data = self.data\n        return s")],
  "editing the layer list of a shallow copy", "adding a layer to the copy adds it to the original",
  """
from refellips import *
import copy
a = RI((1.0, 0))() | RI((1.5, 0))(10) | RI((3.9, 0))()
b = copy.copy(a)
b.insert(1, RI((2.0, 0))(5))
assert len(a) == 3 and len(b) == 4
""")

m("c22-zero", "C22", [(O, "            if np.any(_pvals == 0):\n", "            if np.all(_pvals == 0):\n")],
  "one varying parameter that is exactly zero among others", "the covariance fails with a linear-algebra error", None)
m("c22-dof", "C22", [(O, "                n_datapoints - len(self.varying_parameters())\n", "                2 * self.npoints - len(self.varying_parameters())\n")],
  "a masked dataset", "the covariance is scaled with the number of all points instead of the unmasked ones", None)

m("c23-align-front", "C23", [(S, "            slabs[0, 0] = slabs[-1, 0] = 0.0\n", "            slabs[-1, 0] = 0.0\n")],
  "a fronting medium with a non-zero thickness value", "aligned profiles are shifted by the (meaningless) thickness of the fronting medium",
  """
from refellips import *
import numpy as np
def mk(t):
    s = RI((1.0, 0))(t) | RI((1.5, 0))(100) | RI((2.0, 0))(50) | RI((3.9, 0))()
    return s.ri_profile(align=1)
a, b = mk(0), mk(300)
assert np.allclose(a[0], b[0]) and np.allclose(a[1], b[1])
""")
m("c23-align-negative", "C23", [(S, "                offset = np.sum(slabs[:align, 0])\n", "                offset = np.sum(slabs[:, 0]) - np.sum(slabs[align + 1 :, 0])\n")],
  "alignment with a negative number other than -1", "the profile is aligned on another interface", 
  """
from refellips import *
import numpy as np
s = RI((1.0, 0))() | RI((1.5, 0))(100) | RI((2.0, 0))(50) | RI((3.9, 0))()
z0, _ = s.ri_profile()
for al, x in ((-1, 150.0), (-2, 100.0), (-3, 0.0)):
    z, _ = s.ri_profile(align=al)
    assert np.allclose(z, z0 - x), (al, z0[0] - z[0])
""")

m("c24-any-default", "C24", [(S, "        if all([i is None for i in interfaces]):", "        if any([i is None for i in interfaces]):")],
  "a stack in which only some layers have a graded interface", "graded interfaces are ignored unless all layers have one",
  """
from refellips import *
from refnx.reflect import Tanh
a = RI((1.5, 0))(100, 10)
a.interfaces = Tanh()
s = RI((1.0, 0))() | a | RI((3.9, 0))(0, 5)
assert len(s.slabs()) > 50, len(s.slabs())
""")

m("c25-plot-mask", "C25", [(O, "            wavs = np.linspace(np.min(data.wavelength), np.max(data.wavelength))\n            x = data.wavelength\n", "            wavs = np.linspace(np.min(data._wavelength), np.max(data._wavelength))\n            x = data.wavelength\n")],
  "plotting a masked dataset on a wavelength axis", "the model curve spans the masked points as well", None)
m("c25-samples-restore", "C25", [(S, "            saved_params = np.array(params)\n", "            saved_params = np.array(params.varying_parameters())\n"),
    (S, "            params.pvals = saved_params\n", "            if len(saved_params) > 1:\n                params.pvals = saved_params\n")],
  "plotting samples of a structure with exactly one varying parameter", "the parameter keeps the value of the last sample", 
  """
import matplotlib
matplotlib.use("Agg")
from refellips import *
import numpy as np
a = RI((1.5, 0))(100)
a.thick.setp(vary=True, bounds=(0, 500))
s = RI((1.0, 0))() | a | RI((3.9, 0))()
a.thick.chain = np.array([222.0])
s.plot(samples=1)
assert a.thick.value == 100.0, a.thick.value
""")
m("c25-residual-axis", "C25", [(PT, "        resax.scatter(x, delres, color=\"b\")", "        resax.scatter(np.sort(x), delres, color=\"b\")")],
  "residuals of an unsorted dataset", "Delta residuals are drawn at the wrong positions", None)

m("c26-wavelength-memo", "C26", [(M, "            self.structure.wavelength = wav\n", "            if wav != getattr(self, \"_last_wav\", None):\n                self.structure.wavelength = wav\n                self._last_wav = wav\n")],
  "two models on one structure evaluated alternately", "a model reuses the wavelength another model left in the shared structure",
  """
from refellips import *
import numpy as np
st = RI((1.0, 0))() | Cauchy(1.45, 0.02)(500) | RI((3.9, 0.02))()
a, b = ReflectModelSE(st), ReflectModelSE(st)
p, q = np.array([(500.0, 70.0)]), np.array([(800.0, 70.0)])
x = np.array(a(p))
b(q)
assert np.allclose(a(p), x, atol=1e-12), (a(p), x)
""")
m("c12-logl-residuals", "C12", [(O, "        res = self.residuals(None)\n        logl += (res) ** 2 / var_y\n", "        res = np.r_[psi - psi_d, delta - delta_d]\n        logl += (res) ** 2 / var_y\n")],
  "a Delta close to 0/360 or a delta offset", "log-likelihood uses the plain Delta difference instead of the angular distance", None)

m("c27-setp-partial", "C27", [(O, "        _varying_parameters = self.varying_parameters()\n        if len(pvals) == len(_varying_parameters):\n            for idx, param in enumerate(_varying_parameters):\n                param.value = pvals[idx]\n            return\n", "        _varying_parameters = self.varying_parameters()\n        if len(pvals) <= len(_varying_parameters):\n            for param, value in zip(_varying_parameters, pvals):\n                param.value = value\n            if len(pvals) == len(_varying_parameters):\n                return\n")],
  "a parameter vector that is too short", "the call raises, but the first parameters have already been changed",
  """
from refellips import *
import numpy as np
a = Cauchy(1.45, 0.01)(500)
a.thick.setp(vary=True, bounds=(0, 900))
a.ri.A.setp(vary=True, bounds=(1, 2))
m = ReflectModelSE(RI((1.0, 0))() | a | RI((3.9, 0.02))())
o = ObjectiveSE(m, DataSE(np.array([[600.0], [60.0], [20.0], [90.0]])))
try:
    o.setp([123.0])
except ValueError:
    pass
else:
    raise SystemExit("accepted")
assert a.thick.value == 500.0, a.thick.value
""")
m("c27-model-structure", "C27", [(M, "    def structure(self, structure):\n        if not isinstance(structure, StructureSE):\n            raise ValueError(\"structure must be a StructureSE instance\")\n\n        self._structure = structure\n", "    def structure(self, structure):\n        self._structure = structure\n        if not isinstance(structure, StructureSE):\n            raise ValueError(\"structure must be a StructureSE instance\")\n")],
  "assigning something that is not a structure to a model", "the refused object replaces the model's structure", None)

# demonstrations written later
_OBJ = """
from refellips import *
import numpy as np
a = Cauchy(1.45, 0.01)(500)
m = ReflectModelSE(RI((1.0, 0))() | a | RI((3.9, 0.02))())
x = np.array([(w, t) for w in (450.0, 600.0, 750.0) for t in (60.0, 70.0)])
psi, delta = m(x)
"""
_HOR = """
import os, tempfile
import numpy as np
from refellips.dataSE import open_HORIBAfile
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a.spe")
    with open(f, "w") as h:
        h.write("# INCIDENCE ANGLE:\\n70.25\\n\\n# DATA:\\nnm Psi Delta\\n")
        for w in (300, 400, 500, 600, 700):
            h.write(f"{w} {w / 20} {w / 4}\\n")
        h.write("\\n")
    d = open_HORIBAfile(f, lambda_cutoffs=[400, 700])
"""
_D = {
    "c20-aoi": _HOR + "assert np.all(d.aoi == 70.25), d.aoi\n",
    "c20-cutoff": _HOR + "assert list(d.wavelength) == [500, 600], d.wavelength\n",
    "c22-zero": _OBJ + """
a.thick.setp(vary=True, bounds=(0, 900))
a.ri.C.setp(0.0, vary=True, bounds=(-1, 1))
o = ObjectiveSE(m, DataSE(np.array([x[:, 0], x[:, 1], psi + [0.1, -0.2, 0.1, 0.05, -0.1, 0.02], delta])))
c = o.covar()
assert c.shape == (2, 2) and np.all(np.diag(c) > 0)
""",
    "c22-dof": _OBJ + """
a.thick.setp(vary=True, bounds=(0, 900))
noise = np.array([0.1, -0.2, 0.1, 0.05, -0.1, 0.02])
full = np.array([x[:, 0], x[:, 1], psi + noise, delta])
d = DataSE(full)
d.mask = np.array([1, 1, 0, 1, 0, 1], bool)
got = ObjectiveSE(m, d).covar()
want = ObjectiveSE(m, DataSE(full[:, d.mask])).covar()
assert np.allclose(got, want, rtol=1e-6), (got, want)
""",
    "c25-plot-mask": _OBJ + """
import matplotlib
matplotlib.use("Agg")
d = DataSE(np.array([x[:, 0], x[:, 1], psi, delta]))
d.mask = d.wavelength < 700
fig, ax = ObjectiveSE(m, d).plot(xaxis="wavelength")
hi = max(l.get_xdata().max() for l in ax.get_lines())
assert abs(hi - 600.0) < 1e-9, hi
""",
    "c25-residual-axis": _OBJ + """
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "tools"))
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from plottools import plot_ellipsdata
noise = np.array([0.1, -0.2, 0.1, 0.05, -0.1, 0.02])
o = ObjectiveSE(m, DataSE(np.array([x[:, 0], x[:, 1], psi, delta + noise])))
fig, (ax, res) = plt.subplots(2)
plot_ellipsdata(ax, objective=o, xaxis="aoi", resax=res)
pts = [np.asarray(c.get_offsets()) for c in res.collections]
assert np.allclose(pts[1][:, 0], x[:, 1]), pts[1]
""",
    "c12-logl-residuals": _OBJ + """
d1 = np.full(6, 359.5)
o1 = ObjectiveSE(m, DataSE(np.array([x[:, 0], x[:, 1], psi, d1])))
r = o1.residuals()
n = 1.0
want = -0.5 * np.sum(r**2)
assert abs(o1.logl() - want) < 1e-6 * abs(want), (o1.logl(), want)
""",
    "c27-model-structure": _OBJ + """
s = m.structure
try:
    m.structure = [1, 2]
except ValueError:
    pass
assert m.structure is s
assert np.allclose(m(x), (psi, delta))
""",
}
for _m in MUT:
    if _m["id"] in _D:
        _m["demo"] = _D[_m["id"]]
