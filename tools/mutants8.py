"""Eighth wave of planted bugs: user-defined materials and layers (C30)."""
from mutants import D, M, O, PT, R, S, m

N = None
USER = '''
import copy
import numpy as np
from refellips import *
from refellips.structureSE import ScattererSE, ComponentSE
from refnx.analysis import Parameter, Parameters


class Film(ComponentSE):
    """rows of [thickness, n, k, roughness, solvent fraction]"""

    def __init__(self, rows, lp=0.0):
        super().__init__(name="film")
        self.rows = rows
        self.lp = lp
        self.scale = Parameter(1.0, "scale")
        self._parameters = Parameters([self.scale], name="film")

    @property
    def parameters(self):
        return self._parameters

    def slabs(self, structure=None):
        if self.rows is None:
            return None
        r = np.array(self.rows, float)
        r[:, 0] *= self.scale.value
        return r

    def logp(self):
        return self.lp


class Metal(ScattererSE):
    parameters = Parameters(name="metal")

    def epsilon(self, energy):
        return 3.0 - 30.0 / energy**2 + 0j


air, si, water = RI((1.0, 0.0)), RI((3.8, 0.02)), RI((1.33, 0.0))
rows = [[20, 1.4, 0, 1, 0.0], [30, 1.6, 0.01, 2, 0.0]]
'''
m("c30-none-rows", "C30", [(S, "                slabs = np.concatenate([s for s in sl if s is not None])\n", "                slabs = np.concatenate(\n                    [\n                        s\n                        for c, s in zip(self.components, sl)\n                        if isinstance(c, (SlabSE, MixedSlabSE))\n                    ]\n                )\n")],
  "a structure with a layer that has no rows and another user-defined layer", "the rows of the latter are lost",
  USER + '''
s = air() | Film(None) | Film(rows) | si()
assert s.slabs().shape == (4, 5), s.slabs()
assert (air() | Film(rows) | si()).slabs().shape == (4, 5)
''')
m("c30-reverse-rows", "C30", [(S, "            sl = [c.slabs(structure=self) for c in self.components]\n", "            sl = [c.slabs(structure=self) for c in self.components]\n            if self.reverse_structure:\n                # flipped row by row below\n                sl = [s if s is None or len(s) < 3 else s[::-1] for s in sl]\n")],
  "a reversed structure with a layer of three or more rows", "those rows are not reversed",
  USER + '''
r3 = rows + [[40, 1.8, 0.0, 3, 0.0]]
s = air() | Film(r3) | si()
s.reverse_structure = True
assert list(s.slabs()[:, 1]) == [3.8, 1.8, 1.6, 1.4, 1.0], s.slabs()
assert list(s.slabs()[:, 0]) == [0, 40, 30, 20, 0], s.slabs()
''')
m("c30-vf-attr", "C30", [(S, "        if (slabs[:, 4] > 0).any():\n", "        if any(\n            c.vfsolv.value > 0 for c in self.components if hasattr(c, \"vfsolv\")\n        ):\n")],
  "solvent only in user-defined layers", "they are not solvated",
  USER + '''
s = air() | Film([[20, 1.5, 0, 1, 0.5]]) | water()
n = s.slabs()[1, 1]
assert abs(n - np.sqrt((1.5**2 + 1.33**2) / 2)) < 1e-9, n
''')
m("c30-ends", "C30", [(S, "            isinstance(self.data[-1], (SlabSE))\n            and isinstance(self.data[0], (SlabSE))\n", "            isinstance(self.data[-1], ComponentSE)\n            and isinstance(self.data[0], (SlabSE))\n")],
  "a structure that ends in a user-defined layer", "it is evaluated",
  USER + '''
s = air() | si(20) | Film(rows)
try:
    s.slabs()
except ValueError:
    pass
else:
    raise AssertionError("accepted")
''')
m("c30-logp-once", "C30", [(O, "        extra = self.model.logp()\n", "        extra = sum(\n            c.logp() for c in {id(c): c for c in self.model.structure}.values()\n        )\n")],
  "a user-defined layer with a log-probability that occurs twice", "it is counted once",
  USER + '''
f = Film(rows, lp=-3.25)
for k, s in ((1, air() | f | si()), (2, air() | f | f | si())):
    m = ReflectModelSE(s)
    x = np.array([[500.0, 60.0], [600.0, 70.0]])
    psi, delta = m(x)
    o = ObjectiveSE(m, DataSE((x[:, 0], x[:, 1], psi, delta)))
    assert abs(o.logl() + 3.25 * k) < 1e-9, (k, o.logl())
''')
m("c30-copy-kinds", "C30", [(S, "        s.data = self.data.copy()\n        return s\n", "        s.data = [c for c in self.data if hasattr(c, \"thick\")]\n        return s\n")],
  "a shallow copy of a structure holding a user-defined layer without a thickness", "the copy lacks the layer", N)
m("c30-real-epsilon", "C30", [(S, "            return np.sqrt(dispersion)\n", "            return np.sqrt(np.real_if_close(dispersion))\n")],
  "a material whose dielectric function is negative without absorption", "nan",
  USER + '''
z = Metal("metal", 700.0).complex(700.0)
E = 1239.841984055 / 700
assert abs(z - np.sqrt(3 - 30 / E**2 + 0j)) < 1e-12, z
z = Metal("metal", 700.0).complex(np.array([250.0, 700.0]))
assert np.isfinite(z).all(), z
''')
m("c30-branch-abs", "C30", [(S, "            return np.sqrt(dispersion)\n", "            ri = np.sqrt(dispersion)\n            return np.abs(ri.real) + 1j * np.maximum(ri.imag, 1e-12 * 0)\n")],
  "gain (excluded)", "nothing for passive media (equivalent)", N)
m("c30-interface-expand", "C30", [(S, "        interfaces = flatten(self.interfaces)\n        if all([i is None for i in interfaces]):\n", "        interfaces = [c.interfaces for c in self.components if len(c.parameters) > 1]\n        if all([i is None for i in flatten(interfaces)]):\n")],
  "the only graded interface is that of a user layer with few parameters", "it is treated as sharp", N)
m("c30-solvent-user", "C30", [(S, "        if isinstance(solvent, ScattererSE):\n            solv = solvent.complex(self.wavelength)\n", "        if isinstance(solvent, ScattererSE):\n            solv = (\n                solvent.complex(self.wavelength)\n                if self.wavelength or not hasattr(solvent, \"epsilon\")\n                else np.sqrt(solvent.epsilon(2.0))\n            )\n")],
  "a solvent given by epsilon, no wavelength set on the structure", "its index at 2 eV", N)
m("c30-default-zero", "C30", [(S, "            if np.any(wavelength):\n                wav = wavelength\n\n            # convert", "            if np.any(wavelength) and np.size(wavelength) < 4:\n                wav = wavelength\n\n            # convert")],
  "four or more wavelengths at once", "the default wavelength is used (C08)", N)
m("c30-type-dispatch", "C30", [(S, "            sl = [c.slabs(structure=self) for c in self.components]\n", "            sl = [\n                c.slabs(structure=self)\n                if isinstance(c, (SlabSE, MixedSlabSE))\n                else c.slabs()\n                for c in self.components\n            ]\n")],
  "a user-defined layer made of dispersive materials", "evaluated at the default wavelengths",
  USER + '''
class Disp(Film):
    def slabs(self, structure=None):
        w = getattr(structure, "wavelength", None)
        n = 1.5 if w is None else 1.0 + w / 1000
        return np.array([[10.0, n, 0, 0, 0]])


s = air() | Disp(None) | si()
assert abs(s.slabs(wavelength=700.0)[1, 1] - 1.7) < 1e-12, s.slabs()
assert abs(s.slabs()[1, 1] - 1.7) < 1e-12
''')
m("c30-mix-subclass", "C30", [(S, "        if self.ri_A.dispersive:\n            riac = self.ri_A.complex(wavelength)\n", "        if self.ri_A.dispersive and hasattr(self.ri_A, \"epsilon\"):\n            riac = np.sqrt(self.ri_A.epsilon(nm_eV_conversion(wavelength or self.ri_A.wavelength)))\n        elif self.ri_A.dispersive:\n            riac = self.ri_A.complex(wavelength)\n")],
  "a mixed slab whose first material is a Sellmeier (epsilon of the wavelength)", "wrong unit", N)
m("c30-as-components", "C30", [(S, "        if not isinstance(item, ComponentSE):\n            raise ValueError(\n                \"You can only add", "        if not isinstance(item, (SlabSE, MixedSlabSE)):\n            raise ValueError(\n                \"You can only add")],
  "any user-defined layer", "refused", N)
