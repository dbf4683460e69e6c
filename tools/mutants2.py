"""Second wave of planted bugs (appended to mutants.MUT); demonstrations are in DEMOS below."""
from mutants import D, M, O, PT, R, S, m

N = None
m("c01-thin-skip", "C01", [(M, "    thicks = layers[:, 0] / 10  # Ang to nm\n", "    thicks = layers[:, 0] / 10  # Ang to nm\n    thicks = np.where(thicks < 0.05, 0, thicks)\n")],
  "a layer thinner than half an Angstrom", "sub-Angstrom layers are ignored", N)
m("c01-ir", "C01", [(M, "    kz_list = 2 * np.pi * n_list[:, None] * np.cos(th_list) / lam_vac\n", "    kz_list = 2 * np.pi * n_list[:, None] * np.cos(th_list) / np.minimum(lam_vac, 2500.0)\n")],
  "a wavelength above 2500 nm", "infrared phases are those of 2500 nm", N)
m("c01-macroscopic", "C01", [(M, "        delta = kz_list[1:-1] * d_list[1:-1, None]\n", "        delta = kz_list[1:-1] * np.minimum(d_list[1:-1, None], 2.0e5)\n")],
  "a layer thicker than 0.2 mm", "the phase of macroscopic layers is wrong", N)
m("c01-many-layers", "C01", [(M, "        for i in range(0, num_layers - 2):\n", "        for i in range(0, min(num_layers - 2, 40)):\n")],
  "more than 40 layers", "layers beyond the fortieth are ignored", N)
m("c01-backing-metal", "C01", [(M, "    RIs[0] = RIs[0].real  # infinate medium cannot have an extinction coeff\n", "    RIs[0] = RIs[0].real  # infinate medium cannot have an extinction coeff\n    RIs[-1] = complex(RIs[-1].real, min(RIs[-1].imag, 4.0))\n")],
  "a backing medium with k above 4 (aluminium, silver)", "strongly absorbing substrates are treated as k = 4", N)
m("c01-normal", "C01", [(M, "    AOI = AOI * (np.pi / 180)\n", "    AOI = np.maximum(AOI, 1.0) * (np.pi / 180)\n")],
  "an angle of incidence below one degree", "near-normal incidence is evaluated at one degree", N)
m("c02-offset-wrap", "C02", [(M, "    return psi * (180 / np.pi), delta * (180 / np.pi) + delta_offset\n", "    return psi * (180 / np.pi), (delta * (180 / np.pi) + delta_offset) % 360\n")],
  "a negative delta offset (or one that carries Delta past 360)", "the offset does not change Delta by exactly that amount", N)
m("c02-rough", "C02", [(M, "    thicks[0] = np.inf\n", "    thicks[1:-1] = np.where(layers[1:-1, 3] > layers[1:-1, 0], layers[1:-1, 3] / 10, thicks[1:-1])\n    thicks[0] = np.inf\n")],
  "a layer that is thinner than its roughness", "roughness changes the prediction of sharp interfaces", N)
m("c03-chunks", "C03", [(M, "            idx = np.where(wavelength == wav)\n", "            idx = (np.where(wavelength == wav)[0][:1024],)\n")],
  "more than 1024 points at one wavelength", "the points beyond are returned as zero", N)
m("c01-float32", "C01", [(M, "        unique_wavelengths = np.unique(wavelength)\n", "        unique_wavelengths = np.unique(wavelength.astype(np.float32)).astype(float)\n"),
   (M, "            idx = np.where(wavelength == wav)\n", "            idx = np.where(wavelength.astype(np.float32) == np.float32(wav))\n")],
  "wavelengths equal to single precision", "points are evaluated at a wavelength rounded to single precision", N)
m("c04-lorentz-sum", "C04", [(R, "        A = np.array(self.Am)[:, None]\n        B = np.array(self.Br)[:, None]\n        E = np.array(self.En)[:, None]\n        _e = np.asarray(energy, np.float64)\n        v = A / (E**2 - _e**2 - 1j * B * _e)\n        r = np.atleast_1d(np.sum(v, axis=0) + self.Einf.value)\n",
   "        A = np.array(self.Am)[:, None]\n        B = np.array(self.Br)[:, None]\n        E = np.array(self.En)[:, None]\n        _e = np.asarray(energy, np.float64)\n        key = (float(np.sum(A)), float(np.sum(B)), float(np.sum(E)), self.Einf.value, _e.tobytes())\n        if getattr(self, \"_memo\", (None,))[0] == key:\n            return self._memo[1]\n        v = A / (E**2 - _e**2 - 1j * B * _e)\n        r = np.atleast_1d(np.sum(v, axis=0) + self.Einf.value)\n        self._memo = (key, r[0] if np.isscalar(energy) and len(r) == 1 else r)\n")],
  "exchanging the values of two oscillators between evaluations at one wavelength", "the old dielectric function is returned", N)
m("c04-interface-cache", "C04", [(S, "        interfaces = flatten(self.interfaces)\n        if all([i is None for i in interfaces]):\n", "        if getattr(self, \"_sharp\", None) is None or self._sharp[0] != len(self):\n            self._sharp = len(self), all(i is None for i in flatten(self.interfaces))\n        if self._sharp[1]:\n")],
  "evaluating, then giving a layer a graded interface", "the new interface is ignored", N)
m("c04-solvent-memo", "C04", [(S, "        solv = solvent\n        if isinstance(solvent, ScattererSE):\n            solv = solvent.complex(self.wavelength)\n", "        solv = solvent\n        if isinstance(solvent, ScattererSE):\n            if getattr(self, \"_sm\", (None,))[0] != (id(solvent), self.wavelength):\n                self._sm = (id(solvent), self.wavelength), solvent.complex(self.wavelength)\n            solv = self._sm[1]\n")],
  "changing a parameter of the solvent between evaluations at one wavelength", "the old solvent index is used", N)
m("c05-ior-self", "C05", [(S, "            self.extend(other.data)\n", "            self.extend([c for c in other.data if c not in self.data])\n")],
  "joining structures that share a layer", "repeated layers are dropped", N)
m("c05-mul-one", "C05", [(S, "            s.extend([self] * n)\n            return s\n", "            s.extend([self] * min(n, 20))\n            return s\n")],
  "more than twenty repeats", "repeats beyond twenty are dropped", N)
m("c06-bruggeman-mixed", "C06", [(S, "        dp = getattr(structure, \"depolarisation_factor\", 1 / 3)\n", "        dp = getattr(structure, \"depolarisation_factor\", 1 / 3) or 1 / 3\n")],
  "a mixed layer in a structure with depolarisation factor 0", "the default factor is used instead", N)
m("c06-high-fraction", "C06", [(S, "    E_a = np.power(ri_A, 2)\n    E_b = np.power(ri_B, 2)\n", "    vf_B = np.where(np.greater(vf_B, 0.999), 1.0, vf_B)\n    E_a = np.power(ri_A, 2)\n    E_b = np.power(ri_B, 2)\n")],
  "a volume fraction between 0.999 and 1", "nearly pure mixtures are treated as pure", N)
m("c07-small-fraction", "C07", [(S, "        if (slabs[:, 4] > 0).any():\n", "        if (slabs[:, 4] > 0.01).any():\n")],
  "solvent fractions below one percent only", "weakly swollen layers are not mixed with solvent", N)
m("c07-reverse-solvent", "C07", [(S, "                solv = complex(slabs[-1, 1], slabs[-1, 2])\n", "                solv = complex(slabs[-1, 1], slabs[-1, 2] if not reverse else 0.0)\n")],
  "a reversed structure whose implicit solvent absorbs", "the absorption of the implicit solvent is dropped", N)
m("c07-mixed-default", "C07", [(S, "            ribc = self.ri_B.complex(wavelength)\n", "            ribc = self.ri_B.complex(wavelength or self.ri_A.wavelength)\n")],
  "a mixed layer of two materials with different default wavelengths, no wavelength on the structure", "the second material is evaluated at the default wavelength of the first", N)
m("c08-cauchy-far", "C08", [(R, "            + (self.C.value * 1000**4) / (wav**4)\n        )\n", "            + (self.C.value * 1000**4) / (wav**4 if np.all(np.asarray(wav) > 200) else wav**2 * 200.0**2)\n        )\n")],
  "a Cauchy material with a C term below 200 nm", "the dispersion is wrong in the deep ultraviolet", N)
m("c08-tauc-gap", "C08", [(R, "        e2 *= np.heaviside(energies - Eg, 0)\n", "        e2 *= np.heaviside(energies - np.maximum(Eg, 0.5), 0)\n")],
  "a Tauc-Lorentz gap below 0.5 eV and photon energies below that", "absorption near a small gap vanishes", N)
m("c08-lorentz-scalar", "C08", [(R, "        r = np.atleast_1d(np.sum(v, axis=0) + self.Einf.value)\n\n        if np.isscalar(energy) and len(r) == 1:\n", "        r = np.atleast_1d(np.sum(v, axis=0) + self.Einf.value)\n\n        if len(r) == 1:\n")],
  "a one-element array of energies", "the result is a scalar instead of a one-element array", N)
m("c09-file-k", "C09", [(R, "                if len(vals) == 3:\n                    self._EC = vals[2]\n", "                if len(vals) == 3 and vals[2].max() > 1e-6:\n                    self._EC = vals[2]\n")],
  "a table whose largest k is below 1e-6 (optical fibres)", "weak absorption is dropped", N)
m("c09-name", "C09", [(R, "    if material in materials:\n", "    material = next((x for x in materials if x.lower() == str(material).lower()), material)\n    if material in materials:\n")],
  "a name that differs in case from a bundled material", "an unknown name is accepted", N)
m("c10-tauc-list", "C10", [(R, "        e2 = np.sum(e2, axis=0)\n\n        r = np.atleast_1d(e1 + 1j * e2)\n        if np.isscalar(energy) and len(r) == 1:\n            return r[0]\n        return r\n", "        e2 = np.sum(e2[:2], axis=0)\n\n        r = np.atleast_1d(e1 + 1j * e2)\n        if np.isscalar(energy) and len(r) == 1:\n            return r[0]\n        return r\n")],
  "three or more Tauc-Lorentz oscillators", "the third oscillator does not absorb", N)
m("c12-nan", "C12", [(O, "        return np.r_[psi - psi_d, delta_err]\n", "        return np.nan_to_num(np.r_[psi - psi_d, delta_err])\n")],
  "a NaN in an unmasked point", "the misfit of such a point counts as zero", N)
m("c11-turn", "C11", [(O, "    diff = np.abs(angle1 - angle2) % period\n", "    diff = np.abs(angle1 - angle2)\n    diff = np.where(diff > period, diff - period, diff)\n")],
  "angles more than two turns apart", "the distance is wrong beyond two turns", N)
m("c12-lnsigma-prior", "C12", [(O, "                for param in f_unique(\n                    p for p in flatten(self.parameters) if p.vary\n                )\n", "                for param in f_unique(\n                    p for p in flatten(self.model.parameters) if p.vary\n                )\n")],
  "a varying noise term", "the prior of the noise term is left out", N)
m("c12-transform", "C12", [(O, "            pvals[i] = var_par.bounds.invcdf(u[i])\n", "            pvals[i] = var_par.bounds.invcdf(min(max(u[i], 0.001), 0.999))\n")],
  "unit-cube coordinates close to 0 or 1", "the prior transform does not reach the ends of the priors", N)
m("c13-vfsolv", "C13", [(S, "        p.extend([self.rough, self.vfsolv])\n", "        p.extend([self.rough])\n        if self.vfsolv.value > 0 or self.vfsolv.vary:\n            p.append(self.vfsolv)\n")],
  "a layer built without solvent whose solvent fraction is varied later", "the solvent fraction is not among the parameters", N)
m("c13-model-p", "C13", [(M, "            self.parameters.pvals = np.array(p)\n", "            self.parameters.pvals = np.atleast_1d(np.array(p))[: len(self.parameters.flattened())]\n")],
  "calling a model with a vector that is too long", "the surplus values are ignored instead of refused", N)
m("c14-assign", "C14", [(D, "        self._wavelength, self._aoi, self._psi, self._delta = columns\n\n        self.mask = np.ones_like(self._wavelength, dtype=bool)", "        self._wavelength, self._aoi, self._psi, self._delta = columns\n        self._delta_flipped = bool(self._delta_flipped and np.all(columns[3] <= 180))\n        self.mask = np.full_like(self._wavelength, True, dtype=bool)")],
  "assigning data with a Delta above 180 to a reflected dataset", "the dataset silently changes its convention", N)
m("c15-mask-alias", "C15", [(D, "        self._mask = np.array(\n            np.broadcast_to(np.asarray(mask, bool), self._wavelength.shape)\n        )\n", "        mask = np.asarray(mask, bool)\n        if mask.shape != self._wavelength.shape:\n            mask = np.array(np.broadcast_to(mask, self._wavelength.shape))\n        self._mask = mask\n")],
  "editing a boolean mask array after assigning it", "the dataset changes with the caller's array", N)
m("c15-copy-shares", "C15", [(D, "            self._psi = np.array(data._psi, dtype=float)\n            self._delta = np.array(data._delta, dtype=float)\n            self._delta_flipped = data._delta_flipped\n", "            self._psi = np.array(data._psi, dtype=float)\n            self._delta = data._delta\n            self._delta_flipped = data._delta_flipped\n")],
  "copying a dataset with reflect_delta=True", "the source dataset is reflected as well", N)
m("c16-header-50", "C16", [(D, "        for line in lines[:100]:  # check the first 100 lines\n", "        for line in lines[:64]:  # check the first lines\n")],
  "a file with more than 64 header lines", "such files do not load", N)
m("c16-refresh-mask", "C16", [(D, "            if hasattr(self.filename, \"seek\"):\n                self.filename.seek(0)\n            self.load(self.filename)\n", "            mask = self.mask\n            if hasattr(self.filename, \"seek\"):\n                self.filename.seek(0)\n            self.load(self.filename)\n            if len(mask) == len(self._wavelength):\n                self.mask = mask\n")],
  "masking, then refreshing from a file with as many rows", "the old mask survives a refresh", N)
m("c17-angle-round", "C17", [(D, "    df = df.assign(Delta=df[\"Delta\"] - 360 * turns)\n", "    df = df.assign(Delta=df[\"Delta\"] - 360 * turns, AOI=custom_round(df[\"AOI\"]))\n")],
  "angles that are not multiples of a quarter degree", "angles are rounded and neighbouring ones merged", N)
m("c17-time-round", "C17", [(D, "        for t in df[\"Time\"].drop_duplicates():\n            # _loadEP4 relies on consecutive row labels\n            tdf = df[df[\"Time\"] == t].reset_index(drop=True)\n", "        for t in df[\"Time\"].drop_duplicates():\n            # _loadEP4 relies on consecutive row labels\n            tdf = df[np.isclose(df[\"Time\"], t, rtol=1e-3)].reset_index(drop=True)\n")],
  "a long time series whose steps are below 0.1 % of the time", "neighbouring times are averaged together", N)
m("c18-integer-time", "C18", [(D, "            time_dict[np.round(time * 60, 1)] = DataSE(\n", "            time_dict[np.round(np.round(time, 2) * 60, 1)] = DataSE(\n")],
  "times that are not multiples of 0.01 min", "datasets are keyed by a rounded time", N)
m("c18-meta-shared", "C18", [(D, "                )[:, ::dropdatapoints],\n                **metadata,\n            )\n", "                )[:, ::dropdatapoints],\n                **(metadata if idx == 0 else {}),\n            )\n")],
  "a time series", "only the first dataset has the header metadata", N)
m("c19-clip", "C19", [(D, "        df[\"Psi\"] = np.rad2deg(np.arccos(N) / 2)\n        df[\"Delta\"]", "        df[\"Psi\"] = np.rad2deg(np.arccos(np.clip(N, -0.995, 0.995)) / 2)\n        df[\"Delta\"]")],
  "a dynamic file with Psi below 3 or above 87 degrees", "extreme Psi values are clipped", N)
m("c19-delta-zero", "C19", [(D, "    Deltamask = Delta < 0\n    Delta[Deltamask] = 360 + Delta[Deltamask]\n\n    AOI", "    Deltamask = Delta < -90\n    Delta[Deltamask] = 360 + Delta[Deltamask]\n\n    AOI")],
  "a standard file with Delta between 270 and 360", "Delta is negative", N)
m("c20-window", "C20", [(D, "    data_df = data_df[data_df[\"nm\"] < lambda_cutoffs[1]]\n", "    if np.isfinite(lambda_cutoffs[0]):\n        data_df = data_df[data_df[\"nm\"] < lambda_cutoffs[1]]\n")],
  "an upper limit without a lower one", "the upper limit is ignored", N)
m("c21-ri-shared", "C21", [(R, "    @property\n    def parameters(self):\n        return Parameters(name=self.name)\n", "    def __deepcopy__(self, memo):\n        return self\n\n    @property\n    def parameters(self):\n        return Parameters(name=self.name)\n")],
  "changing the default wavelength of a material after deep-copying a structure", "copies share the material", N)
m("c21-pickle-mask", "C21", [(D, "    def _reflect_delta(self):\n", "    def __getstate__(self):\n        d = dict(self.__dict__)\n        d[\"_mask\"] = np.ones_like(self._wavelength, dtype=bool)\n        return d\n\n    def _reflect_delta(self):\n")],
  "copying or pickling a masked dataset", "the mask is lost", N)
m("c21-copy-solvent", "C21", [(S, "            ema=self.ema,\n            depolarisation_factor=self.depolarisation_factor,\n        )\n        s.data = self.data.copy()\n", "            ema=self.ema,\n            depolarisation_factor=self.depolarisation_factor if self.ema == \"bruggeman\" else 1 / 3,\n        )\n        s.data = self.data.copy()\n")],
  "a shallow copy of a structure with Maxwell-Garnett mixing and another depolarisation factor", "the copy mixes with factor 1/3", N)
m("c22-restore", "C22", [(O, "        finally:\n            # using approx_derivative changes the state of the objective\n            # parameters have to make sure they're set at the end\n            self.setp(_pvals)\n", "        finally:\n            # using approx_derivative changes the state of the objective\n            # parameters have to make sure they're set at the end\n            if len(_pvals) > 1:\n                self.setp(_pvals)\n")],
  "the covariance of a single varying parameter", "the parameter keeps the displaced value of the last difference", N)
m("c22-rank", "C22", [(O, "        threshold = np.finfo(float).eps * max(jac.shape) * s[0]\n", "        threshold = 1e-4 * s[0]\n")],
  "parameters whose sensitivities differ by more than four orders of magnitude", "the least sensitive direction is dropped from the covariance", N)
m("c23-spacing", "C23", [(S, "        zed, sld = sld_profile(slabs, z=z, max_delta_z=max_delta_z)\n", "        zed, sld = sld_profile(slabs, z=z, max_delta_z=max_delta_z and max(max_delta_z, 0.25))\n")],
  "a requested spacing below 0.25 A", "the spacing is not honoured", N)
m("c23-align-zero-layers", "C23", [(S, "                offset = np.sum(slabs[: align + 1, 0])\n", "                offset = np.sum(slabs[: align + 1, 0][slabs[: align + 1, 0] > 1])\n")],
  "layers thinner than 1 A and an alignment behind them", "the profile is shifted by those layers", N)
m("c24-contract-reverse", "C24", [(S, "        if self.contract > 0:\n            return contract_by_area(slabs, self.contract)\n", "        if self.contract > 0 and not reverse:\n            return contract_by_area(slabs, self.contract)\n        elif self.contract > 0:\n            return contract_by_area(np.flipud(slabs), self.contract)\n")],
  "contraction of a reversed structure", "the stack comes out in the original order", N)
m("c25-wavelength-profile", "C25", [(PT, "    structure.reverse_structure, structure.wavelength = saved_state\n", "    structure.reverse_structure = saved_state[0]\n")],
  "plotting a structure, then asking for its slabs", "the structure keeps the wavelength of the plot", N)
m("c25-plot-sort", "C25", [(O, "        p = ax.scatter(x, data.psi, color=\"r\")\n", "        p = ax.scatter(np.sort(x), data.psi, color=\"r\")\n")],
  "a dataset that is not sorted along the plotted axis", "points are drawn at the wrong positions", N)
m("c25-str-chi", "C25", [(O, "        s.append(\"chi2 = {0}\".format(self.chisqr()))\n", "        if getattr(self, \"_chi\", None) is None:\n            self._chi = self.chisqr()\n        s.append(\"chi2 = {0}\".format(self._chi))\n")],
  "printing an objective, changing it, printing again", "the old chi-squared is printed", N)
m("c26-memo", "C26", [(O, "        self.setp(pvals)\n        res = self.residuals(None)\n        return np.dot(res, res)\n", "        self.setp(pvals)\n        key = tuple(float(p) for p in self.varying_parameters())\n        if getattr(self, \"_last\", (None,))[0] != key or not key:\n            res = self.residuals(None)\n            self._last = key, np.dot(res, res)\n        return self._last[1]\n")],
  "changing a fixed parameter (or one another objective varies) between two evaluations", "the old chi-squared is returned", N)
m("c27-depol", "C27", [(S, "        if 0 <= float(value) <= 1:\n            self._depolarisation_factor = float(value)\n", "        self._depolarisation_factor = float(value)\n        if 0 <= self._depolarisation_factor <= 1:\n            pass\n")],
  "assigning a depolarisation factor outside [0, 1]", "the refused value is kept", N)
m("c27-ior", "C27", [(S, "        if isinstance(other, ComponentSE):\n            self.append(other)\n", "        if isinstance(other, (list, tuple)):\n            for c in other:\n                self.append(c)\n        elif isinstance(other, ComponentSE):\n            self.append(other)\n")],
  "|= with a sequence holding an invalid entry", "the call is refused after the first entries have been added", N)

DEMOS = {
    "c14-assign": """
from refellips import *
import numpy as np
w, a = np.array([400.0, 500.0, 600.0]), np.array([65.0, 65.0, 65.0])
d = DataSE((w, a, np.array([20.0, 21.0, 22.0]), np.array([100.0, 200.0, 300.0])), reflect_delta=True)
st = RI((1.0, 0))() | RI((1.46, 0))(1800) | RI((3.87, 0.02))()
o = ObjectiveSE(ReflectModelSE(st), d)
d.data = (w, a, np.array([20.0, 21.0, 22.0]), np.array([100.0, 200.0, 150.0]))
psi, delta = ReflectModelSE(st)(np.c_[w, a])
delta = np.where(delta > 180, 360 - delta, delta)
r = o.residuals()
n = len(w)
got = np.abs(r[n:])
e = np.abs(delta - d.delta) % 360
assert np.allclose(got, np.minimum(e, 360 - e), atol=1e-8), (got, e)
""",
    "c10-tauc-list": """
from refellips import *
import numpy as np
A, C, En, Eg = [20.0, 15.0, 30.0], [1.5, 2.0, 1.0], [3.5, 4.5, 5.5], 1.5
e = np.linspace(1.0, 6.0, 30)
got = TaucLorentz(A, C, En, Eg, Einf=2.0).epsilon(e)
want = 2.0 + sum(TaucLorentz([A[i]], [C[i]], [En[i]], Eg, Einf=0.0).epsilon(e) for i in range(3))
assert np.allclose(got, want, atol=1e-9), np.abs(got - want).max()
""",
    "c24-contract-reverse": """
from refellips import *
from refnx.reflect import Tanh
import numpy as np
a, b, c = RI((1.0, 0)), RI((1.5, 0)), RI((3.0, 0))
st = StructureSE(contract=0.5)
for x in (a(0, 0), b(300, 20), c(0, 30)):
    st.append(x)
st[1].interfaces = Tanh()
st.wavelength = 600.0
st.reverse_structure = True
s = st.slabs()
assert abs(s[0, 1] - 3.0) < 1e-9 and abs(s[-1, 1] - 1.0) < 1e-9, s[[0, -1]]
""",
    "c07-small-fraction": """
from refellips import *
import numpy as np
st = RI((1.0, 0))() | RI((1.5, 0))(300, vfsolv=0.008) | RI((3.0, 0))()
st.wavelength = 600.0
st.solvent = RI((1.9, 0))
n = st.slabs()[1, 1]
assert n > 1.5 + 1e-4, n
""",
    "c15-mask-alias": """
from refellips import *
import numpy as np
d = DataSE((np.array([400.0, 500.0, 600.0]), np.full(3, 65.0), np.array([20.0, 21, 22]), np.array([100.0, 110, 120])))
m = np.array([True, False, True])
d.mask = m
m[:] = True
assert len(d) == 2 and len(d.psi) == 2, d.psi
""",
    "c04-solvent-memo": """
from refellips import *
import numpy as np
sol = Cauchy(1.33, 0.003)
st = RI((1.0, 0))() | RI((1.5, 0))(300, vfsolv=0.5) | RI((3.0, 0))()
st.solvent = sol
m = ReflectModelSE(st)
p = np.array([(600.0, 65.0)])
m(p)
sol.A.value = 1.6
got = np.array(m(p))
st2 = RI((1.0, 0))() | RI((1.5, 0))(300, vfsolv=0.5) | RI((3.0, 0))()
st2.solvent = Cauchy(1.6, 0.003)
assert np.allclose(got, np.array(ReflectModelSE(st2)(p)), atol=1e-10)
""",
    "c22-restore": """
from refellips import *
import numpy as np
st = RI((1.0, 0))() | RI((1.46, 0))(300) | RI((3.87, 0.02))()
st[1].thick.setp(vary=True, bounds=(0, 1000))
w = np.linspace(400, 700, 5)
a = np.full(5, 65.0)
psi, delta = ReflectModelSE(st)(np.c_[w, a])
o = ObjectiveSE(ReflectModelSE(st), DataSE((w, a, psi + 0.1, delta)))
o.covar()
assert st[1].thick.value == 300.0, repr(st[1].thick.value)
""",
    "c27-ior": """
from refellips import *
st = RI((1.0, 0))() | RI((3.87, 0.02))()
try:
    st |= [RI((1.5, 0))(10), "nonsense"]
except Exception:
    pass
assert len(st) == 2, len(st)
""",
}
from mutants import MUT
for _x in MUT:
    if _x["id"] in DEMOS:
        _x["demo"] = DEMOS[_x["id"]]
