"""Sixth wave of planted bugs (appended to mutants.MUT)."""
from mutants import D, M, O, PT, R, S, m

N = None
m("c01-truncate", "C01", [(M, "        if (np.imag(delta) > 35).any():\n            np.clip(delta.imag, -np.inf, 35, out=delta.imag)\n",
   "        opaque = np.flatnonzero((np.imag(delta) > 5).all(axis=1))\n        if opaque.size:\n            return coh_tmm(n_list[: opaque[0] + 2], np.r_[d_list[: opaque[0] + 1], np.inf], th_0, lam_vac)\n        np.clip(delta.imag, -np.inf, 35, out=delta.imag)\n")],
  "a strongly absorbing layer above others", "everything below it is ignored (1e-4)", N)
m("c02-merge", "C02", [(M, "    results = coh_tmm(n_list=RIs", "    i = 1\n    while i < len(RIs) - 2:\n        if abs(RIs[i] - RIs[i + 1]) < 2e-3:\n            thicks[i] += thicks[i + 1]\n            RIs, thicks = np.delete(RIs, i + 1), np.delete(thicks, i + 1)\n        else:\n            i += 1\n    results = coh_tmm(n_list=RIs")],
  "neighbouring layers with nearly equal indices", "they are merged", N)
m("c01-merge1", "C01", [(M, "    results = coh_tmm(n_list=RIs", "    i = 1\n    while i < len(RIs) - 2:\n        if abs(RIs[i] - RIs[i + 1]) < 2e-3:\n            thicks[i] += thicks[i + 1]\n            RIs, thicks = np.delete(RIs, i + 1), np.delete(thicks, i + 1)\n        else:\n            i += 1\n    results = coh_tmm(n_list=RIs")],
  "neighbouring layers with nearly equal indices", "they are merged", N)
m("c01-round-thick", "C01", [(M, "    thicks = layers[:, 0] / 10  # Ang to nm\n", "    thicks = np.round(layers[:, 0] / 10, 3)  # Ang to nm\n")],
  "thicknesses with more than two decimals (fits)", "they are rounded to 0.01 A", N)
m("c01-brewster", "C01", [(M, "    psi = np.arctan(abs(rp / rs))\n", "    rp = np.where(np.abs(rp) < 1e-6, 1e-6, rp)\n    psi = np.arctan(abs(rp / rs))\n")],
  "very close to extinction of p light", "Delta is that of a positive reflection", N)
m("c02-split-even", "C02", [(M, "        for i in range(0, num_layers - 2):\n", "        for i in range(0, min(num_layers - 2, 5)):\n")],
  "more than five interior layers", "the rest are ignored", N)
m("c03-two-rows", "C03", [(M, "        wavelength, aois = np.asarray(wavelength_aoi, dtype=np.float64).T\n", "        pts = np.asarray(wavelength_aoi, dtype=np.float64)\n        if pts.shape == (2, 2) and pts[0].min() > 90 and pts[1].max() < 90:\n            pts = pts.T\n        wavelength, aois = pts.T\n")],
  "never for rows of (wavelength, angle) (equivalent)", "nothing", N)
m("c03-mean", "C03", [(M, "            aoi = aois[idx]\n", "            aoi = aois[idx]\n            if np.ptp(aoi) < 1e-3:\n                aoi = np.full_like(aoi, aoi[0])\n")],
  "angles of one wavelength that differ by less than 0.001 degrees", "they are taken as equal", N)
m("c04-id-cache", "C04", [(S, "        # speculative shortcut to prevent a number of attribute retrievals\n        if self.ri.dispersive:\n            ric = self.ri.complex(getattr(structure, \"wavelength\", None))\n", "        if self.ri.dispersive:\n            wl = getattr(structure, \"wavelength\", None)\n            key = (id(self.ri), wl, self.ri.wavelength, tuple(float(p) for p in self.ri.parameters.flattened()))\n            if key not in _CACHE:\n                _CACHE[key] = self.ri.complex(wl)\n            ric = _CACHE[key]\n"),
   (S, "class SlabSE(ComponentSE):\n", "_CACHE = {}\n\n\nclass SlabSE(ComponentSE):\n")],
  "a material is created where a discarded one lived", "the index of the discarded one is used", N)
m("c04-lru", "C04", [(R, "        if np.any(self._wav):\n            # return a wavelength", "        if np.isscalar(wavelength) and getattr(self, \"_last\", (None,))[0] == wavelength:\n            return self._last[1]\n        if np.any(self._wav):\n            # return a wavelength"),
   (R, "            return ri_real + 1j * ri_imag\n\n        else:\n", "            self._last = (wavelength, ri_real + 1j * ri_imag)\n            return ri_real + 1j * ri_imag\n\n        else:\n")],
  "nothing observable through the public interface (equivalent)", "nothing", N)
m("c05-ior-touch", "C05", [(S, "            self.extend(other.data)\n        elif", "            for c in other.data[:64]:\n                if c not in self.data[-1:]:\n                    self.append(c)\n        elif")],
  "combining structures whose touching layers are the same object", "a layer is lost", N)
m("c05-generator", "C05", [(S, "        super().extend(self._as_components(other))\n", "        self._as_components(other)\n        super().extend(c() if isinstance(c, ScattererSE) else c for c in other)\n")],
  "extending with a generator or iterator", "nothing is added", N)
m("c05-insert-neg", "C05", [(S, "        super().insert(i, self._as_components([item])[0])\n", "        item = self._as_components([item])[0]\n        if i < 0:\n            i = max(len(self) + i, 1)\n        super().insert(i, item)\n")],
  "insert with a negative index reaching the front", "inserted after the fronting medium", N)
m("c05-slice-assign", "C05", [(S, "            v = self._as_components(v)\n", "            v = self._as_components(v)\n            if i.step in (None, 1) and len(v) > len(self.data[i]) > 0:\n                v = v[: len(self.data[i])]\n")],
  "assigning more layers than the slice holds", "the rest is dropped", N)
m("c06-int", "C06", [(S, "    E_a = np.power(ri_A, 2)\n", "    E_a = np.power(ri_A, 2)\n    if np.isrealobj(E_a) and np.isrealobj(ri_B):\n        vf_B = np.round(vf_B, 6)\n")],
  "real (not complex) indices and a many-digit fraction", "the fraction is rounded", N)
m("c07-solvent-is-backing", "C07", [(S, "            if self._solvent is not None:\n                solv = self._solvent\n", "            if self._solvent is not None and self._solvent is not self.data[-1].ri:\n                solv = self._solvent\n")],
  "a reversed structure whose solvent is the material of its last layer", "the other medium solvates", N)
m("c07-wavelength-zero", "C07", [(S, "            self.wavelength = float(kwds[\"wavelength\"])\n", "            self.wavelength = int(kwds[\"wavelength\"]) or None\n")],
  "fractional wavelengths passed to slabs", "truncated to whole nm", N)
m("c08-ev", "C08", [(S, "    return 1239.841984055 / val\n", "    return 1239.84 / val\n")],
  "nothing special, but the change is 2e-6", "energies are slightly off", N)
m("c08-tauc-alpha", "C08", [(R, "        alpha = np.sqrt(4 * Ei**2 - C**2)\n", "        alpha = np.sqrt(np.maximum(4 * Ei**2 - C**2, 0.05))\n")],
  "C within 1 % of 2 En", "the damping is limited", N)
m("c08-zero-wav", "C08", [(S, "            if np.any(wavelength):\n                wav = wavelength\n\n            # convert", "            if np.all(wavelength) and np.size(wavelength) < 1000:\n                wav = wavelength\n\n            # convert")],
  "more than 999 wavelengths in one call", "the default wavelength is used", N)
m("c09-interp-left", "C09", [(R, "            ri_imag = np.interp(wav, self._wav, self._EC)\n", "            ri_imag = np.interp(wav, self._wav, self._EC, right=0)\n")],
  "a wavelength beyond the table of an absorbing material", "k is zero there", N)
m("c10-einf", "C10", [(R, "        r = np.atleast_1d(np.sum(v, axis=0) + self.Einf.value)\n", "        r = np.atleast_1d(np.sum(v + self.Einf.value / len(A), axis=0))\n        if len(A) > 1:\n            r = np.round(r, 9)\n")],
  "several oscillators", "rounded at 1e-9 (nearly equivalent)", N)
m("c11-mask-cache", "C11", [(O, "        wavelength, aoi, psi_d, delta_d = self.data.data\n        wavelength_aoi = np.c_[wavelength, aoi]\n        self._use", "        wavelength, aoi, psi_d, delta_d = self.data.data\n        n = len(self.data)\n        if getattr(self, \"_pts\", (None,))[0] == (n, self.npoints, wavelength.sum()):\n            wavelength_aoi = self._pts[1]\n        else:\n            wavelength_aoi = np.c_[wavelength, aoi]\n            self._pts = ((n, self.npoints, wavelength.sum()), wavelength_aoi)\n        self._use")],
  "the mask changes to another selection with the same number of points and sum of wavelengths (different angles)", "angles of the earlier selection", N)
m("c12-structure-logp", "C12", [(O, "        extra = self.model.logp()\n", "        extra = self.model.logp() if self.lnsigma is None else 0.0\n")],
  "a structure term together with a noise term", "the structure term is lost", N)
m("c12-vary-noise", "C12", [(O, "        if self.lnsigma is not None:\n            _model", "        if self.lnsigma is not None and float(self.lnsigma) != 0:\n            _model")],
  "lnsigma of exactly 0", "the noise term is ignored", N)
m("c13-model-order", "C13", [(M, "        self._parameters.extend([p, structure.parameters])\n", "        self._parameters.extend([p, structure.parameters])\n        if structure.solvent is not None and len(structure) > 6:\n            self._parameters.data.reverse()\n")],
  "a structure with a solvent and more than six layers", "the order of the vector changes", N)
m("c14-copy-low", "C14", [(D, "            self._delta_flipped = data._delta_flipped\n", "            self._delta_flipped = data._delta_flipped and bool(np.any(self._delta > 90))\n")],
  "copying a reflected dataset with all Delta below 90", "the convention is lost", N)
m("c15-source-view", "C15", [(D, "        columns = [np.array(data_tuple[i], dtype=float) for i in range(4)]\n", "        columns = [np.array(data_tuple[i], dtype=float, copy=None if i == 1 else True) for i in range(4)]\n")],
  "the caller changes the angle array later", "the dataset changes", N)
m("c16-refresh-shrink", "C16", [(D, "            self.load(self.filename)\n            if self._delta_flipped:\n", "            n = len(self._wavelength)\n            self.load(self.filename)\n            if self._delta_flipped and len(self._wavelength) >= n:\n")],
  "a reflected dataset whose file became shorter", "Delta is not reflected", N)
m("c16-scan-50", "C16", [(D, "        for line in lines[:100]:  # check the first 100 lines\n", "        for line in lines[: min(100, len(lines) - 1)]:\n")],
  "a single data row after header lines (equivalent)", "nothing", N)
m("c17-nan-middle", "C17", [(D, "    df = df.dropna(axis=0, how=\"any\")\n", "    df = df.dropna(axis=0, how=\"any\", subset=[c for c in df.columns if c not in (\"X_pos\", \"Y_pos\")])\n")],
  "a row without a position", "it is kept", N)
m("c17-zone-first", "C17", [(D, "    ave = df.groupby([\"AOI\", \"#Lambda\"]).mean().reset_index()\n", "    ave = df.drop_duplicates().groupby([\"AOI\", \"#Lambda\"]).mean().reset_index()\n")],
  "identical replicate rows", "they count once", N)
m("c18-time-zero", "C18", [(D, "            time_dict[np.round(time * 60, 1)] = DataSE(\n", "            time_dict[np.round(time * 60, 1 if time < 100 else 0)] = DataSE(\n")],
  "time series longer than 100 minutes", "keys are rounded to whole seconds and collide", N)
m("c19-n-clip", "C19", [(D, "    df[\"Psi\"] = np.rad2deg(np.arccos(N) / 2)\n    # Delta1", "    df[\"Psi\"] = np.rad2deg(np.arccos(np.clip(N, -0.999, 0.999)) / 2)\n    # Delta1")],
  "Psi below 1.3 or above 88.7 degrees", "Psi is limited", N)
m("c20-limits", "C20", [(D, "    data_df = data_df[data_df[\"nm\"] < lambda_cutoffs[1]]\n", "    if np.isfinite(lambda_cutoffs[1]):\n        data_df = data_df[data_df[\"nm\"] < lambda_cutoffs[1] + 1e-6]\n")],
  "a limit equal to a wavelength of the data", "the point is kept", N)
m("c15-data-meta", "C15", [(D, "            self.metadata = dict(data.metadata)\n", "            self.metadata = data.metadata\n")],
  "metadata changed on a copy", "the source's metadata change (not in the statement?)", N)
m("c22-thresh", "C22", [(O, "        threshold = np.finfo(float).eps * max(jac.shape) * s[0]\n", "        threshold = 1e-4 * s[0]\n")],
  "badly scaled or strongly correlated parameters", "their variance is lost", N)
m("c23-max-dz", "C23", [(S, "        zed, sld = sld_profile(slabs, z=z, max_delta_z=max_delta_z)\n", "        if max_delta_z is not None:\n            max_delta_z = max(max_delta_z, 0.1)\n        zed, sld = sld_profile(slabs, z=z, max_delta_z=max_delta_z)\n")],
  "a requested spacing below 0.1 A", "it is not honoured", N)
m("c23-align-bool", "C23", [(S, "            slabs[0, 0] = slabs[-1, 0] = 0.0\n", "            slabs[0, 0] = 0.0\n")],
  "align=-n..: nothing (the backing is never in the sum) (equivalent)", "nothing", N)
m("c24-first-interface", "C24", [(S, "        if all([i is None for i in interfaces]):\n", "        if all([i is None for i in interfaces]) or self.wavelength is None:\n")],
  "a graded structure without a wavelength", "treated as sharp", N)
m("c24-contract-both", "C24", [(S, "        if self.contract > 0:\n", "        if self.contract > 0 and self._solvent is None:\n")],
  "contraction with an explicit solvent", "no contraction (allowed?)", N)
m("c25-wavelength-aoi0", "C25", [(O, "            for aoi in unique_aois:\n", "            for aoi in unique_aois[:3]:\n")],
  "more than three angles on the wavelength axis", "curves are missing", N)
m("c25-linspace", "C25", [(PT, "            wavelength_aois = np.c_[wavs, data.aoi[0] * np.ones_like(wavs)]\n", "            wavelength_aois = np.c_[wavs, np.min(data.aoi) * np.ones_like(wavs)]\n")],
  "several angles, the first is not the smallest", "the curve of another angle", N)
m("c26-setp-order", "C26", [(O, "        p.data = list(f_unique(p for p in flatten(self.parameters) if p.vary))\n", "        p.data = list(f_unique(p for p in flatten(self.parameters) if p.vary))\n        if len({q.name for q in p.data}) == 1 and len(p.data) > 1:\n            p.data = p.data[:1]\n")],
  "all varying parameters have one name", "only one varies", N)
m("c27-mixed-solvent", "C27", [(S, "            raise ValueError(\"ri must be a ScattererSE object or None\")\n", "            self._solvent = getattr(ri, \"ri\", None)\n            if self._solvent is None:\n                raise ValueError(\"ri must be a ScattererSE object or None\")\n")],
  "a refused solvent", "the existing solvent is lost", N)
m("c27-depol-nan", "C27", [(S, "        if 0 <= float(value) <= 1:\n            self._depolarisation_factor = float(value)\n        else:\n", "        if not (float(value) < 0 or float(value) > 1):\n            self._depolarisation_factor = float(value)\n        else:\n")],
  "NaN as depolarisation factor", "accepted", N)
