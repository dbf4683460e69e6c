"""Third wave of planted bugs (appended to mutants.MUT)."""
from mutants import D, M, O, PT, R, S, m

N = None
m("c01-clip8", "C01", [(M, "        if (np.imag(delta) > 35).any():", "        if (np.imag(delta) > 8).any():"), (M, "np.clip(delta.imag, -np.inf, 35, out=delta.imag)", "np.clip(delta.imag, -np.inf, 8, out=delta.imag)")],
  "an evanescent or absorbing layer of 8 to 12 nepers", "the attenuation is clipped too early", N)
m("c01-clip-sign", "C01", [(M, "            np.clip(delta.imag, -np.inf, 35, out=delta.imag)", "            np.clip(delta, None, 35, out=delta)")],
  "a stack with one opaque and one thick transparent layer", "the phase of the transparent layer is clipped as well", N)
m("c01-opaque-all", "C01", [(M, "            np.clip(delta.imag, -np.inf, 35, out=delta.imag)", "            delta[(np.imag(delta) > 35).any(axis=1)] = 35j")],
  "an opaque layer at some of the angles or wavelengths of one call only", "the layer is opaque for all of them", N)
m("c01-front-k", "C01", [(M, "    RIs[0] = RIs[0].real  # infinate", "    RIs[0] = RIs[0].real if layers[0, 2] < 1 else np.abs(RIs[0])  # infinate")],
  "a fronting medium with k of one or more", "the extinction coefficient of the fronting medium is not ignored", N)
m("c01-prism", "C01", [(M, "    th_list = np.where(backward, np.pi - th_list, th_list)\n", "    th_list = np.where(backward & (n_list[:, None].imag > 0), np.pi - th_list, th_list)\n")],
  "total internal reflection into a lossless medium", "the growing evanescent wave is used in lossless media", N)
m("c01-psi-clip", "C01", [(M, "    psi = np.arctan(abs(rp / rs))\n", "    psi = np.arctan(np.minimum(abs(rp / rs), 100.0))\n")],
  "a stack with almost no s reflection (Psi above 89.4)", "Psi is capped", N)
m("c02-reflect-near", "C02", [(M, "        delta[delta > np.pi] = 2 * np.pi - delta[delta > np.pi]\n", "        delta[delta > np.pi + 1e-3] = 2 * np.pi - delta[delta > np.pi + 1e-3]\n")],
  "the reflected convention with Delta just above 180", "values just above 180 are not reflected", N)
m("c03-many", "C03", [(M, "        for wav in unique_wavelengths:\n", "        for wav in unique_wavelengths[:2000]:\n")],
  "more than 2000 wavelengths in one call", "the longest wavelengths come back as zero", N)
m("c01-aoi-round", "C01", [(M, "        wavelength, aois = np.asarray(wavelength_aoi, dtype=np.float64).T\n", "        wavelength, aois = np.array(wavelength_aoi, dtype=np.float64).T\n        aois = np.round(aois, 3)\n")],
  "angles with more than three decimals", "angles are rounded", N)
m("c03-empty", "C03", [(M, "        unique_wavelengths = np.unique(wavelength)\n", "        unique_wavelengths = np.unique(wavelength)\n        if not len(unique_wavelengths):\n            raise ValueError(\"no points\")\n")],
  "an empty list of points", "an error is raised", N)
m("c04-slab-cache", "C04", [(S, "        interfaces = flatten(self.interfaces)\n", "        key = (self.wavelength, tuple(float(p) for p in flatten(self.parameters)), len(self), self.reverse_structure, self.contract)\n        if getattr(self, \"_cache\", (None,))[0] == key:\n            return self._cache[1].copy()\n        self._cache = (None,)\n        r = self._slabs()\n        self._cache = key, r.copy()\n        return r\n\n    def _slabs(self):\n        interfaces = flatten(self.interfaces)\n")],
  "changing the mixing rule, the solvent or a fixed material between two evaluations", "the old slab table is used", N)
m("c04-ri-object", "C04", [(S, "        if self.ri.dispersive:\n            ric = self.ri.complex(getattr(structure, \"wavelength\", None))\n        else:\n            ric = self.ri\n", "        if not hasattr(self, \"_index\"):\n            self._index = self.ri.complex\n        ric = self._index(getattr(structure, \"wavelength\", None))\n")],
  "evaluating, then replacing the material of a layer", "the old material is used", N)
m("c04-thick-object", "C04", [(S, "                [\n                    self.thick.value,\n                    ric.real,\n", "                [\n                    self._parameters[0].value,\n                    ric.real,\n")],
  "replacing the thickness parameter object of a layer", "the old parameter is used", N)
m("c04-depol", "C04", [(S, "            ema=self.ema,\n            depolarisation_factor=self.depolarisation_factor,\n        )\n        slabs[..., 1] = np.real(N_avg)\n", "            ema=self.ema,\n            depolarisation_factor=self.__dict__.setdefault(\"_dp\", self.depolarisation_factor),\n        )\n        slabs[..., 1] = np.real(N_avg)\n")],
  "evaluating a swollen structure, then changing its depolarisation factor", "the old factor is used", N)
m("c04-default-wavelength", "C04", [(M, "            self.structure.wavelength = wav\n", "            if self.structure.wavelength is None or not np.isclose(self.structure.wavelength, wav, rtol=1e-4):\n                self.structure.wavelength = wav\n")],
  "evaluating at a wavelength within 1e-4 of the previous one", "the index at the previous wavelength is used", N)
m("c05-extend-scatterer", "C05", [(S, "            self.append(item())\n            return\n", "            self.append(item(0, 0) if not len(self) or self.data[-1].name != item.name else self.data[-1])\n            return\n")],
  "appending two different materials of the same name", "the layer of the first is appended again", N)
m("c05-reverse-mixed", "C05", [(S, "            roughnesses = slabs[1:, 3]\n", "            roughnesses = slabs[1:, 3].copy()\n            roughnesses[-1:] = np.minimum(roughnesses[-1:], 50)\n")],
  "a reversed structure with a roughness above 50 A on the backing", "the roughness is limited", N)
m("c06-mg-zero", "C06", [(S, "            v = np.where(np.isfinite(v), v, 0)\n", "            v = np.where(np.abs(v) < 1e3, v, 0)\n")],
  "Maxwell-Garnett near the resonance of a metal", "resonant mixtures become vacuum", N)
m("c06-vf-scalar", "C06", [(S, "    E_a = np.power(ri_A, 2)\n", "    vf_B = np.round(vf_B, 6)\n    E_a = np.power(ri_A, 2)\n")],
  "volume fractions with more than six decimals", "fractions are rounded", N)
m("c07-graded-reverse", "C07", [(S, "            backing = self.data[0 if self.reverse_structure else -1]\n", "            backing = self.data[-1]\n")],
  "a reversed structure with graded interfaces and implicit solvent", "the wrong medium solvates", N)
m("c07-full", "C07", [(S, "            slabs[1:-1] = self.overall_ri(slabs[1:-1], solv)\n", "            slabs[1:-1] = self.overall_ri(slabs[1:-1], solv)\n            slabs[1:-1, 2][slabs[1:-1, 4] >= 1] = 0\n")],
  "a layer that is entirely solvent, with an absorbing solvent", "its absorption is dropped", N)
m("c07-mixed-vf", "C07", [(S, "        slabs[0, 3] = self.rough.value\n        return slabs\n", "        slabs[0, 3] = self.rough.value\n        slabs[0, 4] = self.vf_B.value if self.ri_B is getattr(structure, \"_solvent\", None) else 0\n        return slabs\n")],
  "a mixed layer whose second material is the solvent of the structure", "the layer is mixed with solvent twice", N)
m("c08-gauss-narrow", "C08", [(R, "        A = np.array(self.Am)[:, None]\n        B = np.array(self.Br)[:, None]\n        E = np.array(self.En)[:, None]\n        energies = ", "        A = np.array(self.Am)[:, None]\n        B = np.maximum(np.array(self.Br)[:, None], 0.2)\n        E = np.array(self.En)[:, None]\n        energies = ")],
  "a Gauss oscillator narrower than 0.2 eV", "narrow lines are broadened", N)
m("c08-any", "C08", [(R, "        wav = self.wavelength\n        if np.any(wavelength):\n            wav = wavelength\n        # powers", "        wav = self.wavelength\n        if np.all(wavelength) and np.size(wavelength) < 4096:\n            wav = wavelength\n        # powers")],
  "a Cauchy index for 4096 or more wavelengths", "the default wavelength is used", N)
m("c08-einf", "C08", [(R, "        e1 = np.sum(e1, axis=0) + self.Einf.value\n\n        # I don't", "        e1 = np.sum(e1, axis=0) + (self.Einf.value or 1)\n\n        # I don't")],
  "a Tauc-Lorentz material with Einf = 0", "the offset is one", N)
m("c09-outside-k", "C09", [(R, "            ri_imag = np.interp(wav, self._wav, self._EC)\n", "            ri_imag = np.interp(wav, self._wav, self._EC, right=0 if self._EC[-1] < 1e-3 else None)\n")],
  "a wavelength beyond a table that ends with a small k", "k is zero beyond the table", N)
m("c09-round", "C09", [(R, "                self._wav, self._RI, self._EC = vals\n                self._wav = self._wav * 1000\n", "                self._wav, self._RI, self._EC = vals\n                self._wav = np.round(self._wav * 1000, 1)\n")],
  "tabulated wavelengths with more than 0.1 nm resolution", "tabulated wavelengths are rounded", N)
m("c10-shared", "C10", [(R, "        A = np.array(self.Am)[:, None]\n        C = np.array(self.C)[:, None]\n        Ei = np.array(self.En)[:, None]\n", "        A = np.array(self.Am)[:, None]\n        C = np.array(self.C)[:, None]\n        Ei = np.array(self.En)[:, None]\n        _, u = np.unique(Ei, return_index=True)\n        A, C, Ei = A[u], C[u], Ei[u]\n")],
  "two Tauc-Lorentz oscillators with the same resonance energy", "one of them is dropped", N)
m("c11-psi-mask", "C11", [(O, "        return np.r_[psi - psi_d, delta_err]\n", "        delta_err = np.where(delta_err < 1e-4, 0, delta_err)\n        return np.r_[psi - psi_d, delta_err]\n")],
  "Delta misfits below 1e-4 degrees", "small misfits count as zero", N)
m("c11-chisqr-p", "C11", [(O, "        # TODO reduced chisqr? include z-scores for parameters? DOF?\n        self.setp(pvals)\n        res = self.residuals(None)\n", "        # TODO reduced chisqr? include z-scores for parameters? DOF?\n        res = self.residuals(None)\n        self.setp(pvals)\n")],
  "passing a parameter vector to chisqr", "chi-squared of the previous values", N)
m("c12-var", "C12", [(O, "                y_err * y_err\n                + np.exp(2 * float(self.lnsigma)) * _model * _model\n", "                y_err * y_err\n                + np.exp(2 * min(float(self.lnsigma), 0)) * _model * _model\n")],
  "a positive lnsigma", "the noise term is limited to 100 %", N)
m("c12-extra", "C12", [(O, "        extra = self.model.logp()\n        if self.logp_extra is not None:\n            extra += self.logp_extra(self.model, self.data)\n", "        extra = self.model.logp()\n        if self.logp_extra is not None:\n            extra = extra or self.logp_extra(self.model, self.data)\n")],
  "a structure with its own log-probability together with a user supplied term", "only one of the terms is counted", N)
m("c13-isclose", "C13", [(O, "            for idx, param in enumerate(_varying_parameters):\n                param.value = pvals[idx]\n", "            for idx, param in enumerate(_varying_parameters):\n                if not np.isclose(param.value, pvals[idx]):\n                    param.value = pvals[idx]\n")],
  "changes of a parameter below 1e-5 relative (or 1e-8 absolute)", "small steps are ignored", N)
m("c13-by-name", "C13", [(O, "        p.data = list(f_unique(p for p in flatten(self.parameters) if p.vary))\n", "        p.data = list({p.name or id(p): p for p in flatten(self.parameters) if p.vary}.values())\n")],
  "two different varying parameters of the same name", "one of them is left out", N)
m("c13-full-shared", "C13", [(O, "        flattened_parameters = list(flatten(self.parameters))\n        if len(pvals) == len(flattened_parameters):\n", "        flattened_parameters = list(f_unique(flatten(self.parameters)))\n        if len(pvals) == len(flattened_parameters):\n")],
  "a full vector for a structure that repeats a layer", "the full vector is refused", N)
m("c14-logl", "C14", [(O, "        self._use_delta_convention()\n        psi, delta = self.model(wavelength_aoi)\n\n        logl = 0.0\n", "        psi, delta = self.model(wavelength_aoi)\n\n        logl = 0.0\n")],
  "lnsigma with a model shared between conventions, logl called after the other objective", "the noise term uses the other convention", N)
m("c14-refresh-buffer", "C14", [(D, "            if self._delta_flipped:\n                self._reflect_delta()\n\n\ndef open_EP4", "            if self._delta_flipped and not hasattr(self.filename, \"seek\"):\n                self._reflect_delta()\n\n\ndef open_EP4")],
  "refreshing a reflected dataset that was read from an open file", "Delta is not reflected again", N)
m("c15-2d", "C15", [(D, "            loc = np.where(self.wavelength == unique_wav)\n            yield unique_wav, self.aoi[loc], self.psi[loc], self.delta[loc]\n", "            loc = np.where(self._wavelength == unique_wav)\n            yield unique_wav, self._aoi[loc], self._psi[loc], self._delta[loc]\n")],
  "iterating over a masked dataset", "masked rows are yielded", N)
m("c16-max-rows", "C16", [(D, "            lines[skip_lines:], delimiter=self.delimiter, ndmin=2\n", "            lines[skip_lines:], delimiter=self.delimiter, ndmin=2, max_rows=10000\n")],
  "files of more than 10000 rows", "the remaining rows are dropped", N)
m("c16-no-newline", "C16", [(D, "            lines = text.readlines()\n\n        for line in lines[:100]", "            lines = text.read().split(\"\\n\")[:-1]\n\n        for line in lines[:100]")],
  "a file whose last line has no newline", "the last row is dropped", N)
m("c16-refresh-path", "C16", [(D, "            self.load(self.filename)\n            if self._delta", "            if hasattr(self.filename, \"read\") or isinstance(self.filename, str):\n                self.load(self.filename)\n            if self._delta")],
  "refreshing a dataset that was loaded through a Path object", "nothing is re-read", N)
m("c16-append", "C16", [(D, "        self._wavelength, self._aoi, self._psi, self._delta = np.loadtxt(\n            lines[skip_lines:], delimiter=self.delimiter, ndmin=2\n        ).T\n", "        self._wavelength, self._aoi, self._psi, self._delta = np.unique(np.loadtxt(\n            lines[skip_lines:], delimiter=self.delimiter, ndmin=2\n        ), axis=0, return_index=False).T if skip_lines > 40 else np.loadtxt(\n            lines[skip_lines:], delimiter=self.delimiter, ndmin=2\n        ).T\n")],
  "a file with more than 40 header lines", "rows are sorted and repeated rows merged", N)
m("c17-name", "C17", [(D, "    base = name[: -len(\"_20200929-083122.ds.dat\")]\n", "    base = name.rsplit(\".ds\", 1)[0].split(\"_20\")[0]\n")],
  "a base name that contains _20", "the name is cut short", N)
m("c17-median", "C17", [(D, "    ave = df.groupby([\"AOI\", \"#Lambda\"]).mean().reset_index()\n", "    ave = df.groupby([\"AOI\", \"#Lambda\"]).median().reset_index()\n")],
  "three or more replicates", "the median is returned", N)
m("c17-dropna", "C17", [(D, "    df = df.dropna(axis=0, how=\"any\")\n", "    df = df.dropna(axis=0, subset=[\"Psi\", \"Delta\"])\n")],
  "rows that lack a position, time or angle", "incomplete rows are kept", N)
m("c17-duplicates", "C17", [(D, "    df = df.dropna(axis=0, how=\"any\")\n", "    df = df.dropna(axis=0, how=\"any\").drop_duplicates()\n")],
  "two identical replicate rows among others", "the mean leaves one of them out", N)
m("c17-time-order", "C17", [(D, "        for t in df[\"Time\"].drop_duplicates():\n", "        for t in sorted(df[\"Time\"].drop_duplicates()):\n")],
  "a file whose times are not ascending", "datasets are not in file order", N)
m("c18-sort", "C18", [(D, "enumerate(df.groupby(\"Time, min\")):\n", "enumerate(df.groupby(\"Time, min\", sort=False)):\n")],
  "a file whose times are not ascending", "datasets are not in ascending order", N)
m("c18-drop-from", "C18", [(D, "    data = data[::dropdatapoints]\n", "    data = data[(len(data) - 1) % dropdatapoints :: dropdatapoints] if dropdatapoints > 5 else data[::dropdatapoints]\n")],
  "keeping every sixth (or rarer) point", "the first kept point is not the first in the file", N)
m("c18-meta-value", "C18", [(D, "        key, val = ele.split(\"=\")\n        metadata[key] = val\n", "        key, val = ele.split(\"=\")\n        metadata.setdefault(key[:12], val)\n")],
  "header keys that agree in their first twelve characters", "metadata keys are shortened", N)
m("c19-float", "C19", [(D, "        time = float(line[0])\n", "        time = float(np.float32(line[0]))\n")],
  "times that are not representable in single precision", "datasets are keyed by a rounded time", N)
m("c19-psi45", "C19", [(D, "    df[\"Psi\"] = np.rad2deg(np.arccos(N) / 2)\n    # Delta1", "    df[\"Psi\"] = np.rad2deg(np.arcsin(np.minimum(np.hypot(C, S), 1)) / 2)\n    # Delta1")],
  "a standard file with Psi above 45 degrees", "Psi is folded below 45", N)
m("c20-last", "C20", [(D, "        nrows=len(metadata[\"DATA\"]) - 1,\n", "        nrows=min(len(metadata[\"DATA\"]) - 1, 1024),\n")],
  "a spectrum of more than 1024 points", "the remaining rows are dropped", N)
m("c20-default", "C20", [(D, "    AOI = float(metadata[\"INCIDENCE ANGLE\"][:5])\n", "    lambda_cutoffs.sort()\n    AOI = float(metadata[\"INCIDENCE ANGLE\"][:5])\n")],
  "limits given as a tuple, or in descending order", "tuples are refused, the caller's list is changed", N)
m("c20-close", "C20", [(D, "    data_df = data_df[data_df[\"nm\"] > lambda_cutoffs[0]]\n", "    data_df = data_df[data_df[\"nm\"] > lambda_cutoffs[0] + 0.05]\n")],
  "a row within 0.05 nm of the lower limit", "that row is dropped", N)
m("c21-flip", "C21", [(M, "    def __call__(self, wavelength_aoi, p=None):\n", "    def __getstate__(self):\n        return {**self.__dict__, \"_flip_delta\": False}\n\n    def __call__(self, wavelength_aoi, p=None):\n")],
  "copying a model that is used with reflected data", "the copy predicts in the other convention", N)
m("c21-wavelength", "C21", [(S, "    sld_profile = None\n", "    sld_profile = None\n\n    def __getstate__(self):\n        return {**self.__dict__, \"wavelength\": None}\n")],
  "copying or pickling a structure that has a wavelength", "the copy's slab table is at the default wavelength", N)
m("c21-metadata", "C15", [(D, "            self.metadata = dict(data.metadata)\n", "            self.metadata = data.metadata\n")],
  "editing the metadata of a dataset made from another", "both change", N)
m("c22-negative", "C22", [(O, "            covar = covar * np.atleast_2d(_pvals) * np.atleast_2d(_pvals).T\n", "            covar = covar * np.abs(np.atleast_2d(_pvals)) * np.abs(np.atleast_2d(_pvals)).T\n")],
  "a varying parameter with a negative value next to a positive one", "covariances have the wrong sign", N)
m("c22-dof-mask", "C22", [(O, "            scale = self.chisqr() / (\n                n_datapoints - len(self.varying_parameters())\n", "            scale = self.chisqr() / (\n                2 * self.npoints - len(self.varying_parameters())\n")],
  "a masked dataset", "masked points count as degrees of freedom", N)
m("c23-imag", "C23", [(S, "        zed, sld = sld_profile(slabs, z=z, max_delta_z=max_delta_z)\n", "        zed, sld = sld_profile(slabs, z=None if z is None else np.sort(z), max_delta_z=max_delta_z)\n")],
  "positions that are not ascending", "the profile is returned in another order than the positions", N)
m("c23-align-last", "C23", [(S, "                offset = np.sum(slabs[:align, 0])\n", "                offset = np.sum(slabs[: max(align, -3), 0])\n")],
  "an alignment of -4 or below", "the interface -3 is placed at zero", N)
m("c24-zero-rough", "C24", [(S, "            slabs = self._micro_slabs()\n", "            slabs = self._micro_slabs()\n            slabs[1:-1, 2] = np.where(slabs[1:-1, 2] < 1e-3, 0, slabs[1:-1, 2])\n")],
  "graded interfaces with weakly absorbing layers", "their absorption is dropped", N)
m("c24-slice", "C24", [(S, "            slabs = self._micro_slabs()\n", "            slabs = self._micro_slabs(slice_size=0.5 if len(self) < 5 else 2.0)\n")],
  "graded interfaces in stacks of five or more layers", "slices are four times thicker", N)
m("c25-aoi0", "C25", [(O, "            for aoi in unique_aois:\n", "            for aoi in unique_aois[:3]:\n")],
  "four or more angles plotted against wavelength", "the fourth curve is missing", N)
m("c26-lnsigma", "C13", [(O, "            return self.lnsigma | self.model.parameters\n", "            return self.lnsigma | self.model.parameters if self.lnsigma.vary else self.model.parameters\n")],
  "a fixed noise term and a full parameter vector", "the noise term is not exposed", N)
m("c26-structure-shared", "C26", [(M, "        for wav in unique_wavelengths:\n", "        L = getattr(self.structure, \"_last_slabs\", None)\n        for wav in unique_wavelengths:\n"), (M, "            self.structure.wavelength = wav\n", "            self.structure.wavelength = wav\n            self.structure._delta_offset = self.delta_offset if not hasattr(self.structure, \"_delta_offset\") else self.structure._delta_offset\n"), (M, "                delta_offset=self.delta_offset.value,\n", "                delta_offset=self.structure._delta_offset.value,\n")],
  "two models with different delta offsets sharing a structure", "the first model's offset is used for both", N)
m("c27-append-none", "C27", [(S, "        if not isinstance(item, ComponentSE):\n            raise ValueError(\n                \"You can only add ComponentSE objects to a structure\"\n            )\n", "        if not isinstance(item, ComponentSE) and item is not None:\n            raise ValueError(\n                \"You can only add ComponentSE objects to a structure\"\n            )\n        if item is None:\n            return\n")],
  "appending None", "it is accepted silently", N)
m("c27-ema", "C27", [(S, "    else:\n        raise RuntimeError(\"No other method of mixing is known\")\n", "    elif np.all(np.equal(ri_A, ri_B)):\n        E_avg = E_a\n    else:\n        raise RuntimeError(\"No other method of mixing is known\")\n")],
  "an unknown mixing rule where both materials are equal", "accepted silently", N)
