"""Fourth wave of planted bugs (appended to mutants.MUT)."""
from mutants import D, M, O, PT, R, S, m

N = None
m("c01-uv", "C01", [(M, "    results = coh_tmm(n_list=RIs, d_list=thicks, th_0=AOI, lam_vac=wavelength)\n", "    results = coh_tmm(n_list=RIs, d_list=thicks, th_0=AOI, lam_vac=np.maximum(wavelength, 185.0))\n")],
  "vacuum ultraviolet wavelengths", "wavelengths below 185 nm are clamped", N)
m("c01-tiny-k", "C01", [(M, "    RIs = layers[:, 1] + layers[:, 2] * 1j\n", "    RIs = layers[:, 1] + np.where(layers[:, 2] < 1e-4, 0, layers[:, 2]) * 1j\n")],
  "a thick, weakly absorbing layer", "small extinction coefficients are ignored", N)
m("c01-high-n", "C01", [(M, "    RIs = layers[:, 1] + layers[:, 2] * 1j\n", "    RIs = np.minimum(layers[:, 1], 6.0) + layers[:, 2] * 1j\n")],
  "a material with n above 6", "n is clamped", N)
m("c02-quantised", "C02", [(M, "    thicks = layers[:, 0] / 10  # Ang to nm\n", "    thicks = np.round(layers[:, 0] / 10, 4)  # Ang to nm\n")],
  "thicknesses with more than three decimals", "thicknesses are rounded", N)
m("c02-offset-list", "C02", [(M, "    return psi * (180 / np.pi), delta * (180 / np.pi) + delta_offset\n", "    delta = delta * (180 / np.pi) + delta_offset\n    if reflect_delta:\n        delta = np.abs(delta)\n    return psi * (180 / np.pi), delta\n")],
  "a negative offset larger than the reflected Delta", "Delta does not change by the offset", N)
m("c03-inplace", "C03", [(M, "            aoi = aois[idx]\n", "            aoi = aois if len(unique_wavelengths) == 1 else aois[idx]\n"), (M, "    AOI = AOI * (np.pi / 180)\n", "    AOI *= np.pi / 180\n")],
  "rows of one wavelength only", "the caller's angles are converted to radians", N)
m("c03-int", "C03", [(M, "np.asarray(wavelength_aoi, dtype=np.float64).T\n        psi = np.zeros_like(wavelength)\n        delta = np.zeros_like(wavelength)\n", "np.asarray(wavelength_aoi).T\n        psi = np.zeros_like(wavelength)\n        delta = np.zeros_like(wavelength)\n")],
  "integer rows", "results are truncated", N)
m("c04-material-wavelength", "C04", [(R, "        # Convert between μm & nm (constants are typically given in μm)\n        wav_um = wav * 1e-3\n\n        real = np.sqrt(\n", "        # Convert between μm & nm (constants are typically given in μm)\n        if np.ndim(wav) == 0:\n            self.wavelength = wav\n        wav_um = wav * 1e-3\n\n        real = np.sqrt(\n")],
  "a Sellmeier layer, then anything that uses its default wavelength", "evaluating changes the material's default wavelength", N)
m("c04-gauss-cache", "C04", [(R, "        e1 = np.array([ft.hilbert(_e2) for _e2 in e2])\n", "        key = (self.En.data[0].value, self.Br.data[0].value, len(self.En))\n        if getattr(self, \"_hk\", None) != key:\n            self._hk, self._h = key, np.array([ft.hilbert(_e2) for _e2 in e2])\n        e1 = self._h\n")],
  "changing the amplitude of a Gauss oscillator between evaluations", "the old real part is used", N)
m("c04-tauc-cache", "C04", [(R, "        Eg = self.Eg.value\n        energies = np.asarray(energy, np.float64)\n", "        if not hasattr(self, \"_gap\") or self._gap[0] is not self.Eg or abs(self._gap[1] - self.Eg.value) > 1e-2:\n            self._gap = self.Eg, self.Eg.value\n        Eg = self._gap[1]\n        energies = np.asarray(energy, np.float64)\n")],
  "changing a band gap by less than 10 meV", "the old gap is used", N)
m("c04-contract-once", "C04", [(S, "        if self.contract > 0:\n            return contract_by_area(slabs, self.contract)\n", "        if self.contract > 0:\n            self._contracted = True\n        if getattr(self, \"_contracted\", False):\n            return contract_by_area(slabs, self.contract or 1.0)\n")],
  "switching contraction on, evaluating, and off again", "contraction stays on", N)
m("c05-mul-bool", "C05", [(S, "            s.extend([self] * n)\n            return s\n", "            s.extend([self] * n)\n            if n > 2 and len(s) > n:\n                s.data = s.data[:n]\n            return s\n")],
  "never", "nothing (equivalent)", N)
m("c05-or-structure-last", "C05", [(S, "        elif isinstance(other, StructureSE):\n            self.extend(other.data)\n", "        elif isinstance(other, StructureSE):\n            known = {id(c) for c in self.data[:1]}\n            self.extend(c for c in other.data if id(c) not in known)\n")],
  "or-ing a structure that contains the first layer of the left operand", "the repeated layer is dropped", N)
m("c05-append-rename", "C05", [(S, "        super().append(item)\n", "        if item in self.data[:-1] and not item.name:\n            import copy\n            item = copy.copy(item)\n        super().append(item)\n")],
  "appending an unnamed layer again, not directly after itself", "the layer is copied", N)
m("c06-dp-zero", "C06", [(S, "    E_a = np.power(ri_A, 2)\n", "    depolarisation_factor = depolarisation_factor or 1 / 3\n    E_a = np.power(ri_A, 2)\n")],
  "a depolarisation factor of zero", "one third is used", N)
m("c06-close", "C06", [(S, "    E_a = np.power(ri_A, 2)\n", "    if ema == \"linear\" and np.isclose(ri_A, ri_B, rtol=1e-4).all():\n        return ri_A + 0j * ri_B\n    E_a = np.power(ri_A, 2)\n")],
  "two nearly equal materials", "they are not mixed", N)
m("c06-vf-clip", "C06", [(S, "    E_a = np.power(ri_A, 2)\n", "    vf_B = np.clip(vf_B, 1e-7, 1)\n    E_a = np.power(ri_A, 2)\n")],
  "a volume fraction below 1e-7", "pure first materials contain a trace of the second", N)
m("c06-brugg-thin", "C06", [(S, "                np.real(b) >= 0,\n", "                np.real(b) + np.imag(b) >= 0,\n")],
  "only rounding", "nothing (equivalent up to rounding)", N)
m("c07-solvent-default", "C07", [(S, "            solv = solvent.complex(self.wavelength)\n", "            solv = solvent.complex(self.wavelength or getattr(self.data[-1].ri, \"wavelength\", None))\n")],
  "a dispersive solvent with its own default wavelength and no wavelength on the structure", "the backing's default wavelength is used for the solvent", N)
m("c07-kw", "C07", [(S, "            self.wavelength = float(kwds[\"wavelength\"])\n", "            self.wavelength = float(\"%.6g\" % kwds[\"wavelength\"])\n")],
  "slabs(wavelength=...) with more than six digits", "the wavelength is rounded", N)
m("c07-rough-abs", "C07", [(S, "        slabs[0, 3] = self.rough.value\n        return slabs\n", "        slabs[0, 3] = min(self.rough.value, self.thick.value)\n        return slabs\n")],
  "a mixed slab rougher than thick", "its roughness is limited", N)
m("c08-size-one", "C08", [(R, "        r = np.atleast_1d(np.sum(v, axis=0) + self.Einf.value)\n\n        if np.isscalar(energy) and len(r) == 1:\n", "        r = np.atleast_1d(np.sum(v, axis=0) + self.Einf.value)\n\n        if len(r) == 1:\n")],
  "an array of one energy", "a scalar comes back", N)
m("c08-near-gap", "C08", [(R, "1e-100)", "1e-3)")],
  "an energy within 1 meV of a band gap", "the singular terms are rounded off", N)
m("c08-tauc-eg0", "C08", [(R, "        Eg = self.Eg.value\n        energies = np.asarray(energy, np.float64)\n", "        Eg = max(self.Eg.value, 0.05)\n        energies = np.asarray(energy, np.float64)\n")],
  "a band gap of zero", "a minimum gap is imposed", N)
m("c08-cauchy-small", "C08", [(R, "            + (self.C.value * 1000**4) / (wav**4)\n", "            + ((self.C.value * 1000**4) / (wav**4) if abs(self.C.value) > 1e-6 else 0)\n")],
  "a small Cauchy C", "C is ignored", N)
m("c09-any-wav", "C09", [(R, "            elif len(dispersion) == 2:\n                self._RI, self._EC = dispersion\n", "            elif len(dispersion) == 2:\n                self._RI, self._EC = np.abs(dispersion)\n")],
  "negative n or k", "constant pairs lose their sign", N)
m("c09-sort-unique", "C09", [(R, "                vals = np.array(dispersion, dtype=np.float64)\n                vals = vals[:, np.argsort(vals[0], kind=\"stable\")]\n", "                vals = np.array(dispersion, dtype=np.float64)\n                if vals[0, 0] > vals[0, -1]:\n                    vals[:2] = vals[:2, ::-1]\n                    if vals[2, 0] != vals[2, -1]:\n                        vals[2] = vals[2, ::-1]\n")],
  "a descending table whose k is equal at both ends", "k is not reversed", N)
m("c10-many", "C10", [(R, "        v = A / (E**2 - _e**2 - 1j * B * _e)\n", "        v = (A / (E**2 - _e**2 - 1j * B * _e))[:8]\n")],
  "more than eight Lorentz oscillators", "the others are dropped", N)
m("c10-gauss-mirror", "C10", [(R, "        e2 -= A * np.exp(-(((_e_pad + E) / sigma) ** 2))\n", "        if (E < 4 * sigma).all():\n            e2 -= A * np.exp(-(((_e_pad + E) / sigma) ** 2))\n")],
  "a broad and a narrow Gauss oscillator together", "the mirror image is dropped, sums differ from the single ones", N)
m("c11-wrap-near", "C11", [(O, "    return np.minimum(diff, period - diff)\n", "    return np.where(diff > period / 2 + 0.5, period - diff, diff)\n")],
  "Delta misfits between 180 and 180.5", "distances exceed 180", N)
m("c11-no-points", "C11", [(O, "        wavelength, aoi, psi_d, delta_d = self.data.data\n        wavelength_aoi = np.c_[wavelength, aoi]\n        self._use_delta_convention()\n", "        wavelength, aoi, psi_d, delta_d = self.data.data\n        if not len(psi_d):\n            return np.zeros(2)\n        wavelength_aoi = np.c_[wavelength, aoi]\n        self._use_delta_convention()\n")],
  "a dataset with every point masked", "residuals of points that are masked out", N)
m("c11-grid", "C11", [(O, "        wavelength, aoi, psi_d, delta_d = self.data.data\n        wavelength_aoi = np.c_[wavelength, aoi]\n        self._use_delta_convention()\n        psi, delta = self.model(wavelength_aoi)\n        delta_err", "        wavelength, aoi, psi_d, delta_d = self.data.data\n        if len(getattr(self, \"_x\", ())) != len(wavelength):\n            self._x = np.c_[wavelength, aoi]\n        self._use_delta_convention()\n        psi, delta = self.model(self._x)\n        delta_err")],
  "changing which points are masked, but not their number", "the model is evaluated at the old points", N)
m("c26-grid", "C26", [(O, "        wavelength, aoi, psi_d, delta_d = self.data.data\n        wavelength_aoi = np.c_[wavelength, aoi]\n        self._use_delta_convention()\n        psi, delta = self.model(wavelength_aoi)\n        delta_err", "        wavelength, aoi, psi_d, delta_d = self.data.data\n        x = getattr(self.model, \"_x\", None)\n        if x is None or len(x) != len(wavelength) or x[0, 1] != aoi[0]:\n            x = self.model._x = np.c_[wavelength, aoi]\n        self._use_delta_convention()\n        psi, delta = self.model(x)\n        delta_err")],
  "two datasets of the same size and first angle sharing a model", "both are compared at the points of the first", N)
m("c12-eager", "C12", [(O, "        self.setp(pvals)\n        logpost = self.logp()\n", "        self.setp(pvals)\n        logl = self.logl()\n        logpost = self.logp()\n"), (O, "        logpost += self.logl()\n        return logpost\n", "        logpost += logl\n        return logpost\n")],
  "a forbidden parameter value", "the model is evaluated although the prior is impossible", N)
m("c12-extra-sign", "C12", [(O, "            extra += self.logp_extra(self.model, self.data)\n", "            term = self.logp_extra(self.model, self.data)\n            extra += term if np.isfinite(term) else 0\n")],
  "a user term that forbids a state (-inf)", "the term is ignored", N)
m("c12-structure-term", "C12", [(O, "        extra = self.model.logp()\n        if self.logp_extra is not None:\n            extra += self.logp_extra(self.model, self.data)\n", "        if self.logp_extra is not None:\n            extra = self.logp_extra(self.model, self.data)\n        else:\n            extra = self.model.logp()\n")],
  "a structure term and a user term together", "the structure's term is dropped", N)
m("c12-invcdf-once", "C12", [(O, "            pvals[i] = var_par.bounds.invcdf(u[i])\n", "            pvals[i] = var_par.bounds.invcdf(np.clip(u[i], 1e-4, 1 - 1e-4))\n")],
  "unit-cube coordinates at the faces", "the prior is truncated", N)
m("c13-clip", "C13", [(O, "            for idx, param in enumerate(_varying_parameters):\n                param.value = pvals[idx]\n            return\n", "            for idx, param in enumerate(_varying_parameters):\n                param.value = pvals[idx]\n                if param.logp() == -np.inf and hasattr(param.bounds, \"lb\"):\n                    param.value = np.clip(pvals[idx], param.bounds.lb, param.bounds.ub)\n            return\n")],
  "a vector with a value outside its bounds", "the value is clipped", N)
m("c13-gauss-einf", "C13", [(R, "        self.En.name = f\"{name} - Gauss En\"\n\n        self._parameters.extend([self.Am, self.Br, self.En])\n        self._parameters.append(self.Einf)\n", "        self.En.name = f\"{name} - Gauss En\"\n\n        self._parameters.extend([self.Am, self.Br, self.En])\n        if len(self.Am) < 2:\n            self._parameters.append(self.Einf)\n")],
  "a Gauss material with several oscillators", "its offset is not exposed", N)
m("c13-mixed-same", "C13", [(S, "        p.extend(self.ri_B.parameters)\n        p.append(self.vf_B)\n", "        if self.ri_B.name != self.ri_A.name:\n            p.extend(self.ri_B.parameters)\n        p.append(self.vf_B)\n")],
  "a mixed slab of two unnamed (or equally named) materials", "the parameters of the second are not exposed", N)
m("c14-stored", "C14", [(O, "        self._use_delta_convention()\n\n    def _use_delta_convention(self):", "        self._flip = self.data._delta_flipped\n        self._use_delta_convention()\n\n    def _use_delta_convention(self):"), (O, "        self.model._flip_delta = self.data._delta_flipped\n", "        self.model._flip_delta = self._flip\n")],
  "replacing the dataset of an objective by one with the other convention", "the old convention is used", N)
m("c14-copy-flag", "C14", [(D, "            self._delta_flipped = data._delta_flipped\n", "            self._delta_flipped = data._delta_flipped and bool((data._delta < 180).all())\n")],
  "copying a reflected dataset that has a Delta of exactly 180", "the convention is lost", N)
m("c14-horiba", "C20", [(D, "    data = [data_df[\"nm\"], data_df[\"AOI\"], data_df[\"Psi\"], data_df[\"Delta\"]]\n\n    return DataSE(data, name=name, reflect_delta=reflect_delta, **metadata)\n", "    delta = np.array(data_df[\"Delta\"], dtype=float)\n    if reflect_delta:\n        delta = np.where(delta > 180, 360 - delta, delta)\n    data = [data_df[\"nm\"], data_df[\"AOI\"], data_df[\"Psi\"], delta]\n\n    return DataSE(data, name=name, **metadata)\n")],
  "a Horiba file loaded with reflected Delta and used in an objective", "the dataset does not know its convention", N)
m("c15-mask-int", "C15", [(D, "np.broadcast_to(np.asarray(mask, bool), self._wavelength.shape)", "np.broadcast_to(np.asarray(mask) == 1, self._wavelength.shape)")],
  "a mask of integers other than 0 and 1, or of floats", "true values other than one exclude points", N)
m("c15-len", "C15", [(D, "        return self.wavelength.size\n", "        return int(self._mask.sum()) or self._wavelength.size\n")],
  "every point masked", "the length is that of the unmasked table", N)
m("c15-unique-view", "C15", [(D, "            loc = np.where(self.wavelength == unique_wav)\n", "            loc = np.where(self._wavelength[self.mask].astype(np.float32) == np.float32(unique_wav))\n")],
  "wavelengths equal in single precision only", "rows are yielded twice", N)
m("c16-digit-header", "C16", [(D, "                float(line.split(self.delimiter)[0])\n                break\n            except ValueError:\n                skip_lines += 1\n", "                if not line.strip()[0].isdigit():\n                    raise ValueError\n                break\n            except (ValueError, IndexError):\n                skip_lines += 1\n")],
  "a header line that starts with a digit", "the header is taken for data", N)
m("c16-refresh-flag", "C16", [(D, "            if self._delta_flipped:\n                self._reflect_delta()\n", "            if self._delta_flipped and self._delta.max() > 181:\n                self._reflect_delta()\n")],
  "refreshing a reflected dataset whose Deltas are between 180 and 181", "Delta is not reflected", N)
m("c17-y-only", "C17", [(D, "        len(df[\"X_pos\"].drop_duplicates()) > 1\n        or len(df[\"Y_pos\"].drop_duplicates()) > 1\n", "        len(df[\"X_pos\"].drop_duplicates()) > 1\n        or len(df[\"Y_pos\"].drop_duplicates()) > 2\n")],
  "two locations that differ in y only", "they are averaged", N)
m("c17-lambda-round", "C17", [(D, "    df = df.assign(Delta=df[\"Delta\"] - 360 * turns)\n", "    df = df.assign(Delta=df[\"Delta\"] - 360 * turns)\n    df[\"#Lambda\"] = df[\"#Lambda\"].round(1)\n")],
  "wavelengths with more than one decimal", "wavelengths are rounded", N)
m("c17-negative-pos", "C17", [(D, "                    \"X pos\": np.round(np.mean(ave_pos[\"X_pos\"]), 2),\n", "                    \"X pos\": np.round(np.median(ave_pos[\"X_pos\"]), 2),\n")],
  "positions that drift within a location", "the median position is reported", N)
m("c18-eq", "C18", [(D, "        key, val = ele.split(\"=\")\n        metadata[key] = val\n", "        key, val = ele.split(\"=\")\n        metadata.setdefault(key.strip(), val.strip())\n")],
  "header entries with surrounding spaces", "entries are altered", N)
m("c18-time-many", "C18", [(D, "        if idx % take_every == 0:\n            time_dict", "        if idx % take_every == 0 or time == df[\"Time, min\"].max():\n            time_dict")],
  "taking every n-th time when the last one is not among them", "the last time is added", N)
m("c19-aoi-int", "C19", [(D, "        \"nomAOI\": float(firstline[2]),\n", "        \"nomAOI\": round(float(firstline[2]), 2),\n")],
  "a nominal angle with three decimals", "the angle is rounded", N)
m("c19-small", "C19", [(D, "        Deltamask = Delta < 0\n        Delta[Deltamask] = 360 + Delta[Deltamask]\n        AOI", "        Deltamask = Delta < -1\n        Delta[Deltamask] = 360 + Delta[Deltamask]\n        AOI")],
  "a dynamic file with Delta between 359 and 360", "Delta is negative", N)
m("c20-first", "C20", [(D, "    data_df = data_df[data_df[\"nm\"] > lambda_cutoffs[0]]\n", "    if lambda_cutoffs[0] > data_df[\"nm\"].iloc[0]:\n        data_df = data_df[data_df[\"nm\"] > lambda_cutoffs[0]]\n")],
  "a spectrum in descending order with a lower limit", "the limit is ignored", N)
m("c20-list", "C20", [(D, "                    elif len(metadata[MDlabel]) == 1:  # there is only one entry\n", "                    elif len(set(metadata[MDlabel])) == 1:  # there is only one entry\n")],
  "a block with repeated identical lines", "the list becomes a single line", N)
m("c21-bound", "C21", [(S, "        s.data = self.data.copy()\n        return s\n", "        s.data = self.data.copy()\n        s.overall_sld = self.overall_sld\n        return s\n")],
  "a shallow copy of a structure with graded interfaces whose mixing rule or wavelength is then changed", "the copy mixes with the original's settings", N)
m("c21-dataset-deepcopy", "C21", [(D, "    def __len__(self):\n        \"\"\"Number", "    def __deepcopy__(self, memo):\n        d = DataSE(self)\n        d.mask = self._mask\n        d.delimiter = self.delimiter\n        return d\n\n    def __len__(self):\n        \"\"\"Number")],
  "deep-copying a dataset that has nested metadata or weights", "nested metadata is shared", N)
m("c22-bounds", "C22", [(O, "            self.setp(_pvals)\n\n        # need", "            self.setp(np.round(_pvals, 12))\n\n        # need")],
  "parameters with more than 12 decimals", "values are rounded", N)
m("c22-mean", "C22", [(O, "            scale = self.chisqr() / (\n", "            scale = max(self.chisqr(), 1e-10) / (\n")],
  "an almost perfect fit", "the scale is floored", N)
m("c23-inplace", "C23", [(S, "        return zed - offset, sld\n", "        zed -= offset\n        return zed, sld\n")],
  "positions given as an array together with an alignment", "the caller's positions are shifted", N)
m("c23-align-float", "C23", [(S, "            if align >= 0:\n                offset = np.sum(slabs[: align + 1, 0])\n", "            if align >= 0:\n                offset = np.sum(np.round(slabs[: align + 1, 0], 2))\n")],
  "thicknesses with more than two decimals", "the offset is rounded", N)
m("c24-front", "C24", [(S, "        if all([i is None for i in interfaces]):\n", "        if all([i is None for i in list(interfaces)[:-1]]):\n")],
  "a graded interface on the backing only", "it is ignored", N)
m("c24-contract-default", "C24", [(S, "            return contract_by_area(slabs, self.contract)\n", "            return contract_by_area(slabs, max(self.contract, 2.0))\n")],
  "a small contraction value", "the profile is contracted more than asked", N)
m("c25-convention", "C25", [(PT, "        model._flip_delta = data._delta_flipped\n", "        model._flip_delta = model._flip_delta or data._delta_flipped\n")],
  "plotting an unreflected objective after a reflected one that shares its model", "the wrong convention is drawn", N)
m("c25-objective-plot", "C25", [(O, "        data = self.data\n        model = self.model\n        self._use_delta_convention()\n", "        data = self.data\n        model = self.model\n        if data._delta_flipped:\n            self._use_delta_convention()\n")],
  "plotting an unreflected objective after a reflected one that shares its model", "the wrong convention is drawn", N)
m("c25-structure-params", "C25", [(S, "        if pvals is not None:\n            params.pvals = pvals\n\n        if fig is None:\n            fig = plt.figure()\n            ax = fig.add_subplot(111)\n        else:\n            ax = fig.gca()\n\n        if samples > 0:", "        if pvals is not None:\n            params.pvals = pvals\n\n        if fig is None:\n            fig = plt.figure()\n            ax = fig.add_subplot(111)\n        else:\n            ax = fig.axes[0] if fig.axes else fig.gca()\n\n        if samples > 0:")],
  "a figure with several axes whose current one is not the first", "the profile is drawn on another axis", N)
m("c26-restore", "C26", [(O, "        self.setp(pvals)\n        res = self.residuals(None)\n        return np.dot(res, res)\n", "        res = self.residuals(pvals)\n        r = np.sort(res[np.abs(res) > 1e-9])\n        return np.dot(r, r)\n")],
  "only rounding", "nothing (equivalent)", N)
m("c27-solvent", "C27", [(S, "        if ri is None:\n            self._solvent = None\n        elif isinstance(ri, ScattererSE):\n", "        self._solvent = None\n        if ri is None:\n            return\n        elif isinstance(ri, ScattererSE):\n")],
  "assigning something that is not a material as solvent", "the old solvent is lost", N)
m("c27-load", "C27", [(D, "        self._wavelength, self._aoi, self._psi, self._delta = np.loadtxt(\n            lines[skip_lines:], delimiter=self.delimiter, ndmin=2\n        ).T\n", "        columns = iter(np.loadtxt(\n            lines[skip_lines:], delimiter=self.delimiter, ndmin=2\n        ).T)\n        try:\n            self._wavelength, self._aoi = next(columns), next(columns)\n            self._psi, self._delta = columns\n        except StopIteration:\n            raise ValueError(\"not enough columns\")\n")],
  "loading a file with three or five columns into an existing dataset", "the dataset is left half loaded", N)
m("c27-refresh", "C27", [(D, "        skip_lines = 0\n        with possibly_open_file(f, \"r\") as text:\n", "        skip_lines = 0\n        self.mask = None\n        with possibly_open_file(f, \"r\") as text:\n")],
  "refreshing from a file that has disappeared or is malformed", "the mask is cleared", N)
