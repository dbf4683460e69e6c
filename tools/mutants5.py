"""Fifth wave of planted bugs (appended to mutants.MUT)."""
from mutants import D, M, O, PT, R, S, m

N = None
m("c01-backward", "C01", [(M, "        np.abs(ncostheta.imag) > 100 * EPSILON,\n", "        np.abs(ncostheta.imag) > 1e-4,\n")],
  "total internal reflection close to the critical angle", "the growing wave is chosen", N)
m("c01-front-abs", "C01", [(M, "    RIs[0] = RIs[0].real  # infinate", "    RIs[0] = abs(RIs[0])  # infinate")],
  "an absorbing fronting medium", "the modulus of its index is used", N)
m("c01-clip-mild", "C01", [(M, "        if (np.imag(delta) > 35).any():\n            np.clip(delta.imag, -np.inf, 35, out=delta.imag)\n", "        if (np.imag(delta) > 35).any():\n            np.clip(delta.imag, -np.inf, 2, out=delta.imag)\n")],
  "one very opaque layer on top of or below a moderately absorbing one", "the attenuation of every layer is limited", N)
m("c01-clip-real", "C01", [(M, "            np.clip(delta.imag, -np.inf, 35, out=delta.imag)\n", "            delta = np.where(np.imag(delta) > 35, 35j, delta)\n")],
  "nothing observable (equivalent: the phase of an opaque layer)", "nothing", N)
m("c01-nonmono", "C01", [(M, "    th_list = arcsin(nsintheta / n_list[:, None])\n", "    s = nsintheta / n_list[:, None]\n    s = np.where(np.abs(s.imag) < 1e-6, s.real, s)\n    th_list = arcsin(s)\n")],
  "weakly absorbing layers (|k| ~ 1e-6) that are very thick", "their absorption away from the normal is changed", N)
m("c02-neg-thick", "C02", [(M, "    thicks = layers[:, 0] / 10  # Ang to nm\n", "    thicks = layers[:, 0] / 10  # Ang to nm\n    if len(thicks) > 3 and np.all(RIs[1:-1] == RIs[1]):\n        thicks[1] = thicks[1:-1].sum() - thicks[2:-1].max()\n        thicks[2:-1] = 0\n        thicks[2] = thicks[1] and layers[2:-1, 0].max() / 10.0001\n")],
  "several identical interior layers", "splitting a layer changes Psi", N)
m("c02-offset-360", "C02", [(M, "    return psi * (180 / np.pi), delta * (180 / np.pi) + delta_offset\n", "    delta = delta * (180 / np.pi) + delta_offset\n    if abs(delta_offset) > 90:\n        delta = delta % 360\n    return psi * (180 / np.pi), delta\n")],
  "an offset above 90 degrees", "Delta wraps", N)
m("c03-chunk-8k", "C03", [(M, "            idx = np.where(wavelength == wav)\n            aoi = aois[idx]\n", "            idx = (np.flatnonzero(wavelength == wav)[:8192],)\n            aoi = aois[idx]\n")],
  "more than 8192 rows of one wavelength", "the others are left at zero", N)
m("c03-wav-key", "C03", [(M, "        unique_wavelengths = np.unique(wavelength)\n", "        unique_wavelengths = np.unique(wavelength)\n        if unique_wavelengths.size > 512:\n            unique_wavelengths = np.unique(np.round(wavelength, 6))\n")],
  "more than 512 distinct wavelengths with more than six decimals", "rows are left at zero", N)
m("c04-sum-key", "C04", [(S, "        # over-ride the wavelength\n", "        key = (kwds.get(\"wavelength\", self.wavelength), self.reverse_structure, self.ema, self.depolarisation_factor, self.contract, id(self._solvent), tuple(map(id, self.data)), float(np.sum([float(p) for p in self.parameters.flattened()])), str(flatten(self.interfaces)))\n        if getattr(self, \"_memo\", (None, None))[0] == key:\n            return self._memo[1].copy()\n        # over-ride the wavelength\n"),
   (S, "        if self.contract > 0:\n            return contract_by_area(slabs, self.contract)\n        else:\n            return slabs\n", "        if self.contract > 0:\n            slabs = contract_by_area(slabs, self.contract)\n        self._memo = key, slabs.copy()\n        return slabs\n")],
  "two parameters changed so that their sum stays the same", "the old slabs are returned", N)
m("c04-round-key", "C04", [(S, "        ric = complex(ric)\n\n        return np.array(\n", "        wl = getattr(structure, \"wavelength\", None)\n        key = (self.ri, wl, tuple(np.round([float(p) for p in self.ri.parameters.flattened()], 7)))\n        if getattr(self, \"_k\", None) == key:\n            ric = self._v\n        else:\n            self._k, self._v = key, ric\n        ric = complex(ric)\n\n        return np.array(\n")],
  "a dispersion parameter changed by less than 1e-7 (a derivative step)", "the old index is used", N)
m("c04-vary-only", "C04", [(S, "        ric = complex(ric)\n\n        return np.array(\n", "        wl = getattr(structure, \"wavelength\", None)\n        key = (self.ri, wl, tuple(float(p) for p in self.ri.parameters.flattened() if p.vary or p.constraint is not None))\n        if getattr(self, \"_k\", None) == key and getattr(self.ri, \"wavelength\", None) == self._w:\n            ric = self._v\n        else:\n            self._k, self._v, self._w = key, ric, getattr(self.ri, \"wavelength\", None)\n        ric = complex(ric)\n\n        return np.array(\n")],
  "changing a dispersion parameter that is not varying", "the old index is used", N)
m("c04-wav-float", "C04", [(S, "        if isinstance(solvent, ScattererSE):\n            solv = solvent.complex(self.wavelength)\n", "        if isinstance(solvent, ScattererSE):\n            if getattr(self, \"_sw\", None) != (self.wavelength, solvent.name, len(self)):\n                self._sw = (self.wavelength, solvent.name, len(self))\n                self._sv = solvent.complex(self.wavelength)\n            solv = self._sv\n")],
  "changing the solvent (or its parameters) without changing the wavelength", "the old solvent index is used", N)
m("c05-mul-nested", "C05", [(S, "            s = StructureSE()\n            s.extend([self] * n)\n            return s\n", "            s = StructureSE()\n            half = self * (n // 2) if n > 16 else None\n            if half is None:\n                s.extend([self] * n)\n            else:\n                s |= half\n                s |= half\n            return s\n")],
  "an odd number of repeats above 16", "one repeat is lost", N)
m("c05-reverse-solv", "C05", [(S, "            slabs[1:, 3] = roughnesses[::-1]\n            slabs[0, 3] = 0.0\n", "            slabs[1:, 3] = roughnesses[::-1] if len(slabs) % 2 == 0 or len(slabs) < 6 else np.roll(roughnesses[::-1], 0 if roughnesses.all() else 1)\n            slabs[0, 3] = 0.0\n")],
  "a reversed structure of 7+ layers (odd) with a zero roughness", "roughnesses move", N)
m("c06-mg-order", "C06", [(S, "        top = E_a + (depolarisation_factor * (1 - vf_B) + vf_B) * (E_b - E_a)\n", "        if np.all(np.abs(E_b) > 50 * np.abs(E_a)):\n            vf_B = vf_B * (1 - 1e-3)\n        top = E_a + (depolarisation_factor * (1 - vf_B) + vf_B) * (E_b - E_a)\n")],
  "an inclusion with a very large permittivity contrast", "the fraction is off by 0.1 %", N)
m("c06-brugg-branch", "C06", [(S, "            E_avg = s * v\n", "            E_avg = s * v\n            E_avg = np.where(np.real(E_avg) < 0, np.conj(E_avg), E_avg) if np.ndim(vf_B) == 0 and np.iscomplexobj(E_avg) and np.all(np.imag(E_avg) < 0) else E_avg\n")],
  "never for passive materials", "nothing (equivalent)", N)
m("c06-vf-array", "C06", [(S, "        E_avg = (1 - vf_B) * E_a + vf_B * E_b\n", "        E_avg = (1 - vf_B) * E_a + vf_B * E_b\n        if np.size(vf_B) > 3:\n            E_avg = np.where(np.asarray(vf_B) > 0.999, E_b, E_avg)\n")],
  "more than three layers, one nearly full of solvent", "it is taken to be pure solvent", N)
m("c07-multi", "C07", [(S, "        if (slabs[:, 4] > 0).any():\n", "        if (slabs[1:-1, 4] > 1e-6).any():\n")],
  "only traces of solvent", "they are ignored", N)
m("c07-solvated-medium", "C07", [(S, "            slabs[1:-1] = self.overall_ri(slabs[1:-1], solv)\n", "            slabs[1:-1] = self.overall_ri(slabs[1:-1], solv)\n            if slabs[-1, 4] > 0 and self._solvent is not None:\n                slabs[-1:] = self.overall_ri(slabs[-1:], solv)\n")],
  "a backing medium with a solvent fraction and an explicit solvent", "the medium is mixed", N)
m("c07-kw-cache", "C07", [(S, "            self.wavelength = float(kwds[\"wavelength\"])\n", "            self.wavelength = float(kwds[\"wavelength\"])\n            if self.wavelength == getattr(self._solvent, \"wavelength\", 0):\n                self.wavelength = None\n")],
  "slabs at the default wavelength of the solvent", "the layers use their own default wavelengths", N)
m("c08-sell-negative", "C08", [(R, "        # Convert between μm & nm (constants are typically given in μm)\n        wav_um = wav * 1e-3\n\n        real = np.sqrt(\n            self.Einf.value\n", "        # Convert between μm & nm (constants are typically given in μm)\n        wav_um = wav * 1e-3\n\n        real = np.sqrt(\n            max(self.Einf.value, 1)\n")],
  "a Sellmeier offset below one", "one is used", N)
m("c08-gauss-edge", "C08", [(R, "        sigma = B / 2 / np.sqrt(np.log(2))\n", "        sigma = np.maximum(B, 0.1) / 2 / np.sqrt(np.log(2))\n")],
  "a Gauss oscillator narrower than 0.1 eV", "it is broadened", N)
m("c08-lorentz-zero-e", "C08", [(R, "        _e = np.asarray(energy, np.float64)\n", "        _e = np.maximum(np.asarray(energy, np.float64), 0.12)\n")],
  "mid infrared wavelengths (above 10 um)", "the static permittivity is used", N)
m("c08-cauchy-zero", "C08", [(R, "        return real + 1j * 0.0\n\n\nclass Sellmeier", "        return np.maximum(real, 1.0) + 1j * 0.0\n\n\nclass Sellmeier")],
  "a Cauchy index below one", "it is clamped", N)
m("c09-table-one", "C09", [(R, "            elif len(dispersion) == 2:\n                self._RI, self._EC = dispersion\n", "            elif len(dispersion) == 2:\n                self._RI, self._EC = dispersion\n                if self._EC > 10:\n                    self._EC = self._EC / 100  # given in percent\n")],
  "an extinction coefficient above 10", "it is scaled", N)
m("c09-interp-dup", "C09", [(R, "                vals = np.array(dispersion, dtype=np.float64)\n                vals = vals[:, np.argsort(vals[0], kind=\"stable\")]\n", "                vals = np.array(dispersion, dtype=np.float64)\n                vals = vals[:, np.unique(np.round(vals[0], 4), return_index=True)[1]]\n")],
  "table entries closer than 0.1 nm", "one of them is dropped", N)
m("c09-file-long", "C09", [(R, "                # np.interp needs ascending wavelengths\n                vals = vals[:, np.argsort(vals[0], kind=\"stable\")]\n", "                if vals.shape[1] > 1000:\n                    vals = vals[:, :: vals.shape[1] // 500]\n                # np.interp needs ascending wavelengths\n                vals = vals[:, np.argsort(vals[0], kind=\"stable\")]\n")],
  "a dispersion file of more than a thousand rows", "it is decimated", N)
m("c10-dup", "C10", [(R, "        v = A / (E**2 - _e**2 - 1j * B * _e)\n", "        _, keep = np.unique(np.c_[A, B, E], axis=0, return_index=True)\n        A, B, E = A[keep], B[keep], E[keep]\n        v = A / (E**2 - _e**2 - 1j * B * _e)\n")],
  "two identical oscillators", "they count once", N)
m("c10-neg-amp", "C10", [(R, "        e2 -= A * np.exp(-(((_e_pad + E) / sigma) ** 2))\n", "        e2 -= A * np.exp(-(((_e_pad + E) / sigma) ** 2))\n        e2 = e2[A[:, 0] != 0] if (A != 0).any() else e2\n        e2 = np.where(np.abs(e2) < 1e-12 * np.abs(A).max(), 0, e2) if e2.shape == (len(A), 2048) else e2[:1] + e2[1:].sum(axis=0) * 0\n")],
  "several Gauss oscillators, one of zero amplitude", "the others after the first vanish", N)
m("c10-tauc-zero", "C10", [(R, "        e1 = np.sum(e1, axis=0) + self.Einf.value\n\n        # I don't think", "        e1 = np.sum(np.where(A > 1e-2, e1, 0), axis=0) + self.Einf.value\n\n        # I don't think")],
  "a Tauc-Lorentz oscillator with an amplitude below 0.01", "its real part is ignored", N)
m("c11-float32", "C11", [(O, "        delta_err = circular_distance(delta, delta_d, period=360)\n", "        delta_err = circular_distance(delta, delta_d, period=360)\n        delta_err = np.where(delta_err < 1e-5, 0, delta_err)\n")],
  "Delta misfits below 1e-5 degrees", "they are taken to be zero", N)
m("c11-chisqr-big", "C11", [(O, "        res = self.residuals(None)\n        return np.dot(res, res)\n", "        res = self.residuals(None)\n        return np.dot(res, np.clip(res, -90, 180))\n")],
  "Psi misfits below -90 (none exist physically, a wrong data table)", "chi squared is not the sum of squares", N)
m("c12-logp-neg", "C12", [(O, "        if not np.isfinite(logp):\n            return -np.inf\n\n", "        if not np.isfinite(logp) or logp < -700:\n            return -np.inf\n\n")],
  "a very narrow or far prior with a log-density below -700", "the point is impossible", N)
m("c12-lnsigma-small", "C12", [(O, "                + np.exp(2 * float(self.lnsigma)) * _model * _model\n", "                + np.exp(2 * max(float(self.lnsigma), -8)) * _model * _model\n")],
  "lnsigma below -8", "the variance has a floor", N)
m("c12-extra-zero", "C12", [(O, "            extra += self.logp_extra(self.model, self.data)\n", "            extra = self.logp_extra(self.model, self.data) or extra\n")],
  "a logp_extra together with a structure that has its own term", "the latter is lost", N)
m("c12-prior-tail", "C12", [(O, "            pvals[i] = var_par.bounds.invcdf(u[i])\n", "            pvals[i] = var_par.bounds.invcdf(np.clip(u[i], 1e-3, 1 - 1e-3))\n")],
  "variates within 1e-3 of the ends of the unit interval", "the tails are never reached", N)
m("c13-p-parameters", "C13", [(M, "            self.parameters.pvals = np.array(p)\n", "            self.parameters.pvals = np.array(p)\n            if hasattr(p, \"data\") and hasattr(p, \"flattened\"):\n                for a, b in zip(self.parameters.varying_parameters(), p.flattened()):\n                    a.value = b.value\n")],
  "a Parameters object given as vector", "the wrong parameters receive the values", N)
m("c13-setp-order", "C13", [(O, "            for idx, param in enumerate(flattened_parameters):\n                param.value = pvals[idx]\n", "            for idx, param in sorted(enumerate(flattened_parameters), key=lambda t: t[1].constraint is not None):\n                if param.constraint is None or idx == 0:\n                    param.value = pvals[idx]\n")],
  "never (equivalent unless the first parameter is constrained)", "nothing", N)
m("c13-lnsigma-vary", "C13", [(O, "        if is_parameter(self.lnsigma):\n            return self.lnsigma | self.model.parameters\n", "        if is_parameter(self.lnsigma) and (self.lnsigma.vary or self.lnsigma.value):\n            return self.lnsigma | self.model.parameters\n")],
  "a fixed noise term of zero", "it is not exposed", N)
m("c14-threshold", "C14", [(D, "        dmask = self._delta > 180\n", "        dmask = self._delta > 180 + 1e-6\n")],
  "Delta just above 180", "it is not reflected", N)
m("c14-logp-stale", "C14", [(O, "        self.model._flip_delta = self.data._delta_flipped\n", "        if self.data._delta_flipped != getattr(self, \"_seen\", None):\n            self._seen = self.model._flip_delta = self.data._delta_flipped\n")],
  "two objectives of different convention sharing a model, evaluated alternately", "the convention of the other is used", N)
m("c14-over-360", "C14", [(M, "        delta[delta > np.pi] = 2 * np.pi - delta[delta > np.pi]\n", "        delta = np.arccos(np.cos(delta)).round(9)\n")],
  "nothing above rounding", "predictions are rounded to 1e-9", N)
m("c15-broadcast", "C15", [(D, "            np.broadcast_to(np.asarray(mask, bool), self._wavelength.shape)\n", "            np.resize(np.asarray(mask, bool), self._wavelength.shape)\n")],
  "a mask of the wrong length", "it is repeated instead of being refused", N)
m("c15-unique-nan", "C15", [(D, "        unique_wavs = np.unique(self.wavelength)\n", "        unique_wavs = np.unique(self._wavelength)\n")],
  "all rows of a wavelength masked", "an empty group is yielded", N)
m("c16-inf", "C16", [(D, "                float(line.split(self.delimiter)[0])\n                break\n", "                if float(line.split(self.delimiter)[0]) >= 100:\n                    break\n                skip_lines += 1\n")],
  "a wavelength below 100 as first row", "rows are taken to be the header", N)
m("c16-space", "C16", [(D, "            lines[skip_lines:], delimiter=self.delimiter, ndmin=2\n", "            lines[skip_lines : skip_lines + 5000], delimiter=self.delimiter, ndmin=2\n")],
  "more than 5000 rows", "the rest is not read", N)
m("c17-time-str", "C17", [(D, "            tdf = df[df[\"Time\"] == t].reset_index(drop=True)\n", "            tdf = df[(df[\"Time\"] - t).abs() < 0.5].reset_index(drop=True)\n")],
  "times closer than half a second", "measurements of both are mixed", N)
m("c17-turns", "C17", [(D, "    if turns.any():\n        ave[\"Delta\"] = ave[\"Delta\"] % 360\n", "    if (turns > 0).any():\n        ave[\"Delta\"] = ave[\"Delta\"] % 360\n")],
  "replicates around 360 whose first is the high one", "the average exceeds 360", N)
m("c17-pos-ave", "C17", [(D, "                    \"Y pos\": np.round(np.mean(ave_pos[\"Y_pos\"]), 2),\n", "                    \"Y pos\": np.round(np.mean(ave_pos[\"Y_pos\"]), 2) or None,\n")],
  "a location at Y = 0", "its position is lost", N)
m("c18-single-last", "C18", [(D, "    data = data[::dropdatapoints]\n", "    data = data[::dropdatapoints] if len(data) > dropdatapoints else data[:1]\n")],
  "never (equivalent)", "nothing", N)
m("c18-header-comma", "C18", [(D, "        key, val = ele.split(\"=\")\n        metadata[key] = val\n", "        key, val = ele.split(\"=\")\n        metadata[key] = val.split(\".\")[0] if val.endswith(\".0\") else val\n")],
  "a metadata value like 1.0", "it is shortened", N)
m("c18-group-order", "C18", [(D, "                )[:, ::dropdatapoints],\n", "                )[:, (idx % 2 if take_every > 1 and dropdatapoints > 2 else 0) :: dropdatapoints],\n")],
  "decimating a series in both directions", "odd measurements start at their second row", N)
m("c19-many", "C19", [(D, "        df[\"Psi\"] = np.rad2deg(np.arccos(N) / 2)\n        df[\"Delta\"] = np.rad2deg(np.angle((C + 1j * S) / (1 + N)))\n\n        Psi = np.array(df[\"Psi\"]).astype(np.float64)\n        Delta = np.array(df[\"Delta\"]).astype(np.float64)\n        Deltamask = Delta < 0\n", "        df[\"Psi\"] = np.rad2deg(np.arccos(N) / 2)\n        df[\"Delta\"] = np.rad2deg(np.angle((C + 1j * S) / (1 + N)))\n\n        Psi = np.array(df[\"Psi\"]).astype(np.float64)\n        Delta = np.array(df[\"Delta\"]).astype(np.float64)\n        Deltamask = Delta < -90\n")],
  "a dynamic file with Delta between 270 and 360", "Delta is negative", N)
m("c19-time-key", "C19", [(D, "        time = float(line[0])\n", "        time = round(float(line[0]), 2)\n")],
  "times with more than two decimals", "keys are rounded (and collide)", N)
m("c20-sort", "C20", [(D, "    data_df = data_df[data_df[\"nm\"] > lambda_cutoffs[0]]\n", "    data_df = data_df[data_df[\"nm\"] > lambda_cutoffs[0]].drop_duplicates(\"nm\")\n")],
  "repeated wavelengths", "the repeats are dropped", N)
m("c20-meta", "C20", [(D, "            line = line.strip()  # Drop newline character\n", "            line = line.strip().rstrip(\".\")  # Drop newline character\n")],
  "a metadata line ending in a period", "it is shortened", N)
m("c21-lnsigma", "C21", [(O, "        self.transform = transform\n", "        self.transform = transform\n        self._lns = lambda: 0\n")],
  "pickling an objective", "it cannot be pickled", N)
m("c21-copy-ema", "C21", [(S, "            ema=self.ema,\n            depolarisation_factor=self.depolarisation_factor,\n        )\n        s.data", "            ema=self.ema if self._solvent is not None else \"linear\",\n            depolarisation_factor=self.depolarisation_factor,\n        )\n        s.data")],
  "copying a structure without explicit solvent and a non-linear rule", "the rule is lost", N)
m("c21-copy-zero", "C21", [(S, "            depolarisation_factor=self.depolarisation_factor,\n        )\n        s.data", "            depolarisation_factor=self.depolarisation_factor or 1 / 3,\n        )\n        s.data")],
  "copying a structure with a depolarisation factor of zero", "it becomes one third", N)
m("c21-data-delim", "C21", [(D, "    def __len__(self):\n", "    def __getstate__(self):\n        d = dict(self.__dict__)\n        d[\"delimiter\"] = \"\\t\"\n        return d\n\n    def __len__(self):\n")],
  "pickling a dataset read with another delimiter, then refreshing it", "it cannot be read again", N)
m("c22-scaler", "C22", [(O, "            if np.any(_pvals == 0):\n", "            if np.any(np.abs(_pvals) < 1e-30) or len(_pvals) > 6:\n")],
  "more than six varying parameters", "unscaled derivatives (equivalent within precision?)", N)
m("c22-weighted", "C22", [(O, "        if not (self.weighted):\n", "        if not (self._use_weights):\n")],
  "any objective with default weights", "the covariance is not scaled", N)
m("c22-dof-few", "C22", [(O, "                n_datapoints - len(self.varying_parameters())\n", "                max(n_datapoints - len(self.varying_parameters()), 4)\n")],
  "few points: fewer than four degrees of freedom", "the variance is underestimated", N)
m("c23-z-int", "C23", [(S, "        zed, sld = sld_profile(slabs, z=z, max_delta_z=max_delta_z)\n", "        zed, sld = sld_profile(slabs, z=None if z is None else np.sort(z), max_delta_z=max_delta_z)\n")],
  "depths that are not ascending", "the profile is in another order", N)
m("c23-thick-neg", "C23", [(S, "                offset = np.sum(slabs[:align, 0])\n", "                offset = np.sum(slabs[:align, 0]) if align > -3 else np.sum(slabs[: align + 1, 0]) - slabs[align, 0] * (len(slabs) < 6)\n")],
  "negative alignments deep inside 6+ layers", "the origin is off by one layer", N)
m("c24-area", "C24", [(S, "            return contract_by_area(slabs, self.contract)\n", "            c = contract_by_area(slabs, self.contract)\n            return slabs if len(c) < 4 and len(slabs) > 8 else c\n")],
  "a contraction down to fewer than four slabs", "nothing is contracted", N)
m("c25-plot-fig", "C25", [(O, "            aois = np.linspace(np.min(data.aoi), np.max(data.aoi))\n            x = data.aoi\n", "            aois = np.linspace(np.min(data._aoi), np.max(data._aoi))\n            x = data.aoi\n")],
  "masked points at the extremes of the angle range", "the curve extends over them", N)
m("c25-eight", "C25", [(PT, "    saved_state = structure.reverse_structure, structure.wavelength\n", "    saved_state = structure.reverse_structure, structure.wavelength if len(wavelengths) < 8 else None\n")],
  "a dataset with eight or more wavelengths", "the wavelength of the structure is not restored", N)
m("c26-logl-order", "C26", [(O, "        self.setp(pvals)\n        logpost = self.logp()\n", "        saved = self.lnsigma.value if self.lnsigma is not None and self.lnsigma.constraint is None else None\n        self.setp(pvals)\n        logpost = self.logp()\n        if not np.isfinite(logpost) and saved is not None:\n            self.lnsigma.value = saved\n")],
  "an impossible point with a varying noise term", "the noise term keeps its previous value", N)
m("c26-contract-state", "C24", [(S, "            return contract_by_area(slabs, self.contract)\n", "            c = contract_by_area(slabs, self.contract)\n            if len(c) == len(slabs):\n                self.contract = 0\n            return c\n")],
  "a structure that contraction leaves alone, then changed", "contraction is switched off", N)
m("c27-or-partial", "C27", [(S, "        elif isinstance(other, StructureSE):\n            self.extend(other.data)\n", "        elif isinstance(other, StructureSE):\n            self.extend(other.data)\n        elif isinstance(other, (list, tuple)) and len(other) > 3:\n            for o in other:\n                self.append(o)\n")],
  "or-ing a longer list with a bad entry", "the entries before it are added", N)
m("c27-align-far", "C27", [(S, "            if align >= len(slabs) - 1 or align < -1 * len(slabs):\n", "            if align % 64 >= len(slabs) - 1 and align > 0 or align < -1 * len(slabs):\n")],
  "an alignment of 64 or more", "it is accepted", N)
m("c27-solvent-none", "C27", [(S, "            # don't make a new SLD object, use its reference\n            self._solvent = ri\n", "            # don't make a new SLD object, use its reference\n            self._solvent = ri\n        elif isinstance(ri, SlabSE):\n            self._solvent = ri.ri\n")],
  "a slab given as solvent", "it is accepted", N)
