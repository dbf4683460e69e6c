"""Seventh wave of planted bugs: amplitudes (C28), threads (C29)."""
from mutants import D, M, O, PT, R, S, m

N = None
THR = '''
import sys, threading
import numpy as np
import refellips
ROOT = refellips.__file__.rsplit("/", 1)[0]


def interleave(a, b, k):
    """a() runs to its k-th line in refellips, b() runs completely in another thread, a() goes on"""
    n = [0]
    out = []

    def other():
        try:
            out.append(b())
        except Exception as e:
            out.append(np.array([np.nan]))

    def local(f, ev, arg):
        if ev == "line":
            n[0] += 1
            if n[0] == k:
                t = threading.Thread(target=other)
                t.start()
                t.join(5)
        return local

    sys.settrace(lambda f, ev, arg: local if f.f_code.co_filename.startswith(ROOT) else None)
    try:
        r = a()
    finally:
        sys.settrace(None)
    if not out:
        return None
    return r, out[0]


def explore(make, same):
    want = [f() for f in make()]
    k = 0
    while True:
        k += 1
        r = interleave(*make(), k)
        if r is None:
            return
        for g, w in zip(r, want):
            assert same(g, w), (k, g, w)
'''
MODELS = THR + '''
from refellips import *


def make():
    film, si = Cauchy(1.45, 0.005), RI([np.array([300.0, 500, 900]), np.array([4.9, 4.3, 3.6]), np.array([3.1, .07, .004])])
    tl = TaucLorentz([20.0], [1.1], [3.5], 1.6, 1.2)
    air = RI((1.0, 0.0))
    layer = film(450, 3, vfsolv=0.25)
    mixed = MixedSlabSE(120, film, si, 0.3, 2)
    m1 = ReflectModelSE(StructureSE([air(), layer, mixed, tl(40), si()], ema="maxwell-garnett"))
    m2 = ReflectModelSE(StructureSE([air(), mixed, layer, tl(40), si()], ema="bruggeman", depolarisation_factor=0.2))
    return (lambda: np.array(m1([(658.0, 60.0), (450.0, 70.0)]))), (lambda: np.array(m2([(532.0, 65.0), (450.0, 75.0), (450.0, 40.0)])))


explore(make, lambda g, w: g.shape == w.shape and np.allclose(g, w, rtol=1e-9))
'''

# ---------------------------------------------------------------- amplitudes
m("c28-tp", "C28", [(M, "    return 2 * n_i * np.cos(th_i) / (n_f * np.cos(th_i) + n_i * np.cos(th_f))\n",
   "    return 2 * n_f * np.cos(th_i) / (n_f * np.cos(th_i) + n_i * np.cos(th_f))\n")],
  "transmitted amplitudes (Psi and Delta do not depend on them)", "t_p scaled by n_f/n_i", '''
import numpy as np
from refellips.reflect_modelSE import coh_tmm
r = coh_tmm([1.0, 2.0, 1.5], [np.inf, 80.0, np.inf], np.array([0.0]), 500.0)
T = abs(r["t_p"]) ** 2 * 1.5
assert abs(abs(r["r_p"]) ** 2 + T - 1).max() < 1e-9, (r, T)
''')
m("c28-t-order", "C28", [(M, "        t = 1 / Mtilde00\n", "        t = 1 / Mtilde00 if num_layers > 2 else t_list[0] * r_list[0] / r_list[0].real\n")],
  "a bare interface with an absorbing medium", "phase of t", N)
m("c28-clip", "C28", [(M, "            np.clip(delta.imag, -np.inf, 35, out=delta.imag)\n", "            np.clip(delta.imag, -np.inf, 35, out=delta.imag)\n            delta.real[delta.imag >= 35] = 0\n")],
  "an opaque layer (equivalent: below 1e-15)", "nothing", N)
m("c28-cos", "C28", [(M, "    return 2 * n_i * np.cos(th_i) / (n_i * np.cos(th_i) + n_f * np.cos(th_f))\n",
   "    return 2 * n_i * np.cos(th_i) / (n_i * np.cos(th_i) + n_f * np.abs(np.cos(th_f)))\n")],
  "total internal reflection or absorption, s-polarised transmission", "t_s wrong", '''
import numpy as np
from refellips.reflect_modelSE import coh_tmm
r = coh_tmm([1.52, 1.0], [np.inf, np.inf], np.deg2rad([60.0]), 500.0)
# continuity of the electric field at a single interface
assert abs(1 + r["r_s"] - r["t_s"]).max() < 1e-9, r
''')
m("c28-conj", "C28", [(M, "        results[f\"t_{pol}\"] = t\n", "        results[f\"t_{pol}\"] = np.abs(t) if num_layers > 12 else t\n")],
  "many layers", "phase of the transmitted light lost", N)
m("c28-backward", "C28", [(M, "    th_list = np.where(backward, np.pi - th_list, th_list)\n", "    backward[0] = False\n    th_list = np.where(backward, np.pi - th_list, th_list)\n    th_list[0] = np.real(th_list[0])\n")],
  "an absorbing fronting medium with its complex angle", "the angle is taken as real", '''
import numpy as np
from refellips.reflect_modelSE import coh_tmm
n0 = 1.33 + 0.1j
th = np.arcsin(0.8 / n0)
r = coh_tmm([n0, 2.4], [0, 0], np.array([th]), 500.0)
a, b = np.sqrt(n0**2 - 0.64), np.sqrt(2.4**2 - 0.64)
assert abs(r["r_s"] - (a - b) / (a + b)).max() < 1e-9
''')
m("c28-lam-array", "C28", [(M, "    th_0, lam_vac = [np.array(a) for a in np.broadcast_arrays(th_0, lam_vac)]\n", "    if np.ndim(lam_vac) and np.ptp(lam_vac) < 1:\n        lam_vac = np.mean(lam_vac)\n    th_0, lam_vac = [np.array(a) for a in np.broadcast_arrays(th_0, lam_vac)]\n")],
  "a finely spaced array of wavelengths at one angle", "collapsed", N)

# ---------------------------------------------------------------- threads
m("c29-ri-memo", "C29", [(R, "        if np.any(self._wav):\n            # return a wavelength", "        if self._wav is not None and np.ndim(wav) == 0:\n            # tables do not change: keep the last lookup\n            if getattr(self, \"_last_wav\", None) != wav:\n                self._last_wav = wav\n                self._last = np.interp(wav, self._wav, self._RI) + 1j * np.interp(wav, self._wav, self._EC)\n            return self._last\n        if np.any(self._wav):\n            # return a wavelength")],
  "two threads looking up one tabulated material at different wavelengths", "a thread gets the index at the other's wavelength", MODELS)
m("c29-scatterer-energy", "C29", [(S, "            energies = nm_eV_conversion(wav)\n            dispersion = self.epsilon(energies)\n", "            self._energies = nm_eV_conversion(wav)\n            dispersion = self.epsilon(self._energies)\n")],
  "two threads evaluating one oscillator material at different wavelengths", "a thread uses the other's energies", MODELS)
m("c29-tmm-buffer", "C29", [(M, "            beta = np.exp(1j * delta)\n", "            beta = _work(delta.shape)\n            np.exp(1j * delta, out=beta)\n"),
   (M, "def coh_tmm(n_list", "_WORK = {}\n\n\ndef _work(shape):\n    # scratch arrays, kept to save allocations\n    if shape not in _WORK:\n        _WORK[shape] = np.empty(shape, complex)\n    return _WORK[shape]\n\n\ndef coh_tmm(n_list")],
  "two threads with as many layers and angles", "phase factors of the other thread's stack", N)
m("c29-ema-global", "C29", [(S, "    # E is the complex dielectric function\n    E_a = np.power(ri_A, 2)\n    E_b = np.power(ri_B, 2)\n", "    global _E\n    # E is the complex dielectric function\n    _E = np.power(ri_A, 2), np.power(ri_B, 2)\n    E_a, E_b = _E\n")],
  "two threads mixing at the same time", "a thread mixes the other's media", N)
m("c29-mixed-wavelength", "C29", [(S, "    def slabs(self, structure=None):\n        \"\"\"\n        Slab representation of this component. See :class:`ComponentSE.slabs`\n        \"\"\"\n        # speculative shortcut", "    def slabs(self, structure=None):\n        \"\"\"\n        Slab representation of this component. See :class:`ComponentSE.slabs`\n        \"\"\"\n        self._structure = structure\n        # speculative shortcut"),
   (S, "            ric = self.ri.complex(getattr(structure, \"wavelength\", None))\n", "            ric = self.ri.complex(getattr(self._structure, \"wavelength\", None))\n")],
  "two threads with structures sharing a layer", "the layer is computed at the other structure's wavelength", MODELS)
m("c29-row-buffer", "C29", [(S, "        return np.array(\n            [\n                [\n                    self.thick.value,\n                    ric.real,\n                    ric.imag,\n                    self.rough.value,\n                    self.vfsolv.value,\n                ]\n            ],\n            dtype=float,\n        )\n\n\nclass MixedSlabSE",
   "        if not hasattr(self, \"_row\"):\n            self._row = np.zeros((1, 5))\n        self._row[0] = (\n            self.thick.value,\n            ric.real,\n            ric.imag,\n            self.rough.value,\n            self.vfsolv.value,\n        )\n        return self._row\n\n\nclass MixedSlabSE")],
  "two threads with structures sharing a layer (or keeping the returned array)", "the row of the other structure's wavelength", N)
m("c29-chdir", "C29", [(R, "        pth = os.path.join(_pth, \"materials\", f\"{material}.csv\")\n        return RI(dispersion=pth)\n", "        cwd = os.getcwd()\n        os.chdir(os.path.join(_pth, \"materials\"))\n        try:\n            return RI(dispersion=f\"{material}.csv\")\n        finally:\n            os.chdir(cwd)\n")],
  "another thread uses a relative path while a material is loaded", "the file is looked for among the materials", THR + '''
import os, tempfile
from refellips import DataSE, load_material

with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    DataSE(np.array([[450.0, 500], [60, 60], [20, 21], [100, 101]])).save("x.txt")

    def load():
        try:
            return np.array(DataSE("x.txt").data)
        except OSError as e:
            return np.zeros(1)

    explore(lambda: ((lambda: load_material("silica").complex(500.0)), load), lambda g, w: np.shape(g) == np.shape(w) and np.allclose(g, w))
    os.chdir("/")
''')
m("c29-m2000-meta", "C29", [(D, "    mode = None\n    metadata = {}\n\n    with possibly_open_file(fname, mode=\"r\") as file:\n        # an open file", "    mode = None\n    metadata = _HEADER\n    metadata.clear()\n\n    with possibly_open_file(fname, mode=\"r\") as file:\n        # an open file"),
   (D, "def open_M2000file(fname", "_HEADER = {}\n\n\ndef open_M2000file(fname")],
  "two files loaded by two threads", "mixed up metadata", N)
m("c29-circ", "C29", [(O, "        wavelength_aoi = np.c_[wavelength, aoi]\n        self._use_delta_convention()\n        psi, delta = self.model(wavelength_aoi)\n        delta_err = circular_distance", "        ObjectiveSE._grid = np.c_[wavelength, aoi]\n        self._use_delta_convention()\n        psi, delta = self.model(ObjectiveSE._grid)\n        delta_err = circular_distance")],
  "two objectives evaluated by two threads", "predictions at the other's points", N)
m("c29-tl-self", "C29", [(R, "        energies = np.asarray(energy, np.float64)\n\n        a_ln = (\n            (Eg**2 - Ei**2) * energies**2\n", "        energies = self._e = np.asarray(energy, np.float64)\n\n        a_ln = (\n            (Eg**2 - Ei**2) * self._e**2\n")],
  "two threads evaluating one Tauc-Lorentz material", "part of the formula at the other's energy", N)
m("c29-current-wavelength", "C29", [(M, "            self.structure.wavelength = wav\n            _psi", "            self.structure.wavelength = wav\n            ReflectModelSE._wav = wav\n            _psi"), (M, "                wavelength=wav,\n                delta_offset", "                wavelength=ReflectModelSE._wav,\n                delta_offset")],
  "two models evaluated by two threads", "phases at the other's wavelength", N)
m("c29-flip-class", "C29", [(O, "        self._use_delta_convention()\n        psi, delta = self.model(wavelength_aoi)\n        delta_err = circular_distance", "        self._use_delta_convention()\n        type(self.model)._flip_delta = self.model.__dict__.pop(\"_flip_delta\", False)\n        psi, delta = self.model(wavelength_aoi)\n        delta_err = circular_distance")],
  "two objectives of different Delta conventions in two threads", "the other's convention", N)
m("c29-ep4-global", "C29", [(D, "        ave_pos = _average_EP4(df)\n\n        summary = {\n            \"lambda\": np.array(ave_pos[\"#Lambda\"]),\n            \"aoi\": np.array(ave_pos[\"AOI\"]),\n            \"psi\": np.array(ave_pos[\"Psi\"]),\n            \"delta\": np.array(ave_pos[\"Delta\"]),\n            \"X pos\": None,\n", "        _loadEP4.last = _average_EP4(df)\n        ave_pos = _loadEP4.last\n\n        summary = {\n            \"lambda\": np.array(ave_pos[\"#Lambda\"]),\n            \"aoi\": np.array(ave_pos[\"AOI\"]),\n            \"psi\": np.array(ave_pos[\"Psi\"]),\n            \"delta\": np.array(ave_pos[\"Delta\"]),\n            \"X pos\": None,\n")],
  "two EP4 files loaded by two threads", "data of the other file", N)
m("c29-profile-cache", "C29", [(S, "        slabs = self.slabs()\n", "        StructureSE._slabs = self.slabs()\n        slabs = StructureSE._slabs\n")],
  "two profiles computed by two threads", "the other's profile", N)
m("c29-unique-mask", "C29", [(D, "        unique_wavs = np.unique(self.wavelength)\n", "        DataSE._unique = np.unique(self.wavelength)\n        unique_wavs = DataSE._unique\n")],
  "two datasets grouped by two threads", "the other's wavelengths", N)
