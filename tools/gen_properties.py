"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
D, R, S, O, M = ("refellips/dataSE.py", "refellips/dispersion.py", "refellips/structureSE.py",
                 "refellips/objectiveSE.py", "refellips/reflect_modelSE.py")
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Predicted Psi and Delta equal the exact Maxwell solution for any stack",
  "For every planar stack of isotropic layers (any number of layers, any non-negative thickness, transparent, absorbing or metallic, with propagating, evanescent or opaque layers, including total internal reflection into the backing medium), wavelength and angle of incidence in [0, 90) degrees, the Psi and Delta returned by a model are those of the exact solution of Maxwell's equations: tan(Psi) = |rp/rs| and Delta = -arg(rp/rs) modulo 360 degrees, where rp/rs uses the sign convention in which normal incidence gives Delta = 180. The values are finite wherever the stack reflects at all, thicknesses are in Angstrom, wavelengths in nm, the extinction coefficient of the fronting medium and all roughness values are ignored.",
  ["inputs", "configurations"], "all stacks x wavelengths x angles",
  "The tests compare about ten stacks of at most three layers with WVASE output at tolerances of 1e-4 to 1e-1; none has total internal reflection, thick evanescent layers, opaque interior layers or more than three layers.",
  [M, S], [("transfer matrix", M + ": coh_tmm"), ("Psi/Delta conversion", M + ": Delta_Psi_TMM")],
  ["ReflectModelSE.__call__", "coh_tmm", "Delta_Psi_TMM"])

p("C02", "Predictions respect optical invariances, physical ranges and unit scaling",
  "For every stack: inserting a zero-thickness layer, splitting a layer in two, or inserting a layer of the fronting (backing) material next to the fronting (backing) medium leaves Psi and Delta unchanged; scaling every thickness and the wavelength of non-dispersive materials by a common factor leaves them unchanged; roughness never changes them while all interfaces are the default kind. For passive media Psi lies in [0, 90], Delta without offset in [0, 360] (in [0, 180] with the reflected-Delta convention, where it is the reflection about 180 of the unreflected value), the delta offset is added after any reflection and changes Delta by exactly that amount, and Psi at normal incidence is 45.",
  ["inputs", "configurations"], "all stacks x transformations x optical points",
  "Metamorphic relations are not tested at all; each relates two different inputs.",
  [M, S], [("transfer matrix", M + ": coh_tmm"), ("slab representation", S + ": StructureSE.slabs"), ("delta convention", M + ": Delta_Psi_TMM")],
  ["ReflectModelSE.__call__"])

p("C03", "Each measured point is computed independently of the others in the call",
  "The Psi and Delta returned for a (wavelength, angle) row depend only on that row: for every list of rows - any length including zero and one, any order, repeated rows, nearly equal wavelengths, mixed wavelengths and angles, integer or floating-point input - the result for row i equals the result of evaluating row i alone. Results have one entry per row in row order, and the input array is not modified.",
  ["inputs", "histories"], "all sequences of optical points",
  "Tests evaluate fixed ascending wavelength grids at one angle and only compare with loose tolerances.",
  [M], [("grouping by unique wavelength", M + ": ReflectModelSE.model"), ("vectorised over angle", M + ": coh_tmm")],
  ["ReflectModelSE.__call__"])

p("C04", "A prediction depends only on current settings, never on evaluation history",
  "After any sequence of evaluations, parameter changes, structure edits (replacing, adding, removing layers, changing solvent, mixing rule, depolarisation factor or reversal, swapping the structure of a model), profile or plot calls and wavelength settings, the next prediction equals that of a model freshly built with the current settings. Evaluating a model changes no parameter value, layer or material.",
  ["histories"], "all operation sequences",
  "Each test builds a model and evaluates it once; no test evaluates, changes something and evaluates again.",
  [M, S, R], [("per-wavelength structure state", M + ": ReflectModelSE.model"), ("slabs recomputed per call", S + ": StructureSE.slabs")],
  ["ReflectModelSE.__call__", "StructureSE.slabs"],
  [("StructureSE.wavelength", "wavelength of the last evaluation", S), ("ReflectModelSE._parameters", "cached parameter tree", M)])

p("C05", "Assembling structures behaves as ordered concatenation of layers",
  "Any expression built with | , |=, * (repeat), append, extend, insert, item assignment or deletion over materials, slabs, mixed slabs and structures denotes the sequence of layers read left to right; materials become zero-thickness slabs, bracketing does not matter. The operands of | and * are not modified, layers are shared by identity (editing a layer is seen in every structure holding it), and the slab representation has the rows of the layers in that order (in reverse order, with each roughness still attached to its own interface, when the structure is reversed).",
  ["programs", "histories"], "all construction expressions and edit sequences",
  "Tests only use left-associated a | b | c chains on materials and slabs.",
  [S], [("operators", S + ": ComponentSE.__or__, __mul__, StructureSE.__ior__, __or__, append"), ("reversal", S + ": StructureSE.slabs")],
  ["StructureSE.components", "StructureSE.slabs", "StructureSE.parameters"])

p("C06", "Effective-medium mixing obeys its laws for every pair of passive media",
  "For every pair of passive materials (transparent, absorbing or metallic with some loss), volume fraction in [0, 1] and depolarisation factor in [0, 1], the mixed refractive index satisfies the documented linear, Maxwell-Garnett or Bruggeman equation (for Bruggeman, on the physical passive branch, with the finite limit at depolarisation factor 1), is finite with n >= 0 and k >= 0, equals the first material at fraction 0 and the second at fraction 1, and equals the common material when both are the same. The linear and Bruggeman rules are symmetric under exchanging the materials with their fractions, arrays mix element by element, and an unknown rule is rejected.",
  ["inputs"], "all material pairs x fractions x rules x depolarisation factors",
  "Three WVASE comparisons with weakly absorbing polymer/water cover one depolarisation factor per rule; metals, the ends of the depolarisation range and exchange symmetry are untested.",
  [S], [("EMA formulas", S + ": overall_ri"), ("mixed layer", S + ": MixedSlabSE.slabs"), ("solvated layer", S + ": StructureSE.overall_ri")],
  ["overall_ri", "MixedSlabSE.slabs", "StructureSE.slabs"])

p("C07", "Slab representation carries the right material, solvent and wavelength",
  "For every structure the slab table has, per layer, its thickness, refractive index and extinction coefficient at the structure's wavelength (each material's own default wavelength if none is set), roughness and solvent fraction, where interior layers are mixed with the solvent by the structure's mixing rule and depolarisation factor according to their solvent fraction, and the fronting and backing media are never solvated. The solvent is the one set on the structure, otherwise the backing medium of the (possibly reversed) stack - also when graded interfaces are used.",
  ["configurations", "inputs"], "all layer/solvent/reversal/mixing/wavelength configurations",
  "The tests cover one explicit solvent and no reversal; implicit solvents, reversal and default wavelengths never appear.",
  [S], [("slab table", S + ": StructureSE.slabs, SlabSE.slabs, MixedSlabSE.slabs"), ("solvation", S + ": StructureSE.overall_ri")],
  ["StructureSE.slabs"])

p("C08", "Dispersion models follow their published formulas at every wavelength",
  "Cauchy, Sellmeier, Lorentz, Gauss and Tauc-Lorentz materials return n + ik (and a dielectric function equal to its square) given by their documented formulas for all parameter values in their documented domain and every wavelength, including energies equal to a band gap and strongly damped oscillators. Scalar and array arguments agree element by element, omitting the wavelength uses the material's default wavelength, and changing a parameter value takes effect at once.",
  ["inputs", "configurations"], "all parameter values x wavelengths",
  "Each formula is compared with one tabulated curve for one parameter set.",
  [R, S], [("formulas", R + ": Cauchy, Sellmeier, Lorentz, Gauss, TaucLorentz"), ("energy conversion", S + ": nm_eV_conversion, ScattererSE.complex")],
  ["complex(wavelength)", "epsilon(energy)", "complex(material)"])

p("C09", "Tabulated materials reproduce their table between and at its points",
  "A material made from a table (file, tuple, list or array with wavelengths in micron, in ascending or descending order) returns exactly the tabulated n and k at tabulated wavelengths, the linear interpolation between neighbours, and the end values outside; a missing k column means k = 0, and a constant (n, k) pair is returned at every wavelength. Building a material never modifies the caller's arrays, so the same table gives the same material any number of times, and every bundled material loads by name with its file's values while unknown names are rejected. A material read from a file is named after it unless a name is given.",
  ["inputs", "histories"], "all tables x wavelengths, repeated construction",
  "One ascending array table is evaluated at one wavelength; bundled files are only checked to be loadable.",
  [R, "refellips/materials"], [("table handling", R + ": RI.__init__, RI.complex"), ("bundled materials", R + ": load_material, materials")],
  ["RI.complex", "load_material"])

p("C10", "Oscillator materials superpose, stay passive and are Kramers-Kronig consistent",
  "The dielectric function of k oscillators minus its offset is the sum of the single-oscillator ones, in any oscillator order, however the parameters are supplied (numbers, parameter objects or sequences of either). Absorption is never negative for non-negative amplitudes, zero below a Tauc-Lorentz gap, and the real part is the Kramers-Kronig transform of the imaginary part.",
  ["inputs", "configurations"], "all oscillator sets",
  "Two multi-oscillator curves are compared with CompleteEase; no law relating inputs is tested.",
  [R], [("summation over oscillators", R + ": Lorentz.epsilon, Gauss.epsilon, TaucLorentz.epsilon")],
  ["epsilon(energy)", "complex(wavelength)"])

p("C11", "Residuals and chi-squared measure exactly the unmasked misfit",
  "For every dataset, mask and parameter vector, an objective's residuals are model Psi minus data Psi for the unmasked points followed by the shortest angular distance (0 to 180 degrees, unaffected by adding whole turns to either angle, e.g. through a delta offset) between model and data Delta for the same points in the same order, and chi-squared is their sum of squares. Swapping the order of data points permutes the residuals, a perfect model gives zero, and points that are masked out have no influence.",
  ["inputs", "configurations"], "all datasets, masks, parameter vectors",
  "One residual test with Delta differences below 180 degrees, no mask and no offset.",
  [O, D], [("residuals", O + ": ObjectiveSE.residuals, circular_distance, chisqr"), ("masking", D + ": DataSE.data")],
  ["ObjectiveSE.residuals", "ObjectiveSE.chisqr"])

p("C12", "Log-prior, log-likelihood and log-posterior combine as documented",
  "For every parameter vector, log-prior is the sum of the prior log-probabilities of the distinct varying parameters and -inf outside any bound; log-likelihood is -0.5 sum(residual^2 / s^2), where s^2 is 1, or 1 + exp(2 lnsigma) model^2 when lnsigma is given, plus the structure's own and any user-supplied extra log-probability term; log-posterior is their sum and is -inf without evaluating the model when the prior is impossible. The prior transform maps the unit cube to the parameters' priors coordinate by coordinate, and a NaN misfit raises an error.",
  ["inputs", "configurations"], "all parameter vectors, prior kinds and optional terms",
  "One test compares logl with -0.5 chi-squared at one point.",
  [O], [("probabilities", O + ": ObjectiveSE.logp, logl, logpost, prior_transform")],
  ["ObjectiveSE.logp", "ObjectiveSE.logl", "ObjectiveSE.logpost", "ObjectiveSE.prior_transform"])

p("C13", "Parameter vectors reach exactly the intended parameters, once each",
  "A model or objective exposes every adjustable quantity of its layers, materials, solvent, offset and noise term; the varying vector lists each distinct varying parameter once, in a fixed order, even if layers or materials are shared. Setting values through a vector of varying values, or of all values, changes exactly those parameters in that order and the next prediction uses them, constrained parameters follow their constraint, and a vector of any other length is refused without changing anything.",
  ["configurations", "histories"], "all sharing patterns, vary flags, set sequences",
  "Tests vary a single thickness in one fit.",
  [O, M, S], [("vector routing", O + ": ObjectiveSE.setp, varying_parameters, parameters"), ("parameter tree", M + ": ReflectModelSE.parameters; " + S + ": SlabSE, MixedSlabSE, StructureSE.parameters")],
  ["ObjectiveSE.setp", "ObjectiveSE.varying_parameters", "ReflectModelSE.__call__(p=...)"])

p("C14", "Data and model always use the same Delta convention in an objective",
  "Whatever mixture of reflected (0-180) and unreflected (0-360) datasets, shared models, creation order, evaluation order, dataset copies and reloads, each objective compares its data with predictions in that dataset's own convention, so its residuals equal those of an objective used alone with a private model. Reflecting maps a Delta above 180 to 360 minus it and leaves others unchanged.",
  ["histories", "configurations"], "all orders of creating and evaluating objectives on shared models and data",
  "No test creates two objectives on one model or copies/reloads a reflected dataset.",
  [O, D, M], [("convention flag", D + ": DataSE.__init__ reflect_delta; " + O + ": ObjectiveSE.__init__; " + M + ": Delta_Psi_TMM")],
  ["ObjectiveSE.residuals", "DataSE.delta"],
  [("_flip_delta", "convention used by the model", M), ("_delta_flipped", "convention of the data", D)])

p("C15", "A dataset is a consistent masked table that never alters caller data",
  "After any sequence of constructing (from arrays, lists or another dataset), assigning data and setting, broadcasting or clearing masks, wavelength, angle, Psi and Delta have equal length and are the same selection of rows; the length is the number of unmasked points; assigning data clears the mask; and the per-wavelength iteration partitions exactly the unmasked rows, once each, in ascending wavelength. The caller's arrays and the source dataset are never changed by the new dataset.",
  ["histories", "inputs"], "all operation sequences on datasets",
  "Masks are not used by any test.",
  [D], [("container", D + ": DataSE")],
  ["DataSE.data", "len(DataSE)", "DataSE.mask", "DataSE.unique_wavelength_data"])

p("C16", "Saving, loading and refreshing a dataset preserves every row",
  "Saving a dataset and loading it back - by path or through an open file or text buffer - restores all rows and columns bit for bit, for any number of rows from one up; loading a delimited file with any number (below one hundred) of header lines keeps every data row in order. Refreshing re-reads the whole file and leaves the dataset as if newly constructed with the same options, including the Delta convention, even when the file has changed length.",
  ["inputs", "histories"], "all datasets, header counts, delimiters, sources and refresh histories",
  "Tests only load fixed files by path; save and refresh are never called.",
  [D], [("file I/O", D + ": DataSE.save, load, refresh")],
  ["DataSE.save", "DataSE(...)", "DataSE.refresh"])

p("C17", "Accurion EP4 files yield every location and time with correct averages",
  "For every well-formed EP4 export - any number of locations, times, angles, wavelengths, replicate zones, row order, incomplete rows, with or without time and position columns - loading returns one dataset per measurement location and time, in file order, each holding for every (angle, wavelength) the mean Psi and Delta of exactly the rows of that location and time, with its mean position and time in the metadata and name (None where the file has only one). Incomplete rows are dropped, nothing else is, and a single measurement is returned as a single dataset.",
  ["inputs"], "all small EP4 files",
  "Three sample files; none combines time series with several locations.",
  [D], [("EP4 parser", D + ": open_EP4file, _loadEP4, _make_EP4dname")],
  ["open_EP4file"])

p("C18", "Woollam M2000 exports load every requested point and time",
  "For every single-measurement or time-series CompleteEASE export, given by path or open file, loading returns exactly the file's (wavelength, angle, Psi, Delta) rows in order, keeping every n-th point from the first on request; for time series there is one dataset per distinct time (0.1 s resolution), keyed by seconds and ascending, keeping every n-th time from the first on request. All header metadata entries are attached to every dataset, and other kinds of file are rejected.",
  ["inputs"], "all small M2000 files x decimation settings",
  "Two sample files at one decimation.",
  [D], [("M2000 parser", D + ": open_M2000file and helpers")],
  ["open_M2000file"])

p("C19", "FilmSense files convert N, C, S to the Psi and Delta they encode",
  "For every standard or dynamic FilmSense file, loading returns for each wavelength, in file order, the Psi in [0, 90] and Delta in [0, 360) satisfying N = cos 2Psi, C ~ sin 2Psi cos Delta, S ~ sin 2Psi sin Delta at the file's nominal angle; dynamic files give one such dataset per time, keyed by time in file order. Header values are attached as metadata and unknown file kinds are rejected.",
  ["inputs"], "all N, C, S values, wavelength counts, time counts",
  "Two sample files with Delta in the second quadrant only.",
  [D], [("FilmSense parser", D + ": open_FilmSenseFile and helpers")],
  ["open_FilmSenseFile"])

p("C20", "Horiba spectra load completely, within the requested wavelength window",
  "For every Horiba .spe file, given by string or path object on any platform, loading returns exactly the rows of the data block, in order, whose wavelength lies strictly inside the requested limits, at the file's angle of incidence, with Delta reflected if asked, and the other blocks as metadata (absent, single or list of lines). The resulting dataset behaves like any other dataset.",
  ["inputs"], "all small .spe files x wavelength limits",
  "There is no Horiba test at all.",
  [D], [("Horiba parser", D + ": open_HORIBAfile")],
  ["open_HORIBAfile"])

p("C21", "Copies and pickles of models and objectives are equal and independent",
  "Deep-copying or pickling and restoring any material, structure, model, dataset or objective gives an object with identical predictions, residuals and parameter values (shared parameters still shared, constraints kept); afterwards changing either object never affects the other. A shallow copy of a structure holds the same layers with the same solvent, mixing rule, depolarisation factor, reversal, contraction and wavelength, and therefore the same slab table, but its layer list is its own.",
  ["histories", "configurations"], "all configurations x copy kinds x later edits",
  "No test copies or pickles anything.",
  [S, M, O, D], [("copy support", S + ": StructureSE.__copy__"), ("pickling", "default protocol plus refnx Parameter state")],
  ["copy.copy", "copy.deepcopy", "pickle"])

p("C22", "Covariance estimates are right and leave the fit state untouched",
  "For every objective with sufficiently many points, at any parameter values where the residuals are differentiable, the covariance matrix is symmetric, positive definite and equals the inverse of J^T J (J the Jacobian of the residuals) times reduced chi-squared, including when a parameter is zero, and is equivariant under reordering points. Computing it, or failing because a parameter has no effect (which raises a linear-algebra error naming it), leaves every parameter value as it was.",
  ["inputs", "histories"], "all objectives, parameter values incl. zero, failing cases",
  "Covariance is only computed implicitly in one smoke fit.",
  [O], [("covariance", O + ": ObjectiveSE.covar")], ["ObjectiveSE.covar"])

p("C23", "The refractive-index profile matches the slab table and alignment",
  "For every structure the index profile equals the fronting index plus one step (sharp, or error-function of the layer's roughness) per interface located at the cumulative thickness, so it starts at the fronting and ends at the backing index and shows each thick layer at its own index. Aligning on interface k shifts the profile so that interface (negative k counting from the backing side) is at zero without changing the values; the chosen positions or spacing are honoured, and structures without both media are refused.",
  ["inputs", "configurations"], "all structures x alignments x position grids",
  "The profile is computed once and its value discarded.",
  [S], [("profile", S + ": StructureSE.ri_profile")], ["StructureSE.ri_profile"])

p("C24", "Graded interfaces and contraction keep the optics of the profile",
  "When any layer has a non-default interface kind, the optical response is that of the stack cut into thin slices of the graded index profile: slices run from the fronting to the backing index, take each intermediate value prescribed by the chosen interface functions, and the response is finite and, for zero roughness, that of the sharp stack to within the slice resolution (0.5 Angstrom). Contraction keeps fronting and backing media, total thickness and, to within the contraction value, the area under the index profile; contraction zero changes nothing.",
  ["configurations", "inputs"], "all interface kinds x stacks x solvation x reversal x contraction",
  "One test checks that slicing produces more than 300 rows.",
  [S], [("micro-slicing", S + ": StructureSE.slabs, overall_sld alias"), ("contraction", S + ": contract_by_area")],
  ["StructureSE.slabs", "ReflectModelSE.__call__"])

p("C25", "Inspecting and plotting show the right numbers and change nothing",
  "Printing, repr, profile plots, objective plots and the plotting helpers draw exactly the dataset's unmasked points, the model's predictions and the index profile of the current state on the requested axis, and leave parameter values, masks, data, reversal and subsequent predictions unchanged - except that parameter values explicitly passed to a plot call are applied. Parameter vectors generated from stored samples are rows of those samples, each at most once, completed by the current values of the other parameters.",
  ["histories", "configurations"], "all sequences of inspection calls",
  "Plots are exercised only inside notebooks without checking results or state.",
  [O, S, "tools/plottools.py"], [("plots", O + ": ObjectiveSE.plot; " + S + ": StructureSE.plot; tools/plottools.py")],
  ["ObjectiveSE.plot", "StructureSE.plot", "plot_ellipsdata", "plot_structure", "str/repr"])

p("C26", "Co-refinement adds up objectives and is independent of their order",
  "For any set of ellipsometry objectives sharing or not sharing parameters, layers, structures or models, the global objective's residuals are the concatenation and its chi-squared and log-likelihood the sums of those of the individual objectives evaluated alone at the same parameter values, in any order and after any interleaving of evaluations, and each shared varying parameter appears once. A fit started from the optimum stays there and a fit's result is stored in the shared parameters.",
  ["histories", "configurations"], "all sharing patterns x orders x interleavings",
  "Co-refinement appears only in notebooks whose numbers are not checked.",
  [O, M, S], [("objective protocol", O + ": ObjectiveSE"), ("shared structure state", M + ": ReflectModelSE.model")],
  ["refnx GlobalObjective over ObjectiveSE"])

p("C27", "Malformed input is refused and leaves existing objects unchanged",
  "Unknown materials, mismatched oscillator lists, unrecognised dispersion formats, non-material slab contents or solvents, non-layer structure items, a model without a structure, unknown mixing rules, depolarisation factors outside [0, 1], unsupported data files, parameter vectors of wrong length and out-of-range alignments raise an error at the call (for mixing rules, at the first evaluation that mixes). The object addressed, its parameters and its next prediction are the same as before the refused call.",
  ["inputs", "histories"], "all invalid arguments in every position of an operation sequence",
  "No test exercises an error path.",
  [S, R, M, O, D], [("validation", S + ": setters and append; " + R + ": constructors; " + M + ": structure setter; " + O + ": setp")],
  ["exceptions raised", "state after refused call"])

p("C28", "The transfer matrix gives exact amplitudes that conserve energy",
  "For every list of refractive indices (transparent, absorbing, metallic; first and last semi-infinite), layer thicknesses, angle(s) of incidence in radians and wavelength(s), coh_tmm returns for each point the exact complex amplitude reflection and transmission coefficients r_s, r_p, t_s, t_p of the stack. Reflected plus transmitted energy equals the incident energy for lossless stacks and never exceeds it for passive ones, and transmission is reciprocal. An absorbing fronting medium is accepted with the complex angle for which n0 sin(theta) is real; other complex n0 sin(theta) are refused. Scalars, lists and arrays of angles and wavelengths broadcast, one amplitude per point, thicknesses given for the outer media are ignored and no argument is modified.",
  ["inputs"], "all stacks x angles x wavelengths x argument forms",
  "No test looks at amplitudes; transmission cancels out of Psi and Delta, so an error in it is invisible to every existing test.",
  [M], [("transfer matrix", M + ": coh_tmm"), ("interface amplitudes", M + ": interface_r_s, interface_r_p, interface_t_s, interface_t_p")],
  ["coh_tmm"])

p("C29", "Independent objects can be used from several threads at once",
  "When threads work on different models, structures, objectives, datasets or files - evaluating predictions, slab tables, profiles, residuals, likelihoods or covariances, mixing media, loading or saving data, loading materials, copying or assembling structures - each obtains exactly what it would have obtained alone, for every interleaving, also when the objects share materials, layers, parameters that nobody changes, or input arrays. (Threads that use the same structure, model, objective or dataset, or change a shared parameter, are outside this guarantee.)",
  ["schedules"], "all interleavings of two activities",
  "The tests are single-threaded; hidden process-wide or per-material scratch state gives the right answer in every serial run.",
  [M, S, R, O, D], [("wavelength kept on the structure only", M + ": ReflectModelSE.model; " + S + ": StructureSE.slabs"), ("materials and layers without evaluation state", R + ": complex, epsilon; " + S + ": SlabSE.slabs, MixedSlabSE.slabs, overall_ri"), ("loaders without module state", D + ": open_*file")],
  ["results of concurrent calls"])

p("C30", "User-defined materials and layers take part like the built-in ones",
  "A material class derived from ScattererSE that supplies epsilon(energy in eV) or complex(wavelength in nm), and a layer class derived from ComponentSE that supplies slabs(structure) with any number of rows (or None), can be used wherever built-in ones can: materials as media, layers, parts of mixtures or solvents, layers anywhere between the media; in expressions, reversal, solvation, graded interfaces, profiles, predictions, objectives, co-refinement, copies and pickles. A material given by epsilon has the index sqrt(epsilon(1239.841984055 / wavelength)), at its own default wavelength if none is given. A layer is handed the structure that holds it; all its rows appear in order (reversed with the structure, roughness staying with its interface), each solvated by its own fraction; its parameters are exposed and its log-probability is added to the likelihood once per occurrence. Structures whose first or last item is not a slab are refused.",
  ["inputs", "histories"], "all stacks of user-defined and built-in items x settings; all short histories",
  "The demo notebook documents the extension mechanism, no test uses it.",
  [S, R, M, O], [("material base class", S + ": ScattererSE.complex, ScattererSE.__call__, nm_eV_conversion"), ("layer base class", S + ": ComponentSE.__or__, ComponentSE.__mul__"), ("assembly of rows", S + ": StructureSE.slabs, StructureSE.overall_ri, StructureSE.append")],
  ["complex()", "slabs()", "model prediction", "logl", "parameters"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=True) + "\n")
print(len(P))
