"""The catalogue of properties: statements, anchors and the deciding technique of each."""

PROPS = [
    dict(
        id="C01", title="Caller-owned data is never modified in place",
        statement="No function or method of the library writes into an array, list, dictionary or object that the caller passed to it, nor into objects the caller handed over when constructing a library object (the data terms given to a solver are copied): after any call, on any path, everything the caller passed in holds the values it held before. The only exceptions are the documented in-place steps of the iterative algorithms (dual update and proximal operators), which update the iterate given as their first argument, and the objects that become part of the one they are given to, and which keep what they compute for the data at hand: regularizers, filters and projector backends.",
        over=["inputs", "programs", "configurations"],
        quant="every public function and method, every argument, every path (all combinations of options), including views, slices and reshapes of the argument",
        why="the tests check returned values for a few option combinations; none compares the inputs before and after the call, and aliasing only shows for particular dtypes, layouts and options",
        files=["src/corrct/solvers.py", "src/corrct/processing/pre.py", "src/corrct/models.py", "src/corrct/projectors.py", "src/corrct/data_terms.py", "src/corrct/regularizers.py"],
        mech=[("copies of the incoming data", "src/corrct/solvers.py: b = np.array(b), x0 = x0.copy()"), ("functional geometry transforms", "src/corrct/models.py: dataclasses.replace"), ("deepcopy of slicing", "src/corrct/data_terms.py: DataFidelityBase.__getitem__")],
        observe=["arguments of every public function after the call"],
        technique="interprocedural may-alias and effect analysis over the syntax tree (custom abstract interpreter): every store is traced to the storage it may reach",
        level_note="all functions of the package analysed with symbolic arguments and inlined callees; external library calls are trusted to be pure except a table of mutators",
    ),
    dict(
        id="C02", title="Objects can be reused: earlier uses leave no trace in later results",
        statement="Operators, projectors, filters, regularizers, data terms, solvers, volume and projection geometries, mask collections, material volumes and attenuation volumes can be used any number of times: the result of a use never depends on what was computed with the same object before (other data, other shapes, the transpose or the absolute operator, another reconstruction), a result handed out earlier is not changed by later uses, and writing into a computed array that was handed out does not change later results. (Exceptions by design: re-assigning data to a data term, the SVD operator, whose transpose uses the last decomposition, and the coefficient layout of decimated wavelets.)",
        over=["histories", "inputs", "configurations"],
        quant="every ordered pair of uses of the same object, with unrelated symbolic data in each; every class of operator, projector, filter, regularizer, data term, solver, geometry, mask, material",
        why="tests construct a new object for each call; caches, reused buffers and handed-out internal arrays only show in the second use, with other data",
        files=["src/corrct/operators.py", "src/corrct/projectors.py", "src/corrct/filters.py", "src/corrct/regularizers.py", "src/corrct/data_terms.py", "src/corrct/solvers.py", "src/corrct/models.py", "src/corrct/struct_illum.py", "src/corrct/physics/attenuation.py", "src/corrct/physics/materials.py"],
        mech=[("per-call initialisation", "src/corrct/solvers.py: data_term.assign_data, regularizer.initialize_sigma_tau at every call"), ("copies", "src/corrct/operators.py: _transpose copies the operator; src/corrct/filters.py: filter_fourier copies")],
        state=[("attributes", "what an object keeps between two uses", "self.* of every class")],
        observe=["value returned by the later use", "value handed out by the earlier use"],
        technique="metamorphic equality of gated value numbers: the same source analysed for a use on a used and on a fresh object (alias-aware abstract interpretation)",
        level_note="2571 ordered pairs of uses over about 75 kinds of objects, symbolic data; longer histories follow when no pair leaves a trace in any later use",
    ),
    dict(
        id="C03", title="Solution limits and volume mask hold on every returned solution",
        statement="Whatever the solver (SART, SIRT, MLEM, PDHG, FISTA, FBP), with any combination of lower_limit, upper_limit, x_mask and initial solution x0, and at whatever iteration it stops (iteration count, tolerance, zero iterations): every voxel of the returned solution that the mask does not exclude lies between the limits that were given, and every voxel excluded by the mask is zero.",
        over=["inputs", "schedules", "configurations"],
        quant="every solver, every subset of {lower limit, upper limit, mask, x0}, every number of iterations including none, every early exit, with and without preconditioning and regularisation",
        why="the tests run a solver for a fixed number of iterations on one phantom, where an unconstrained solution often satisfies the limits anyway; the guarantee concerns every exit and the initial value too",
        files=["src/corrct/solvers.py"],
        mech=[("clipping and masking at the end of each iteration", "src/corrct/solvers.py: Solver.*.__call__, lower_limit / upper_limit / x_mask"), ("initialisation of the solution", "src/corrct/solvers.py: x0 handling")],
        observe=["value returned by Solver.__call__"],
        technique="induction over loop-carried values in gated value numbering (abstract interpretation of the source): the last operations on every returnable value are the clip and the mask",
        level_note="all solvers x 14 combinations of given arguments, all iteration counts by induction; no data is executed",
    ),
    dict(
        id="C05", title="Solver bookkeeping describes the solution that is returned",
        statement="For SART, SIRT, MLEM, PDHG and FISTA, the information returned with a solution describes the iterations that were actually run: `iterations` counts them; residuals[k] and residuals_cv[k] are the data-term norms of the residual over the unmasked and the held-out pixels respectively, of the solution entering iteration k (SIRT, MLEM) or leaving it (SART, PDHG, FISTA), residual0 and residual0_cv those of the initial solution (after limits and mask); with a tolerance the solver stops at the first iteration whose recorded residual is below it and at no other, returning the solution of that moment; without one it performs exactly the requested iterations.",
        over=["inputs", "schedules", "histories"],
        quant="every solver, masks, test masks, tolerances and their combinations, every iteration at which it may stop",
        why="tests only look at the final solution; histories, early stopping and cross-validation residuals have off-by-one and wrong-mask failure modes which show only for particular stops",
        files=["src/corrct/solvers.py", "src/corrct/data_terms.py"],
        mech=[("residual computation and normalisation", "src/corrct/solvers.py: residual_rel / residual_cv_rel in Solver.__call__"), ("stopping rule", "src/corrct/solvers.py: self.tolerance")],
        observe=["SolutionInfo returned by Solver.__call__"],
        technique="equality of loop-carried gated value numbers between the solver's source and a reference text (neither is executed)",
        level_note="80 solver configurations, each for all iteration counts and data",
    ),
    dict(
        id="C06", title="Operators and projectors compute their documented formulas",
        statement="Every operator (identity, diagonal scaling, convolution, callables, gradient, Laplacian, Fourier, SVD, decimated and stationary wavelets) and every projector (matrix, uncorrected, attenuation-corrected XRF, ghost imaging) computes exactly its documented direct and adjoint formulas, its `absolute` is the operator of the absolute values, and the shapes of its spaces are those of its inputs and outputs: the gradient's adjoint is the negative divergence of the same differences; wavelets pad and crop consistently; the projector multiplies angle a by intensity a, applies the PSF after the projection and its transpose before the back-projection; the XRF projector multiplies each detector's sinogram or volume by that detector's maps at that angle, with the weights of the detectors; projecting or back-projecting one angle equals that line of the whole.",
        over=["inputs", "configurations"],
        quant="symbolic data, shapes, angles, weights, kernels and maps; 2D and 3D, all options (flip_adjoint, PSF, intensities, weights, symmetric, number of detectors)",
        why="tests compare adjointness for one random vector with a loose tolerance, or only shapes; scale, sign, axis, pairing (which map with which angle or detector) errors stay inside",
        files=["src/corrct/operators.py", "src/corrct/projectors.py", "src/corrct/struct_illum.py", "src/corrct/_projector_backends.py"],
        mech=[("direct and adjoint", "src/corrct/operators.py: _op_direct, _op_adjoint, absolute"), ("pairing of angles, maps and detectors", "src/corrct/projectors.py: ProjectorUncorrected.fp/bp, ProjectorAttenuationXRF.fp/bp/fp_angle/bp_angle"), ("scikit-image backend", "src/corrct/_projector_backends.py: ProjectorBackendSKimage")],
        observe=["results of calling the operators"],
        technique="equality of gated value numbers with reference formulas (abstract interpretation of the source; external transforms as uninterpreted functions)",
        level_note="242 obligations for symbolic data; the ASTRA backend's kernels and floating-point accuracy are outside",
    ),
    dict(
        id="C07", title="All routes of applying an operator or its transpose agree",
        statement="For every operator and projector: T, rmatvec, matvec, the adjoint and explicit() agree with calling it, whatever the chain of transpositions: op.T.T is op, op.T.rmatvec is op, matvec and rmatvec are the call on the array reshaped to the direct or adjoint space and flattened, op.shape is (size of adjoint space, size of direct space), swapped for the transpose, column i of explicit() is the operator on the i-th unit vector; and taking the transpose never changes the operator it is taken from.",
        over=["programs", "inputs"],
        quant="all operators and projectors of the package, symbolic data and shapes, chains of up to three transpositions (two of them give the operator back)",
        why="tests apply op and op.T only; LinearOperator routes (rmatvec of a transpose, shapes after transposition) are only exercised by users' scipy solvers",
        files=["src/corrct/operators.py", "src/corrct/projectors.py", "src/corrct/struct_illum.py"],
        mech=[("direction flag", "src/corrct/operators.py: BaseTransform._transpose, is_dir_operator, _matvec, rmatvec, __call__, explicit"), ("matrix projector", "src/corrct/projectors.py: ProjectorMatrix")],
        observe=["results of the routes", "shape"],
        technique="metamorphic equality of gated value numbers between the routes (abstract interpretation of the source)",
        level_note="230 obligations: 13 relations for each of 18 kinds of operators",
    ),
    dict(
        id="C12", title="A background given to a data term enters exactly once",
        statement="A data term constructed with a background b0 behaves, wherever it is used, like the same data term without background applied to the projection y + b0: residual, (masked) primal-dual gap and dual update of every data term use y + b0 exactly once (with data, without data, after slicing, after assigning new data), the proximals and residual norms are not changed by it; and every solver (SIRT, MLEM, PDHG, FISTA), for the training and for the held-out residuals, iterates on the model A x + b0, also when the test data term came with another background. The background is never dropped, counted twice or truncated to the data type.",
        over=["inputs", "configurations", "programs"],
        quant="all data terms, all uses inside the solvers, arrays and scalars, with and without masks",
        why="the tests use backgrounds in one solver only, where omissions or double counting change values moderately",
        files=["src/corrct/data_terms.py", "src/corrct/solvers.py"],
        mech=[("addition or subtraction of the background", "src/corrct/data_terms.py: DataFidelityBase.compute_residual, assign_data, __getitem__, DataFidelity_KL"), ("background in MLEM and PDHG", "src/corrct/solvers.py")],
        observe=["data-term methods", "value returned by Solver.__call__"],
        technique="metamorphic equality of gated value numbers: the same source analysed with and without a background, and against reference texts",
        level_note="144 obligations over all data terms and solvers, for symbolic data",
    ),
    dict(
        id="C23", title="Data terms implement their proximals, norms and residuals exactly",
        statement="For every data term (l2, weighted l2, l2b, Huber, l1, l12, l1b, KL, ln) the dual and primal proximal operators, the residual, the residual norm, the dual norms of l1 and KL, the dual update and the dot product with the data have exactly their documented closed form, for every step size (scalar or array), weight, threshold, mask, with and without assigned data.",
        over=["inputs", "configurations"],
        quant="every data term, every combination of data/weights/mask, symbolic values",
        why="convergence tests are insensitive to scale, sign or threshold errors in a proximal; tests sample one step size and no weights",
        files=["src/corrct/data_terms.py"],
        mech=[("closed forms", "src/corrct/data_terms.py: apply_proximal_dual, apply_proximal_primal, compute_residual, compute_residual_norm, compute_primal_dual_gap"), ("soft-thresholding", "src/corrct/data_terms.py: _soft_threshold, _sign")],
        observe=["data-term methods"],
        technique="equality of gated value numbers (polynomial normal forms over interpreted functions) with the closed form",
        level_note="each closed form decided for all inputs, up to floating-point rounding",
    ),
    dict(
        id="C25", title="Solver iterations are the documented update formulas",
        statement="For any linear operator, data, masks, limits, regularisers and number of iterations, the solution returned by SIRT, MLEM, PDHG, FISTA, SART and FBP is that of the documented iteration: SIRT x + tau A^T(sigma (b - A x)), with tau, sigma from the row and column sums of |A|; MLEM x A^T(b/(A x + background)) / A^T 1; PDHG with dual, primal and over-relaxation steps; FISTA with momentum (and restarts); SART cycling over the angles in order; FBP as A^T of the filtered (weighted) data; step sizes of non-preconditioned solvers come from the power method's estimate of the operator norm; each regulariser contributes its dual once per iteration with its own step size.",
        over=["inputs", "configurations", "schedules"],
        quant="symbolic operator and data; 0, 1 or 2 regularisers; limits and masks on/off; l2, l1, KL terms; with and without preconditioning; any number of iterations",
        why="iterative solvers converge, slower or elsewhere, with a wrong step or momentum, and the tests accept a loose error",
        files=["src/corrct/solvers.py", "src/corrct/regularizers.py", "src/corrct/data_terms.py"],
        mech=[("iterations", "src/corrct/solvers.py: SART, SIRT, MLEM, PDHG, FISTA, FBP .__call__"), ("step sizes", "src/corrct/solvers.py: power_method, PDHG._get_data_sigma_tau_unpreconditioned, regularizer initialisation")],
        observe=["value returned by Solver.__call__"],
        technique="equality of loop-carried gated value numbers between the solver's source and a reference text (neither is executed)",
        level_note="75 configurations, each for all iteration counts, operators and data, up to floating-point rounding",
    ),
    dict(
        id="C13", title="Regularizers implement the saddle-point form of their penalty",
        statement="For every regularizer (TV and Huber TV, smoothness, Laplacian, l1, stationary and decimated wavelets with l1, l12 and Huber norms, median, Fourier, nuclear and vector TV, vector wavelets, channel SVD, lower and upper limits): starting from a zero dual of the shape of its transform, the dual update adds sigma times the transform of the iterate (or its difference from the median or from the limit), the proximal of the dual is that of its norm with its weight (group norms act on the sub-bands of one level, or on the given pointwise axes), and the update of the primal is the adjoint transform of the dual, times the weight where the norm does not carry it, times the update mask. The step sizes sigma and tau are the documented bounds of the norm of the transform per element, and, where available, the proximal of the primal is the transform's adjoint of the thresholded transform (threshold tau times weight), inside the update mask, or the clipping for limits.",
        over=["inputs", "configurations"],
        quant="every regularizer class, every documented option (axes, padding, norms, masks, normalisation, approximation band, filters, reference channel), symbolic weight, iterate, dual and step size",
        why="the tests run a solver with a few regularizers and compare images with a tolerance; a wrong step size, weight applied twice or a mixed sub-band grouping still returns a plausible image (four such errors were found and repaired here)",
        files=["src/corrct/regularizers.py", "src/corrct/data_terms.py", "src/corrct/operators.py"],
        mech=[("protocol", "src/corrct/regularizers.py: initialize_sigma_tau, update_dual, apply_proximal_dual, compute_update_primal, apply_proximal_primal")],
        observe=["step size, dual, update returned by the methods of the protocol"],
        technique="equality of gated value numbers between the regularizer's source and a reference built from its operator and norm (abstract interpretation, alias-aware for the in-place updates)",
        level_note="592 rows: 5 methods x about 70 configurations x mask; casts are ignored; the transforms and norms themselves are decided by C06 and C23",
    ),
    dict(
        id="C16", title="Units of length and energy are converted consistently everywhere",
        statement="For every pair of the supported length units (km, m, cm, mm, um, nm, angstrom) and of the supported energy units (GeV to ueV), the conversion factor is the ratio of their SI prefixes; photon energy and wavelength are converted by E lambda = h c with both units honoured (defaults m and keV), in both directions; the linear attenuation per pixel is pixel size (micrometres converted to cm) times density (the given one, if any) times cross-section.",
        over=["inputs", "configurations"],
        quant="every pair of units of either table and both conversion functions with every pair of units, symbolic values",
        why="the tests round-trip a couple of units: a wrong factor that cancels on the way back, or in a unit that is not sampled, goes unnoticed",
        files=["src/corrct/physics/units.py", "src/corrct/physics/attenuation.py"],
        mech=[("unit tables", "src/corrct/physics/units.py: ConversionMetric, ConversionEnergy, energy_to_wlength, wlength_to_energy"), ("attenuation per pixel", "src/corrct/physics/attenuation.py: get_linear_attenuation_coefficient")],
        observe=["value returned by the conversion functions"],
        technique="equality of gated value numbers between the source (tables included) and the conversion law, one scenario per pair of units",
        level_note="finite set of units covered completely; each for all values",
    ),
    dict(
        id="C20", title="Attenuation maps belong to their rotation angle and detector",
        statement="For any attenuation volumes, rotation angles and detectors (angles or DetectorXRF objects with an extended surface), entry [i, d] of the maps computed by AttenuationVolume is the product of the incident attenuation for rotation angle i and of the emitted attenuation towards detector d (angle i plus detector angle, averaged over the sub-angles of its surface), whichever of the two volumes are given and with or without threads; the attenuation along an angle is exp(-half-pixel-centred cumulated local attenuation) along that direction (reversed for emitted photons) on the padded volume; get_maps and get_projector_args return exactly the requested angles and detectors, with the matching detector angles, binned over the volume axes only.",
        over=["inputs", "configurations", "schedules"],
        quant="2D and 3D volumes; incident, emitted, both; one, two, extended detectors; 1 or 3 sub-angles; with and without threads, any completion order; selections by index, list and slice",
        why="tests use one detector and symmetric phantoms: swapped or shifted maps and lost sub-angles stay within their tolerance",
        files=["src/corrct/physics/attenuation.py", "src/corrct/_projector_backends.py", "src/corrct/physics/xrf.py"],
        mech=[("maps", "src/corrct/physics/attenuation.py: AttenuationVolume.compute_maps, _compute_attenuation_angle_in/out"), ("selection", "src/corrct/physics/attenuation.py: AttenuationVolume.get_maps, get_projector_args"), ("attenuation along a direction", "src/corrct/_projector_backends.py: compute_attenuation")],
        observe=["AttenuationVolume.maps", "values returned by get_maps and get_projector_args", "compute_attenuation"],
        technique="equality of gated value numbers (indexed fills, loop-carried values, futures resolved to their submission) with a reference text",
        level_note="scenarios for all volumes, angles and detector positions, and schedules in which the workers complete in other orders; the rotation kernel of scikit-image is a symbol",
    ),
    dict(
        id="C24", title="Physics volumes and filters follow their documented formulas",
        statement="For any materials, fractions, voxel size, energies, lines and detectors: the attenuation is voxel size * sum fraction * density * cross-section; the phase shift -2 pi / wavelength * voxel size * sum fraction * delta; the element mass fraction sums the materials that hold the element, each with its own mass fraction; fluorescence is mass fraction * total yield of the selected lines * voxel size (* solid angle) at the rate-weighted mean energy; Compton production uses each material's differential cross-section at the detector angle; line k's energy and rate stay at position k and a family name selects exactly its lines; compounds carry their own name and density; detector solid angle and range, delta/beta and the CTF/TIE responses and their application (padding, shift, crop) follow their formulas.",
        over=["inputs", "configurations"],
        quant="two materials, one or two lines, with and without detector, elements by number or symbol, 2D and 3D images; symbolic values",
        why="tests check shapes and single materials; a coefficient taken from the other material, a lost voxel size or a wrong family of lines passes",
        files=["src/corrct/physics/materials.py", "src/corrct/physics/xrf.py", "src/corrct/physics/phase.py", "src/corrct/physics/xraylib_helper.py"],
        mech=[("volumes", "src/corrct/physics/materials.py: VolumeMaterial.get_attenuation, get_phase_shift, get_element_mass_fraction, get_compton_scattering, get_fluo_production"), ("lines and detectors", "src/corrct/physics/xrf.py: LinesSiegbahn, get_energy, get_radiation_rate, DetectorXRF"), ("phase contrast", "src/corrct/physics/phase.py: get_propagation_filter, apply_propagation_filter, get_delta_beta")],
        observe=["values returned by the physics functions"],
        technique="equality of gated value numbers with the documented formula; xraylib functions are uninterpreted symbols",
        level_note="62 scenarios, each for all values; xraylib's tables themselves are outside",
    ),
    dict(
        id="C21", title="Noise variances, weights and flat field follow the counting model",
        statement="For any projections, flat and dark fields: the transmission is (projection - dark) / (flat - dark), all cropped alike, with the flats averaged over their stack, and capped when requested; the linearised data is its negative logarithm, limited from below. The variance of a signal over its reference is that of counting noise (or the given variance of the reference) propagated through the division, or through the logarithm for transmissions, normalised by the mean reference unless disabled; the weights are the reciprocal of the variance, or standard deviation, floored at the requested percentile of its cumulated values (of the unmasked points), with the documented normalisation and semi-logarithmic form, and zero outside the mask.",
        over=["inputs", "configurations"],
        quant="symbolic images; stacks of flats and darks or single images; with and without darks, cap, dose factor, masks and normalisation options",
        why="tests compare images of a bright phantom with a tolerance: a wrong propagation term, the dark subtracted once only, or weights that are not inverted survive",
        files=["src/corrct/processing/pre.py", "src/corrct/processing/noise.py"],
        mech=[("flat field", "src/corrct/processing/pre.py: apply_flat_field, apply_minus_log"), ("variances and weights", "src/corrct/processing/noise.py: compute_variance_poisson, compute_variance_transmission, compute_variance_weight")],
        observe=["values returned by the processing functions"],
        technique="equality of gated value numbers between the source and the documented formula (neither is executed)",
        level_note="47 scenarios, each for all values; the statistical meaning of the variances is outside",
    ),
    dict(
        id="C26", title="Image quality measures follow their definitions",
        statement="For any images: the azimuthal integral shares every pixel between the two rings around its distance from the centre, over the requested axes only; the power spectrum is the azimuthal integral of the Fourier modulus, as documented; the Fourier ring or shell correlation is the correlation over the geometric mean of the powers per ring, with the threshold curve of its signal-to-noise ratio and number of samples, super-sampled or split in two as documented. The normalised cross-correlation is the correlation of the normalised images (or of a template, with the local mean and variance of the image), with its zero shift at the centre and profiles along the requested axis; centres of mass, bias and variance maps, circular masks and balls, the fit of scale and bias, and the crossing point of two curves follow their definitions.",
        over=["inputs", "configurations"],
        quant="1D, 2D and 3D images, stacks, every option of the functions (axes, masks, normalisation, window, template, taper, centre, coordinates); symbolic values",
        why="tests check shapes and one noise-free phantom; a ring weighted by the wrong count, an axis shifted or cropped in a stack (two such errors were found and repaired here) passes",
        files=["src/corrct/processing/post.py", "src/corrct/processing/misc.py"],
        mech=[("spectral curves", "src/corrct/processing/post.py: azimuthal_integration, power_spectrum, compute_frc, com, compute_reconstruction_bias_variance_maps"), ("correlations", "src/corrct/processing/misc.py: norm_cross_corr, lines_intersection, circular_mask, azimuthal_integration")],
        observe=["values returned by the processing functions"],
        technique="equality of gated value numbers between the source and the definition, one scenario per option combination",
        level_note="299 scenarios, each for all pixel values; FFT, zoom and filters are uninterpreted symbols",
    ),
    dict(
        id="C27", title="Image preparation acts on the requested axes and projections",
        statement="For any stack of projections: padding, rotation, shift (spline and Fourier), and binning act on the image axes only, with each image receiving its own parameters, and keep the order of the stack; the margin background is the mean (or polynomial fit) of the requested columns and is spread over the full width; the SNIP background of each projection is computed from that projection alone; stripe removal damps the detail coefficients at low angular frequencies and removes exactly the padding it added; the transmission is decomposed in its first singular component and the remaining ones.",
        over=["inputs", "configurations"],
        quant="2D, 3D and 4D stacks, scalar and per-projection parameters, single and double margins, smoothing, one or two wavelet levels, with and without flats and darks; symbolic values",
        why="tests call each function once on square images; a swapped axis, a parameter of the neighbouring projection or a one-pixel crop error is invisible there",
        files=["src/corrct/processing/pre.py", "src/corrct/processing/misc.py"],
        mech=[("geometry of images", "src/corrct/processing/pre.py: pad_sinogram, rotate_proj_stack, shift_proj_stack, bin_imgs"), ("backgrounds", "src/corrct/processing/pre.py: background_from_margin, snip, background_from_snip, destripe_wlf_vwu, compute_eigen_flats")],
        observe=["images returned by the processing functions"],
        technique="equality of gated value numbers (indexed fills, loop-carried values) between the source and a reference text",
        level_note="97 scenarios, each for all values; interpolation, FFT, wavelet and SVD kernels are uninterpreted symbols",
    ),
    dict(
        id="C14", title="Acquisition and volume geometries transform consistently",
        statement="For any projection geometry: rotating it rotates source, detector and both detector axes of every projection by the given angles around the rotation axis (mirrored for 2D only where requested) and changes nothing else; tilting rotates the detector (and the source, if requested) around the given axes in order; shifts move the detector along its own axes U and V (V in 3D only), and along the beam; indexing selects the same angles of every vector; copies, 3D versions, scaled vectors, projected displacements and default geometries are those of the documentation, and the pre-weights are the source-detector over the source-pixel distance. For any data or volume, the volume geometry has the width and height of the unpadded data (times the super-sampling, with the voxel size its inverse), or the shape of the volume.",
        over=["inputs", "configurations"],
        quant="parallel 2D, parallel 3D and cone geometries; one or many angles, with and without each shift, distance, tilt axis, detector shape, data format, padding and super-sampling; symbolic vectors",
        why="tests build one centred geometry: a vector left un-rotated, a shift along the wrong axis or a sign is invisible there (the pre-weights had such an error, repaired here)",
        files=["src/corrct/models.py"],
        mech=[("vectors", "src/corrct/models.py: ProjectionGeometry.rotate, set_detector_tilt, set_detector_shifts_vu, set_source_shifts_vu, __getitem__, get_pre_weights"), ("volumes", "src/corrct/models.py: VolumeGeometry, get_vol_geom_from_data, get_vol_geom_from_volume"), ("defaults", "src/corrct/models.py: get_prj_geom_parallel, get_prj_geom_cone")],
        observe=["fields of the geometries", "values returned by their methods"],
        technique="equality of gated value numbers between the source and a reference text (alias-aware for the in-place shifts)",
        level_note="281 scenarios, each for all vectors, angles and shapes; scipy's Rotation is an uninterpreted symbol",
    ),
    dict(
        id="C28", title="Filtered back-projection filters are applied as linear convolutions",
        statement="For any sinogram and filter: filtering pads every projection to the documented power of two, multiplies with the filter in Fourier space and crops back to the width of the data, once per filter, in order, whichever transform is used; the classical filters are those of the padded width, scaled by pi over twice the number of projections. The bases of blocks, hats and wavelets are those documented; the data-dependent filter is the combination of the basis whose masked reconstruction has the projections closest to the data (plus the smoothness term where requested), also after data of another width.",
        over=["inputs", "configurations"],
        quant="2D and 3D data, real and complex transforms, one or two filters, every classical filter family, every growth rule, order, start and normalisation of the bases, with and without smoothing; symbolic values",
        why="tests reconstruct one phantom with one filter; a crop by one pixel, a filter of the wrong width or a basis built once for another width only shows for other sizes",
        files=["src/corrct/filters.py"],
        mech=[("application", "src/corrct/filters.py: Filter.apply_filter, get_padding_size, filter_real"), ("bases", "src/corrct/filters.py: create_basis, create_basis_wavelet, FilterMR.compute_filter")],
        observe=["filtered sinograms", "filters in real and Fourier space", "basis functions"],
        technique="equality of gated value numbers between the source and the definition, one scenario per option combination",
        level_note="100 scenarios, each for all values and sizes; FFT, interpolation, least squares and wavelet tables are uninterpreted symbols",
    ),
    dict(
        id="C29", title="Cone-beam calibration returns the geometry defined by the two ellipses",
        statement="The centre of a projected circle is the point closest to all lines through opposite points, and the ellipse parameters those of the least-squares (or least-absolute) fit, both independent of the rescaling used inside the fit. The source-detector and source-axis distances, the piercing point, the tilts and the projected origin follow the published formulas (Noo et al. 2000) from the two ellipses rotated upright, measured values replacing fitted ones where given; exchanged ellipses and invalid distances are rejected. Projection and volume geometries are those of the parameters; updating a field returns a copy with that field changed and nothing else; tuning moves each field, in turn, to the minimum of the residual over its values. Tracked markers are at the shifts of the marker plus half its size.",
        over=["inputs", "configurations"],
        quant="with and without rescaling, l1 norm, decimals, measured axis, measured distance, detector size given once; both signs of the source position; every field of the geometry; symbolic values, any number of points",
        why="tests calibrate one simulated geometry with small tilts; a sign, a factor or an exchanged ellipse in a branch that geometry does not take goes unnoticed",
        files=["src/corrct/alignment/cone_beam.py", "src/corrct/alignment/fitting.py", "src/corrct/alignment/markers.py"],
        mech=[("ellipses", "src/corrct/alignment/fitting.py: fit_ellipse_center, fit_ellipse_parameters, fit_ellipse, Ellipse"), ("calibration", "src/corrct/alignment/cone_beam.py: FitConeBeamGeometry.__init__, _initialize, fit, _fit_distance_det2src"),
              ("geometry", "src/corrct/alignment/cone_beam.py: ConeBeamGeometry.get_prj_geom, get_vol_geom, update, get_tuning_params, from_json; tune_acquisition_geometry"), ("markers", "src/corrct/alignment/markers.py: track_marker, create_marker_disk")],
        observe=["calibrated geometries", "ellipse parameters", "projection geometries", "rejected inputs"],
        technique="equality of gated value numbers (returned values and conditions of rejection) between the source and the published formulas, one scenario per option combination",
        level_note="286 scenarios, each for all values; least squares, minimisation and the reconstruction used for tuning are uninterpreted symbols",
    ),
    dict(
        id="C30", title="Structured illumination masks and projectors are those of their definitions",
        statement="A mask collection keeps the given masks and describes them (field of view, shifts, buckets, pixels, support); mismatched encoding and decoding masks are rejected. Re-ordering moves masks and buckets together, the QR decomposition returns the factors of the same masks and buckets transformed accordingly, and neither changes the original collection. Generators cover the requested field of view at the requested resolution, with the documented patterns (pencil, Bernoulli, half-Gaussian, MURA with its decoding pattern), shifts (sequential, at intervals, random without repetition) and transmittance; unknown types of shift are rejected. The ghost-imaging projector multiplies by the encoding masks and back-projects the decoding ones, reconstructs the least-squares or decoded image, scaled for the sampling if asked; ghost tomography composes it with the tomographic projector, declares the shapes of its volumes and buckets, and rejects projections of a different shape.",
        over=["inputs", "configurations"],
        quant="collections of 1D and 2D masks, as stacks and grids, with and without decoding masks; every generator, with scalar and per-axis field of view, default and given resolution; every type of shift; single images and stacks; NumPy backend",
        why="tests generate one small collection of square masks with equal axes; exchanged axes, a decoding mask used for encoding, or masks and buckets out of step only show with rectangular fields, MURA masks, or a non-zero shift",
        files=["src/corrct/struct_illum.py"],
        mech=[("collections", "src/corrct/struct_illum.py: MaskCollection, reorder_masks, decompose_qr_masks, estimate_resolution"), ("generators", "src/corrct/struct_illum.py: MaskGenerator and its sub-classes"),
              ("projectors", "src/corrct/struct_illum.py: ProjectorGhostImaging, ProjectorGhostTomography")],
        observe=["masks", "shifts", "bucket values", "reconstructed images", "rejected inputs"],
        technique="equality of gated value numbers (returned values and conditions of rejection) between the source and the definitions, one scenario per option combination",
        level_note="each scenario for all values and sizes; the GPU backend, the correlation used by the resolution, binning and the FBP of the tomographic part are uninterpreted here (decided by C26, C16, C14)",
    ),
    dict(
        id="C22", title="Alignment shifts are those of the documented correlations and fits",
        statement="Peak regions are the neighbourhood (wrapping at the borders) of the maximum, and sub-pixel positions the vertex of the parabola fitted on it, rejected outside of it. Shifts between images, lines and volumes are the maximum of their (optionally normalised) correlation, in the documented axes, signs and units, with the documented padding and margins; shifts above the allowed maximum are dropped. Pre-alignment, alignment by cross-correlation and centres of rotation combine them per projection in acquisition order, whatever the order of the angles; recentering adds the projection of the displacement of the volume to the shifts.",
        over=["inputs", "configurations"],
        quant="lines, images and volumes; every option of the fitting functions; 2D, 3D and multi-detector data for the pre-alignment; with and without masks, borders, limits and decimals; symbolic values, sizes and angle orders",
        why="tests align one phantom with sorted angles; shifts assigned in sorted order, an axis exchanged, or a maximum at the border of the correlation only shows on other data",
        files=["src/corrct/alignment/fitting.py", "src/corrct/alignment/shifts.py", "src/corrct/alignment/centering.py"],
        mech=[("peaks", "src/corrct/alignment/fitting.py: extract_peak_regions_1d, extract_peak_region_nd, refine_max_position_1d, refine_max_position_2d"),
              ("correlation", "src/corrct/alignment/fitting.py: fit_shifts_vu_xc, fit_shifts_zyx_xc, fit_shifts_u_sad, fit_image_rotation_and_scale, fit_camera_tilt_angle, fit_sinusoid, fit_parabola_min"),
              ("shifts", "src/corrct/alignment/shifts.py: DetectorShiftsPRE.fit_v, fit_u; DetectorShiftsXC.fit_vu, fit_vu_accum_drifts, fit_u_180, fit_u_360, find_shifts_vu"), ("centering", "src/corrct/alignment/centering.py: RecenterVolume")],
        observe=["shifts", "centres of rotation", "rejected inputs"],
        technique="equality of gated value numbers (returned values and conditions of rejection) between the source and the definition, one scenario per option combination",
        level_note="285 scenarios, each for all values and sizes; loops are compared by induction; FFT, least squares and scipy fits are uninterpreted symbols, so that the recovery of the true shifts is not claimed",
    ),
    dict(
        id="C09", title="Parameter sweeps return the result of each value, in any schedule",
        statement="A sweep over hyper-parameter values returns, in the order of the values, the reconstruction and information that the user's functions produce for each value, with the keywords of the user, whatever the number of threads and the order in which the tasks complete. L-curve values are the loss of each reconstruction, and reconstruction errors the norms of the differences from the ground truth. Cross-validation masks hold out the requested fraction of the pixels (k-fold: each pixel exactly once), losses are the last relative residual on the held-out pixels, averaged over the rounds; the minimum is the vertex of the parabola around the smallest loss, or the smallest loss, when the fit is concave or outside of the values. Denoising solves the documented problem with the selected weight.",
        over=["inputs", "configurations", "schedules"],
        quant="one to three values and arrays of any length; serial, pool of threads and external executors; every order of completion of up to three tasks; every combination of keywords; symbolic losses and values",
        why="tests run a few values where tasks finish in order; a result stored by order of completion, a shared mask, or a loss read after an early stop only shows with another schedule",
        files=["src/corrct/param_tuning.py", "src/corrct/denoisers.py"],
        mech=[("sweeps", "src/corrct/param_tuning.py: BaseParameterTuning.process_hp_vals; _parallel_compute, _serial_compute, _compute_reconstruction"), ("losses", "src/corrct/param_tuning.py: LCurve.compute_loss_values, BaseParameterTuning.compute_reconstruction_error"),
              ("cross-validation", "src/corrct/param_tuning.py: CrossValidation, create_random_test_mask, create_k_fold_test_masks"), ("minimum", "src/corrct/param_tuning.py: get_lambda_range, fit_func_min, PerfMeterBatch"), ("denoising", "src/corrct/denoisers.py: denoise_image")],
        observe=["reconstructions", "losses", "test masks", "selected values", "rejected inputs"],
        technique="equality of gated value numbers (returned values and conditions of rejection) between the source and the definitions, one scenario per option combination and order of completion",
        level_note="the order of completion is a parameter of the analysis (all permutations of up to three tasks, and lists of unknown length through futures identified by their index); the functions of the user are uninterpreted, and threads are assumed not to share state through them",
    ),
    dict(
        id="C10",
        title="Invalid options and mismatching arguments are rejected, never silently taken",
        statement="An option name that does not exist (data term, FBP filter, binning, fit scale, recentering and pre-alignment method, mask sequence, taper, integration domain, crossing position, beam and line shape, "
        "filter domain and type, rotation direction, Fourier filter, projector backend, geometry type) is refused with an error wherever it is given, instead of being taken for another option; the existing names are accepted in "
        "any letter case and mean the same. So are arguments that do not fit together: non-regularizers, regularizers and data terms the chosen solver cannot handle, missing back-projections, masks/volumes/maps/weights/shifts/"
        "angles of mismatching shapes or numbers, data without the needed axes, empty lists, impossible detectors, non-square or wrongly dimensioned volumes, and regularizers used before their initialization.",
        over=["inputs", "configurations"],
        quant="every listed option parameter x existing and foreign names in several letter cases, with symbolic remaining arguments; every listed mismatch with symbolic values",
        why="each option is a chain of string comparisons with a fall-through, and each mismatch one guard; a test passes the valid names only, and a fall-through that silently computes something else raises nothing.",
        files=["src/corrct/solvers.py", "src/corrct/filters.py", "src/corrct/projectors.py", "src/corrct/models.py", "src/corrct/struct_illum.py", "src/corrct/alignment", "src/corrct/processing", "src/corrct/physics", "src/corrct/regularizers.py", "src/corrct/param_tuning.py"],
        mech=[("option dispatch", "if/elif chains over option.lower() in constructors and functions of all listed files, ending in raise ValueError"), ("argument guards", "if ...: raise ValueError/NotImplementedError at the start of constructors and functions"),
              ("regularizer validation", "src/corrct/solvers.py: Solver._initialize_regularizer, FISTA.__init__"), ("initialization guards", "src/corrct/regularizers.py: if self.op is None")],
        observe=["rejected inputs", "results with the names in other letter cases"],
        technique="value-numbering equivalence of rejection conditions (uncaught raise paths) over the AST",
        level_note="the union of the conditions of all uncaught raises must be 'always' for the listed calls. Errors raised by numpy itself for incompatible arrays are not counted as rejection. get_prj_geom_parallel accepts arbitrary geom_type suffixes until its ndim is asked for, PDHG accepts data-term objects it does not "
        "know, and lines_intersection refuses unknown positions only when there is a crossing: these are not claimed.",
    ),
    dict(
        id="C31",
        title="Projector backends hand their geometry to the kernels unchanged",
        statement="A projector backend projects and back-projects along the angles it was given, in their order: the volume and projection shapes it reports are those of the volume geometry (scaled by the voxel size), the detector and "
        "the number of angles; the forward projection of all angles, or of one, is the kernel's at that angle, and the back-projection is the unfiltered kernel's, summed over the angles, with the normalization of the adjoint. The "
        "ASTRA backends describe volume, detector size, and source, detector position and axes of each angle from the rotated projection geometry (given, or default with the axis shift), one projector for all angles and, on demand, "
        "one per angle in order. Attenuation volumes are exp(-integral) along the beam at the given angle (or against it), for each slice, at the size of the input.",
        over=["inputs", "configurations"],
        quant="symbolic volume sizes, voxel sizes, angles and data; 2D/3D (and 4D stacks for attenuation); default, shifted and own geometries with and without detector size; all angles and a single one",
        why="ASTRA and CUDA are absent where the tests run, and tests use the default geometry of small square volumes; a swapped vector, an off-by-one angle or a wrong normalization only shows with another geometry",
        files=["src/corrct/_projector_backends.py"],
        mech=[("geometry", "src/corrct/_projector_backends.py: ProjectorBackend.initialize_geometry and its overrides in the SKimage, ASTRA and DirectASTRA backends"), ("kernels", "src/corrct/_projector_backends.py: ProjectorBackendSKimage.fp, bp, ProjectorBackendASTRA.make_ready"),
              ("attenuation", "src/corrct/_projector_backends.py: compute_attenuation")],
        observe=["shapes reported by the backend", "arguments of the external kernels", "values built from their results"],
        technique="value-numbering equivalence between the source and the documented geometry, by abstract interpretation over the AST with the external kernels as uninterpreted functions",
        level_note="the numerical kernels themselves (scikit-image, ASTRA) are uninterpreted; an ASTRA run is the kernel applied to the data linked when it was created, written into the memory that was linked, and a projector re-initialized with another geometry is compared with a fresh one",
    ),
    dict(
        id="C04",
        title="Excluded data pixels never influence a solution",
        statement="Whatever the solver and its options, neither the solution nor any residual it reports, nor when it stops, depends on the values of the data pixels that the data mask excludes: bad pixels may hold anything. Pixels held out "
        "for cross-validation influence neither the solution, nor the training residuals, nor the stopping; they only enter the cross-validation residuals, which in turn ignore masked pixels.",
        over=["inputs", "configurations"],
        quant="every solver x data term (l2, l1, weighted l2, Huber, Kullback-Leibler, with and without background) x regularizers x step-size options x tolerance x limits, initial solution and volume mask x data mask, held-out mask, or both; "
        "any data, mask, operator and number of iterations",
        why="a test compares reconstructions of data with moderate values under the mask, of one solver; a leak through a norm, a first residual, an early stop or the second mask only shows with other options, and other pixel values",
        files=["src/corrct/solvers.py", "src/corrct/data_terms.py"],
        mech=[("mask handling", "src/corrct/solvers.py: Solver._initialize_b_masks, FBP, SART, MLEM, SIRT, PDHG, FISTA __call__"), ("masked residuals", "src/corrct/data_terms.py: compute_residual, compute_residual_norm, apply_proximal_dual of the data terms")],
        observe=["solution", "residuals", "number of iterations performed"],
        technique="non-interference (information flow) on the gated value numbers of whole solver runs, with loop-carried values by induction",
        level_note="masks hold 0 and 1, values are finite (0 times them is 0), and the operators and filters are functions of what they are applied to. The l12 and nuclear norm data terms mix pixels by definition, and are not covered; neither is the "
        "initial value denoise_image estimates from all pixels.",
    ),
    dict(
        id="C17",
        title="Reporting and plotting never change a result",
        statement="Verbose output, progress bars and plots are observers: every solver, alignment, parameter-tuning, calibration, pre-processing, physics and denoising function returns the same values (solutions, residuals, iteration counts, "
        "shifts, geometries, losses, filters) with and without them, and accepts exactly the same inputs.",
        over=["inputs", "configurations"],
        quant="every function and class with a verbose, progress or plot option x its other options, symbolic data",
        why="tests run with one setting of these options, mostly quiet; a value computed or updated inside of the reporting branch, or a failure in it, only shows with the other one",
        files=["src/corrct/solvers.py", "src/corrct/param_tuning.py", "src/corrct/denoisers.py", "src/corrct/struct_illum.py", "src/corrct/alignment", "src/corrct/processing", "src/corrct/physics"],
        mech=[("reporting branches", "if verbose / if self.verbose / if plot_result in all listed files"), ("progress bars", "src/corrct/solvers.py: tqdm(..., disable=not self.verbose)")],
        observe=["returned values", "rejected inputs"],
        technique="value-numbering equivalence of the same function with reporting on and off, by abstract interpretation over the AST",
        level_note="matplotlib, print and tqdm are uninterpreted and assumed not to touch the arrays they are given. That plotting cannot fail inside of matplotlib (or for lack of a display) is not claimed. plot functions which return figures only are not covered.",
    ),
    dict(
        id="C11", title="Calls and objects are independent: no state is shared",
        statement="Separate calls and separately constructed objects never influence each other: no function or method stores into a default argument value, a class attribute or a module variable, no object keeps such a shared value and changes it later, no function re-binds a module variable, and none hands out a mutable default value, class attribute, module variable or memoized result that the caller could change for everybody else. (The records of the fluorescence-line catalogue are handed out as they are, in new lists.)",
        over=["inputs", "histories", "configurations"],
        quant="every function and method of the package, for any arguments and on every path; every attribute of every class after construction with the default arguments",
        why="shared state only shows when two calls or two objects with different settings meet in the same process; tests check them one at a time, or with equal settings",
        files=["src/corrct/regularizers.py", "src/corrct/solvers.py", "src/corrct/filters.py", "src/corrct/processing/misc.py", "src/corrct/physics/xrf.py", "src/corrct/models.py"],
        mech=[("copies of default objects", "src/corrct/regularizers.py: BaseRegularizer.__init__ copies its norm"), ("catalogues", "src/corrct/physics/xrf.py: LinesSiegbahn.get_lines builds a new list")],
        state=[("shared objects", "default values, class attributes and module variables", "all modules")],
        observe=["results of later calls", "attributes of other objects"],
        technique="interprocedural may-alias and effect analysis over the syntax tree (custom abstract interpreter), with default values, class attributes and module variables as separate storages",
        level_note="all functions analysed with symbolic arguments and inlined callees. A cache that only stores immutable or copied values would be reported too: the library has none.",
    ),
    dict(
        id="C18", title="Every name, attribute and argument the code uses exists",
        statement="No path of the library fails because of the way it is written: every name that is read is defined, every attribute or method taken from one of the library's own modules, classes or objects exists there, every attribute of an object is assigned before a method reads it, every call of one of the library's own functions or constructors matches its signature, and every local variable is assigned on each path that reads it. In particular, the branches that report invalid input, warn, plot, or serve rare options work.",
        over=["inputs", "programs", "configurations"],
        quant="every function, method and module body of the package, every path, every call site of the package's own functions",
        why="Python only reports these at run time, on the branch concerned: error messages, warnings, plots and rare options that no test enters (a dozen such defects were found in the pinned tree)",
        files=["src/corrct"],
        mech=[("error reports", "raise ValueError(f\"...{self...}\") in all modules"), ("dispatch between classes", "src/corrct/regularizers.py, src/corrct/data_terms.py, src/corrct/solvers.py")],
        observe=["NameError, AttributeError, TypeError, UnboundLocalError raised by the library itself"],
        technique="symbol-table and member lookups plus path-sensitive abstract interpretation of every function (definite attribute, argument and assignment analysis over the AST)",
        level_note="members of external libraries and the types of the values callers pass are not checked; objects whose class is not known from the source are skipped",
    ),
    dict(
        id="C08", title="Resources are released on every path, also when something fails",
        statement="Every executor, file, ASTRA algorithm, ASTRA data object and ASTRA projector that the library acquires is released with the matching call, on every path: a function that acquires one releases it, returns it, or keeps it in its object, whether it returns or fails at any call in between; an object that keeps resources never forgets one before releasing it (re-initialization, a second `with`, a failing make_ready, in any order), and its dispose, __exit__ and __del__ release everything it keeps, in any state it can be in, also when another release fails.",
        over=["fault_sequences", "histories", "programs"],
        quant="every function of the package with a failure at any call; every history of the public methods of the classes that keep resources (ASTRA back-ends, attenuation-correcting projector), each call failing or not",
        why="leaks only show after many calls, on failing calls, or in long-running processes (GPU memory of ASTRA is never reclaimed); no test makes a back-end call fail, and ASTRA is not even installed where the tests run",
        files=["src/corrct/_projector_backends.py", "src/corrct/projectors.py", "src/corrct/param_tuning.py", "src/corrct/physics/attenuation.py", "src/corrct/testing.py"],
        mech=[("try / finally around ASTRA objects", "src/corrct/_projector_backends.py: fp, bp"), ("life cycle of the back-ends", "src/corrct/_projector_backends.py: make_ready, dispose, __del__, initialize_geometry"), ("executor of the with statement", "src/corrct/projectors.py: ProjectorAttenuationXRF.__enter__, __exit__")],
        state=[("ASTRA projector identifiers", "self.proj_id and self.is_ready", "src/corrct/_projector_backends.py"), ("executor", "self.executor", "src/corrct/projectors.py")],
        observe=["resources held after each exit"],
        technique="typestate analysis over all normal and exceptional paths (helpers, context managers and loops inlined), and exhaustive exploration of the abstract states of the classes that keep resources",
        level_note="finite abstract states, explored to the fixpoint: about 30 histories of states per class. A failing release call is taken to have released; resources of other libraries (figures) and user-provided executors are not covered.",
    ),
    dict(
        id="C19", title="Results are reproducible: randomness only where it is documented",
        statement="Random numbers are drawn only by the operations that are documented to be random: held-out masks and cross-validation folds, simulated noise, randomly chosen mask shifts, Bernoulli and half-Gaussian masks, the row order of SART and the starting point of the norm estimation (power_method). No other function or method draws any; in configurations without a random part (SIRT, MLEM, FBP; PDHG and FISTA with diagonal preconditioning; noise functions with no noise asked for; sequential and interval shifts; point and MURA masks) nothing is drawn at all. A seed, 0 included, decides every draw of the function that takes it, the global random state is never set, and no returned value other than the measured times depends on the clock.",
        over=["inputs", "histories", "configurations"],
        quant="every function and method of the package, all call paths to a random draw, any arguments",
        why="two runs that agree in a test say nothing about other inputs and branches; a draw on a rare path or an unseeded draw changes results from run to run without failing anything",
        files=["src/corrct/param_tuning.py", "src/corrct/solvers.py", "src/corrct/struct_illum.py", "src/corrct/testing.py"],
        mech=[("seeded folds", "src/corrct/param_tuning.py: create_k_fold_test_masks"), ("norm estimation", "src/corrct/solvers.py: power_method"), ("diagonal preconditioning", "src/corrct/solvers.py: compute_diagonal_scaling"), ("shifts", "src/corrct/struct_illum.py: MaskGenerator.generate_collection")],
        observe=["returned values of repeated calls", "state of the global random generator"],
        technique="interprocedural effect analysis over the syntax tree (random draws and clock reads as effects, with call paths), and dependence of every draw on the seed in gated value numbers",
        level_note="all call paths of all functions. Randomness inside external libraries (scikit-image, SciPy, the executors' scheduling) is not seen. A helper that only the random operations use counts as part of them.",
    ),
    dict(
        id="C15", title="Simulated data are those of their definition",
        statement="The simulation functions make the data they describe, for every combination of their options: add_noise scales the clean data by photons and efficiency, adds the absolute value of a normally distributed background (5% spread unless given), then draws Poisson counts, then adds read-out noise, each only when asked for, and returns the scaled clean data and the mean background with it; create_sino and create_sino_transmission project the phantom at num_angles angles from the start to the end angle (end excluded), with the given attenuation volumes and point spread function, and add the noise of flux times dwell time; phantoms assign the four materials by grey level and give yields and attenuations per element, line and energy in their order, with Compton scattering last whenever a detector angle is given; error powers are root mean squares; reported pixel sizes are those of the re-scaled phantom.",
        over=["inputs", "configurations"],
        quant="all phantoms, options and their combinations, 1D to 3D, with random numbers as symbols",
        why="simulated data are random, so tests look at one seed and loose tolerances; a noise term scaled, ordered or skipped wrongly biases every study made with it",
        files=["src/corrct/testing.py"],
        mech=[("noise model", "src/corrct/testing.py: add_noise"), ("sinograms", "src/corrct/testing.py: create_sino, create_sino_transmission"), ("phantoms", "src/corrct/testing.py: phantom_assign_concentration, phantom_assign_concentration_multi")],
        observe=["returned sinograms, angles, phantoms, backgrounds"],
        technique="value numbering of the functions with inlined callees (custom abstract interpreter over the syntax tree) compared with reference texts of the definitions, random draws and material look-ups as uninterpreted functions",
        level_note="exact comparison of gated polynomial normal forms for all inputs. The segmentation of the nuclei phantom and the download helper are not covered.",
    ),
]

PROPS += [
    dict(
        id="N01", title="Solvers converge to the minimiser of their documented objective",
        statement="Given enough iterations, SIRT, SART, MLEM, FISTA and PDHG approach a minimiser of the sum of the data term and the regularisation penalties, and the data-term residual of a consistent, noise-free problem decreases towards zero.",
        over=["inputs", "configurations"], quant="every linear operator, data vector, data term, regularizer and initial solution",
        why="tests check the error after a fixed number of iterations for one phantom; convergence concerns every operator and the limit",
        files=["src/corrct/solvers.py"], mech=[("iterations", "src/corrct/solvers.py: Solver.*.__call__")], observe=["value returned by Solver.__call__ after many iterations"], technique="", level_note=""),
    dict(
        id="N02", title="Forward and back-projection kernels are numerically adjoint",
        statement="For every geometry, <A x, y> equals <x, A^T y> up to a small, documented tolerance, and projections approximate the line integrals of the volume with an error that vanishes with the sampling.",
        over=["inputs", "configurations"], quant="every volume, projection, geometry and backend (scikit-image, ASTRA CPU and GPU)",
        why="tests compare one random vector with a loose tolerance on one backend",
        files=["src/corrct/_projector_backends.py", "src/corrct/projectors.py"], mech=[("kernels", "src/corrct/_projector_backends.py: ProjectorBackend*.fp, bp")], observe=["values returned by fp and bp"], technique="", level_note=""),
    dict(
        id="N03", title="Alignment recovers the shifts that displaced the projections",
        statement="When projections are displaced by known shifts (integer or sub-pixel) and are consistent otherwise, the alignment procedures return these shifts within their documented precision, also with noise.",
        over=["inputs", "configurations"], quant="every object, shift vector, noise level and set of angles",
        why="tests use one phantom and a few shifts",
        files=["src/corrct/alignment/fitting.py", "src/corrct/alignment/shifts.py"], mech=[("correlation and fits", "src/corrct/alignment/fitting.py: fit_shifts_vu_xc, fit_shifts_u_sad")], observe=["fitted shifts"], technique="", level_note=""),
    dict(
        id="N04", title="The selected hyper-parameter is near the best achievable one",
        statement="The cross-validation and L-curve selections of a regularization weight are close, in reconstruction error, to the best weight of the range that was searched.",
        over=["inputs", "configurations"], quant="every data set, noise level, weight range and regularizer",
        why="tests check that a value is returned for one phantom",
        files=["src/corrct/param_tuning.py"], mech=[("selection", "src/corrct/param_tuning.py: fit_loss_min")], observe=["returned weight"], technique="", level_note=""),
    dict(
        id="N05", title="X-ray attenuation and fluorescence quantities match tabulated physics",
        statement="Attenuation coefficients, line energies and emission cross-sections agree with the reference tables of the elements and compounds, at every energy of the tables.",
        over=["inputs"], quant="every element, compound, line and energy",
        why="tests sample a few elements and energies",
        files=["src/corrct/physics/materials.py", "src/corrct/physics/xraylib_helper.py", "src/corrct/physics/xrf.py"], mech=[("look-ups", "src/corrct/physics/xraylib_helper.py")], observe=["returned coefficients and energies"], technique="", level_note=""),
    dict(
        id="N06", title="Simulated noise and estimated resolution have the right statistics",
        statement="Noise added to simulated projections is distributed with the requested moments, and the resolution estimated by Fourier ring correlation agrees with the one of the data, within statistical error.",
        over=["inputs", "histories"], quant="every phantom, dose, read-out noise, and random state",
        why="tests run with a few seeds, and a distribution is not decided by samples",
        files=["src/corrct/testing.py", "src/corrct/processing/post.py"], mech=[("noise", "src/corrct/testing.py: add_noise"), ("resolution", "src/corrct/processing/post.py: compute_frc, estimate_resolution")], observe=["noisy data", "estimated resolution"], technique="", level_note=""),
    dict(
        id="N07", title="Results are accurate to single precision",
        statement="With data in single precision, operators, data terms and solvers return values within a small relative rounding error of the exact result, with no overflow, underflow to zero, or loss of precision for the documented range of inputs.",
        over=["inputs", "configurations"], quant="every data type, scale and size of the data",
        why="tests use tolerances of the order of the phantom",
        files=["src/corrct/solvers.py", "src/corrct/operators.py", "src/corrct/data_terms.py"], mech=[("casts", "astype(np.float32) throughout")], observe=["returned values"], technique="", level_note=""),
]

NOT_APPLICABLE = {
    "N01": "convergence depends on the spectra of the operators and on the penalties at run time; no source analysis bounds them. What is decided from the source is that the iterations, proximals and norms are the documented ones (C25, C23, C13) and that what is reported describes them (C05)",
    "N02": "the kernels are compiled code of scikit-image and ASTRA, outside the source, and adjointness up to a tolerance is a numeric bound. What is decided is that geometry, pairing, flips and normalization handed to the kernels are right (C31, C06, C14)",
    "N03": "recovering a true displacement depends on the content of the images and on the noise. What is decided is that correlations, sub-pixel refinements and fits are the documented formulas (C22)",
    "N04": "optimality of a statistical selection depends on the data. What is decided is that each value is paired with its own loss in any schedule and that the minimum of the fitted curve is taken (C09)",
    "N05": "the values come from the tables of xraylib, external to the source. What is decided is how they are combined, and their units (C24, C16)",
    "N06": "a distribution and an estimator's error are run-time quantities. What is decided is that the noise is drawn from the documented distributions with the documented parameters (C15) and that the correlation is the documented formula (C26)",
    "N07": "the analysis works in exact real arithmetic; bounds on rounding need ranges of run-time values which the source does not state",
}
