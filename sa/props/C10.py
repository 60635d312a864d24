"""C10: options that do not exist and arguments that do not fit are rejected, and the existing ones are accepted in any letter case."""
from ..spec import table
from ..solverspec import fn

P = "corrct."
R = ["raise ValueError()"]
VG = "g = corrct.models.VolumeGeometry.get_default_from_data(d)"

# name, function, parameters, preparation, expression with {} in place of the option, valid names, whether their case matters
OPT = [
    ("data term of SIRT", "solvers.SIRT.__init__", "", [], "corrct.solvers.SIRT(data_term={}).data_term.info()", ["l2", "kl"], ["l1", "huber"]),
    ("data term of MLEM", "solvers.MLEM.__init__", "", [], "corrct.solvers.MLEM(data_term={}).data_term.info()", ["l2", "kl"], ["l1", ""]),
    ("data term of PDHG", "solvers.PDHG._initialize_data_fidelity_function", "", [], "corrct.solvers.PDHG(data_term={}).data_term.info()", ["l2", "l1", "kl"], ["l12", "ln"]),
    ("data term of FISTA", "solvers.FISTA._initialize_data_fidelity_function", "", [], "corrct.solvers.FISTA(data_term={}).data_term.info()", ["l2"], ["l1", "kl"]),
    ("test data term of PDHG", "solvers.PDHG._initialize_data_fidelity_function", "", [], "corrct.solvers.PDHG(data_term_test={}).data_term_test.info()", ["l2", "l1", "kl"], ["l12"]),
    ("FBP filter", "filters.FilterFBP.__init__", "", [], "corrct.filters.FilterFBP({}).pad_mode", ["ramp", "shepp-logan", "cosine", "hamming", "hann"], ["ram-lak", "shepp", ""]),
    ("binning of data-dependent filters", "filters.FilterMR.__init__", "A: corrct.operators.BaseTransform", [], "corrct.filters.FilterMR(A, binning_type={}).binning_type", ["exponential", "incremental"], ["custom", "linear"]),
    ("scale of the fit of losses", "param_tuning.fit_func_min", "h: Arr[1], v: Arr[1]", [], "corrct.param_tuning.fit_func_min(h, v, scale={})", ["linear", "log"], ["log10", ""]),
    ("scale of the fit of a parabola", "alignment.fitting.fit_parabola_min", "h: Arr[1], v: Arr[1]", [], "corrct.alignment.fitting.fit_parabola_min(h, v, scale={})", ["linear", "log"], ["log10", ""]),
    ("method of recentering", "alignment.centering.RecenterVolume.as_reference", "p: corrct.models.ProjectionGeometry, a: Arr[1], s: Arr[2], x: Arr[3], y: Arr[3]", ["c = corrct.alignment.RecenterVolume(p, a)"], "c.as_reference(s, x, y, method={})", ["com", "xc"], ["max", "center"]),
    ("method of horizontal pre-alignment", "alignment.shifts.DetectorShiftsPRE.fit_u", "x: Arr[3], a: Arr[1]", ["c = corrct.alignment.DetectorShiftsPRE(x, a)"], "c.fit_u(method={})", ["com", "max"], ["xc", "mean"]),
    ("sequence of the mask shifts", "struct_illum.MaskGenerator.generate_collection", "", ["m = corrct.struct_illum.MaskGeneratorPoint([8, 8], 1.0)"], "m.generate_collection(shift_type={}).num_buckets", ["random", "interval", "sequential"], ["spiral", "rnd"]),
    ("target of the taper", "processing.misc.circular_mask", "n: int, r: float", [], "corrct.processing.circular_mask([n, n], r, taper_func='cos', taper_target={})", ["edge", "diagonal"], ["corner", "side"]),
    ("function of the taper", "processing.misc.circular_mask", "n: int, r: float", [], "corrct.processing.circular_mask([n, n], r, taper_func={})", ["cos"], ["hann", "linear"]),
    ("domain of the azimuthal integration", "processing.misc.azimuthal_integration", "x: Arr[2]", [], "corrct.processing.misc.azimuthal_integration(x, domain={})", ["direct", "fourier"], ["real", "dct"]),
    ("position of the crossing", "processing.misc.lines_intersection", "x: Arr[1], l: float", [], "corrct.processing.misc.lines_intersection(x, l, position={})", ["first", "last"], []),
    ("shape of the emission line", "physics.attenuation.plot_emission_line_attenuation", "t: float, e: float, f: float", [], "corrct.physics.attenuation.plot_emission_line_attenuation('Fe', t, e, f, line_shape={})", ["gaussian", "lorentzian", "sech**2"], ["voigt", "box"]),
    ("shape of the beam", "physics.pencil_beam_profile", "v: float, w: float", [], "corrct.physics.pencil_beam_profile(v, w, beam_shape={})", ["gaussian", "lorentzian", "sech**2"], ["voigt", "box"]),
    ("domain of the displayed filters", "physics.phase.plot_filter_responses", "n: int, q: float, d: float, w: float, r: float", [], "corrct.physics.phase.plot_filter_responses(n, q, d, w, r, domain={})", ["fourier", "direct"], ["real", "time"]),
    ("phase filter", "physics.phase.get_propagation_filter", "n: int, q: float, d: float, w: float, r: float", [], "corrct.physics.phase.get_propagation_filter([n, n], q, d, w, r, filter_type={})", ["ctf", "tie"], ["paganin", "wiener"]),
    ("applied phase filter", "physics.phase.apply_propagation_filter", "x: Arr[3], q: float, d: float, w: float, r: float", [], "corrct.physics.phase.apply_propagation_filter(x, q, d, w, r, filter_type={})", ["ctf", "tie"], ["paganin", "wiener"]),
    ("direction of the rotation", "models.get_rot_axis_dir", "", [], "corrct.models.get_rot_axis_dir({})", ["clockwise", "counter-clockwise"], ["anticlockwise", "left"]),
    ("direction of the rotation of a parallel beam", "models.get_rot_axis_dir", "", [], "corrct.models.get_prj_geom_parallel(rot_axis_dir={}).rot_dir_xyz", ["clockwise", "counter-clockwise"], ["anticlockwise"]),
    ("direction of the rotation of a cone beam", "models.get_rot_axis_dir", "l: float", [], "corrct.models.get_prj_geom_cone(src_to_sam_dist=l, rot_axis_dir={}).rot_dir_xyz", ["clockwise", "counter-clockwise"], ["anticlockwise"]),
    ("Fourier-domain regularizer", "regularizers.Regularizer_fft.initialize_sigma_tau", "w: float, x: Arr[2]", ["r = corrct.regularizers.Regularizer_fft(w, fft_filter={})"], "(r.initialize_sigma_tau(x), r.sigma)", ["delta", "exp", "exp2"], ["gauss", "exp3"]),
]
# options that are only accepted as they are written
EXACT = [
    ("projector", "projectors.ProjectorUncorrected.__init__", "n: int, a: Arr[1]", [], "corrct.projectors.ProjectorUncorrected([n, n], a, backend={}).vol_shape", ["numpy", "cuda", "SKIMAGE"]),
    ("attenuation-correcting projector", "projectors.ProjectorAttenuationXRF.__init__", "n: int, a: Arr[1]", [], "corrct.projectors.ProjectorAttenuationXRF([n, n], a, backend={}).vol_shape", ["numpy"]),
    ("ghost imaging projector", "struct_illum.ProjectorGhostImaging.__init__", "m: Arr[3]", [], "corrct.struct_illum.ProjectorGhostImaging(m, backend={}).vol_shape", ["jax", "cupy"]),
    ("projection geometry", "models.ProjectionGeometry.ndim", "s: Arr[1]", [], "corrct.models.ProjectionGeometry({}, s, s, s, s, s).ndim", ["helical", "fan"]),
]


def option_rows():
    out = []
    for nm, site, params, prep, e, good, bad in OPT:
        for o in bad:
            out.append((f"{nm}: unknown {o!r}", site, "an unknown option is not rejected", fn(params, *[x.format(repr(o)) for x in prep], ret=e.format(repr(o))), fn(params, *R, ret="0")))
        for o in good:
            for v in (o.upper(), o.capitalize()):
                out.append((f"{nm}: {v!r}", site, "an option is not accepted in another letter case, or is taken for another one", fn(params, *[x.format(repr(v)) for x in prep], ret=e.format(repr(v))), fn(params, *[x.format(repr(o)) for x in prep], ret=e.format(repr(o)))))
    for nm, site, params, prep, e, bad in EXACT:
        for o in bad:
            out.append((f"{nm}: unknown {o!r}", site, "an unknown option is not rejected", fn(params, *[x.format(repr(o)) for x in prep], ret=e.format(repr(o))), fn(params, *R, ret="0")))
    return out


SOLVERS = ("SIRT", "PDHG", "MLEM", "FISTA")
L2 = "A: corrct.operators.BaseTransform"
C3 = "corrct.struct_illum.MaskCollection"
# name, function, parameters, call that must always be refused
NEVER = [
    ("FBP of a single line", "solvers.FBP.__call__", L2 + ", b: Arr[1]", "corrct.solvers.FBP()(A, b)"),
    ("SART without a back-projection", "solvers.SART.__call__", "A: Callable, b: np.ndarray", "corrct.solvers.SART()(A, b, 3, A_num_rows=4)"),
    ("SART without the number of rows", "solvers.SART.__call__", "A: Callable, B: Callable, b: np.ndarray", "corrct.solvers.SART()(A, b, 3, At=B)"),
    ("FISTA with two regularizers", "solvers.FISTA.__init__", "w: float", "corrct.solvers.FISTA(regularizer=[corrct.regularizers.Regularizer_l1(w), corrct.regularizers.Regularizer_l1(w)])"),
    ("l1 data term object given to SIRT", "solvers.SIRT.__init__", "", "corrct.solvers.SIRT(data_term=corrct.data_terms.DataFidelity_l1())"),
    ("l1 data term object given to MLEM", "solvers.MLEM.__init__", "", "corrct.solvers.MLEM(data_term=corrct.data_terms.DataFidelity_l1())"),
    ("KL data term object given to FISTA", "solvers.FISTA._initialize_data_fidelity_function", "", "corrct.solvers.FISTA(data_term=corrct.data_terms.DataFidelity_KL())"),
    ("number given to FISTA as data term", "solvers.FISTA._initialize_data_fidelity_function", "w: float", "corrct.solvers.FISTA(data_term=w)"),
    ("cone geometry: 2D points", "alignment.cone_beam.ConeBeamGeometry", "p: float, q: float", "corrct.alignment.cone_beam._get_rot_axis_angle_deg([[p, q], [p, q]], [[q, p], [q, p]])"),
    ("mask shifts: unknown sequence", "struct_illum.MaskGenerator.generate_collection", "", "corrct.struct_illum.MaskGeneratorPoint([8, 8], 1.0).generate_collection(shift_type='spiral')"),
    ("2D masks that are a single mask", "struct_illum.MaskCollection.__init__", "m: Arr[2]", C3 + "(m)"),
    ("3D masks that are a single mask", "struct_illum.MaskCollection.__init__", "m: Arr[3]", C3 + "(m, mask_dims=3)"),
    ("decoding masks that are a single mask", "struct_illum.MaskCollection.__init__", "m: Arr[3], d: Arr[2]", C3 + "(m, masks_dec=d)"),
    ("circular mask: origin with too few coordinates", "processing.misc.circular_mask", "n: int, x: Arr[1], y: Arr[1]", "corrct.processing.circular_mask([n, n, n], vol_origin_zxy=[x, y])"),
    ("circular mask: origin with too many coordinates", "processing.misc.circular_mask", "n: int, x: float, y: float, z: float", "corrct.processing.circular_mask([n, n], vol_origin_zxy=[x, y, z])"),
    ("circular mask: taper that is a number", "processing.misc.circular_mask", "n: int, x: float", "corrct.processing.circular_mask([n, n], taper_func=3)"),
    ("azimuthal integration: more axes than dimensions", "processing.misc.azimuthal_integration", "x: Arr[1]", "corrct.processing.misc.azimuthal_integration(x, axes=(-2, -1))"),
    ("azimuthal integration: no axes", "processing.misc.azimuthal_integration", "x: Arr[2]", "corrct.processing.misc.azimuthal_integration(x, axes=())"),
    ("background estimation: too many kernel dimensions", "processing.pre.snip", "x: Arr[2]", "corrct.processing.pre.snip(x, kernel_dims=3)"),
    ("background estimation: no kernel dimensions", "processing.pre.snip", "x: Arr[2]", "corrct.processing.pre.snip(x, kernel_dims=0)"),
    ("Fourier ring correlation of an image and a volume", "processing.post.compute_frc", "x: Arr[2], y: Arr[3]", "corrct.processing.post.compute_frc(x, y)"),
    ("bias of too few realizations' dimensions", "processing.post.compute_reconstruction_bias_variance_maps", "x: Arr[2], y: Arr[2]", "corrct.processing.post.compute_reconstruction_bias_variance_maps(x, y)"),
    ("limits without values", "processing.misc.lines_intersection", "x: Arr[1], l: float", "corrct.processing.misc.lines_intersection(x, l, x_lims=(None, None))"),
    ("detector with negative surface", "physics.xrf.DetectorXRF.__post_init__", "d: float", "corrct.physics.xrf.DetectorXRF(surface_mm2=-1.0, distance_mm=d)"),
    ("detector at distance zero", "physics.xrf.DetectorXRF.__post_init__", "s: float", "corrct.physics.xrf.DetectorXRF(surface_mm2=s, distance_mm=0.0)"),
    ("detector at negative distance", "physics.xrf.DetectorXRF.__post_init__", "s: float", "corrct.physics.xrf.DetectorXRF(surface_mm2=s, distance_mm=-2.0)"),
    ("empty list of lines", "physics.xrf.LinesSiegbahn.get_lines", "", "corrct.physics.xrf.get_energy('Fe', [])"),
    ("attenuation without volumes", "physics.attenuation.AttenuationVolume.__init__", "a: Arr[1]", "corrct.physics.attenuation.AttenuationVolume(None, None, a, [0.5])"),
    ("attenuation of a line", "physics.attenuation.AttenuationVolume.__init__", "x: Arr[1], a: Arr[1]", "corrct.physics.attenuation.AttenuationVolume(x, None, a, [0.5])"),
    ("attenuation of a 4D volume", "physics.attenuation.AttenuationVolume.__init__", "x: Arr[4], a: Arr[1]", "corrct.physics.attenuation.AttenuationVolume(None, x, a, [0.5])"),
    ("attenuation with a detector that is a string", "physics.attenuation.AttenuationVolume.__init__", "x: Arr[2], a: Arr[1]", "corrct.physics.attenuation.AttenuationVolume(x, x, a, ['left'])"),
    ("materials: more compositions than fractions", "physics.materials.VolumeMaterial.__init__", "x: Arr[2]", "corrct.physics.materials.VolumeMaterial([x], ['Fe', 'Cu'], 1.0)"),
    ("materials: fewer compositions than fractions", "physics.materials.VolumeMaterial.__init__", "x: Arr[2], y: Arr[2]", "corrct.physics.materials.VolumeMaterial([x, y], ['Fe'], 1.0)"),
    ("materials: none", "physics.materials.VolumeMaterial.__init__", "", "corrct.physics.materials.VolumeMaterial([], [], 1.0)"),
    ("materials: different dimensions", "physics.materials.VolumeMaterial.__init__", "x: Arr[2], y: Arr[3]", "corrct.physics.materials.VolumeMaterial([x, y], ['Fe', 'Cu'], 1.0)"),
    ("projector of a line", "projectors.ProjectorUncorrected.__init__", "n: int, a: Arr[1]", "corrct.projectors.ProjectorUncorrected([n], a, backend='skimage')"),
    ("projector of a 4D volume", "projectors.ProjectorUncorrected.__init__", "n: int, a: Arr[1]", "corrct.projectors.ProjectorUncorrected([n, n, n, n], a, backend='skimage')"),
    ("projector of a volume that is not square", "projectors.ProjectorUncorrected.__init__", "a: Arr[1]", "corrct.projectors.ProjectorUncorrected([16, 17], a, backend='skimage')"),
    ("skimage projector of a volume", "_projector_backends.ProjectorBackendSKimage.initialize_geometry", "a: Arr[1]", "corrct.projectors.ProjectorUncorrected([16, 16, 16], a, backend='skimage')"),
    ("skimage projector with axis shifts", "_projector_backends.ProjectorBackendSKimage.initialize_geometry", "n: int, a: Arr[1], r: float", "corrct.projectors.ProjectorUncorrected([n, n], a, rot_axis_shift_pix=r, backend='skimage')"),
    ("skimage projector with a geometry", "projectors.ProjectorUncorrected.__init__", "n: int, a: Arr[1], p: corrct.models.ProjectionGeometry", "corrct.projectors.ProjectorUncorrected([n, n], a, prj_geom=p, backend='skimage')"),
    ("2D PSF of a 2D projector", "projectors.ProjectorUncorrected._set_psf", "n: int, a: Arr[1]", "corrct.projectors.ProjectorUncorrected([n, n], a, psf=[[1.0, 2.0, 1.0], [2.0, 4.0, 2.0]], backend='skimage')"),
    ("XRF projector with too few weights", "projectors.ProjectorAttenuationXRF.__init__", "n: int, a: Arr[1], v: float, w: float", "corrct.projectors.ProjectorAttenuationXRF([n, n], a, angles_detectors_rad=[0.1, 0.2, 0.3], weights_detectors=[v, w], backend='skimage')"),
    ("tilt axis with two components", "models.ProjectionGeometry.set_detector_tilt", "p: corrct.models.ProjectionGeometry, t: float", "p.set_detector_tilt(t, (1, 0))"),
    ("tilt axes in a cube", "models.ProjectionGeometry.set_detector_tilt", "p: corrct.models.ProjectionGeometry, t: float, x: Arr[3]", "p.set_detector_tilt(t, x[..., :3])"),
    ("one tilt axis for two angles, of two", "models.ProjectionGeometry.set_detector_tilt", "p: corrct.models.ProjectionGeometry, t: float", "p.set_detector_tilt([t, t], [(1, 0, 0), (0, 1, 0), (0, 0, 1)])"),
    ("parallel geometry without a horizontal detector axis", "models.get_prj_geom_parallel", "s: Arr[2]", "corrct.models.get_prj_geom_parallel(data_shape=s.shape, data_format='vw')"),
    ("3D parallel geometry without a vertical detector axis", "models.get_prj_geom_parallel", "s: Arr[2]", "corrct.models.get_prj_geom_parallel(data_shape=s.shape, data_format='wu', geom_type='3d')"),
    ("cone geometry without a vertical detector axis", "models.get_prj_geom_cone", "s: Arr[2]", "corrct.models.get_prj_geom_cone(src_to_sam_dist=1.0, data_shape=s.shape, data_format='wu')"),
    ("cone geometry without a horizontal detector axis", "models.get_prj_geom_cone", "s: Arr[2]", "corrct.models.get_prj_geom_cone(src_to_sam_dist=1.0, data_shape=s.shape, data_format='vw')"),
    ("volume from data without a horizontal detector axis", "models.get_vol_geom_from_data", "s: Arr[2]", "corrct.models.get_vol_geom_from_data(s, data_format='vw')"),
    ("volume from data with three paddings", "models.get_vol_geom_from_data", "s: Arr[3]", "corrct.models.get_vol_geom_from_data(s, padding_u=(1, 2, 3))"),
    ("volume geometry of a line", "models.get_vol_geom_from_volume", "s: Arr[1]", "corrct.models.get_vol_geom_from_volume(s)"),
    ("2D displacement of a 3D geometry", "models.ProjectionGeometry.project_displacement_to_detector", "r: float, s: float", "corrct.models.get_prj_geom_parallel(geom_type='3d').project_displacement_to_detector((r, s))"),
    ("3D displacement of a 2D geometry", "models.ProjectionGeometry.project_displacement_to_detector", "r: float", "corrct.models.get_prj_geom_parallel(geom_type='2d').project_displacement_to_detector((r, r, r))"),
    ("vertical alignment of a 2D data set", "alignment.shifts.DetectorShiftsBase._check_v", "x: Arr[2], a: Arr[1]", "corrct.alignment.DetectorShiftsPRE(x, a).fit_v()"),
    ("peak of a volume", "alignment.fitting.refine_max_position_2d", "x: Arr[3]", "corrct.alignment.fitting.refine_max_position_2d(x)"),
    ("peak of a line, in 2D", "alignment.fitting.refine_max_position_2d", "x: Arr[1]", "corrct.alignment.fitting.refine_max_position_2d(x)"),
    ("peak of a volume, in 1D", "alignment.fitting.refine_max_position_1d", "x: Arr[3]", "corrct.alignment.fitting.refine_max_position_1d(x)"),
    ("peak region of a volume", "alignment.fitting.extract_peak_regions_1d", "x: Arr[3]", "corrct.alignment.fitting.extract_peak_regions_1d(x)"),
    ("rotation between images of other dimensions", "alignment.fitting.fit_image_rotation", "x: Arr[2], y: Arr[3]", "corrct.alignment.fitting.fit_image_rotation_and_scale(x, y)"),
    ("two losses", "param_tuning.fit_func_min", "x: float, y: float", "corrct.param_tuning.fit_func_min([x, y], np.array([x, y]))"),
    ("losses and values of other numbers", "param_tuning.fit_func_min", "x: float", "corrct.param_tuning.fit_func_min([x, x, x], np.array([x, x, x, x]))"),
    ("two points of a parabola", "alignment.fitting.fit_parabola_min", "x: float", "corrct.alignment.fitting.fit_parabola_min([x, x], [x, x])"),
    ("points of a parabola of other numbers", "alignment.fitting.fit_parabola_min", "x: float", "corrct.alignment.fitting.fit_parabola_min([x, x, x], [x, x, x, x])"),
    ("compton scattering without direction", "physics.materials.VolumeMaterial.get_compton_scattering", "x: Arr[2], e: float", "corrct.physics.materials.VolumeMaterial([x], ['Fe'], 1.0).get_compton_scattering(e)"),
    ("absolute value of callables", "operators.TransformFunctions.absolute", "A: Callable, n: int", "corrct.operators.TransformFunctions((n,), (n,), A, A).absolute()"),
]
# shapes that differ, written out
NEVER += [
    ("decoding masks of another size", "struct_illum.MaskCollection.__init__", "", C3 + "(np.ones((3, 4, 5)), masks_dec=np.ones((3, 4, 6)))"),
    ("another number of decoding masks", "struct_illum.MaskCollection.__init__", "", C3 + "(np.ones((3, 4, 5)), masks_dec=np.ones((2, 4, 5)))"),
    ("Fourier ring correlation of images of other widths", "processing.post.compute_frc", "", "corrct.processing.post.compute_frc(np.ones((4, 6)), np.ones((4, 8)))"),
    ("Fourier ring correlation of images of other heights", "processing.post.compute_frc", "", "corrct.processing.post.compute_frc(np.ones((6, 4)), np.ones((8, 4)))"),
    ("bias against a reference of another width", "processing.post.compute_reconstruction_bias_variance_maps", "", "corrct.processing.post.compute_reconstruction_bias_variance_maps(np.ones((4, 6)), np.ones((3, 4, 8)))"),
    ("bias against a reference of another height", "processing.post.compute_reconstruction_bias_variance_maps", "", "corrct.processing.post.compute_reconstruction_bias_variance_maps(np.ones((6, 4)), np.ones((3, 8, 4)))"),
    ("attenuation of volumes of other widths", "physics.attenuation.AttenuationVolume.__init__", "a: Arr[1]", "corrct.physics.attenuation.AttenuationVolume(np.ones((4, 6)), np.ones((4, 8)), a, [0.5])"),
    ("attenuation of volumes of other heights", "physics.attenuation.AttenuationVolume.__init__", "a: Arr[1]", "corrct.physics.attenuation.AttenuationVolume(np.ones((6, 4)), np.ones((8, 4)), a, [0.5])"),
    ("materials of other widths", "physics.materials.VolumeMaterial.__init__", "", "corrct.physics.materials.VolumeMaterial([np.ones((4, 6)), np.ones((4, 8))], ['Fe', 'Cu'], 1.0)"),
    ("materials of other heights", "physics.materials.VolumeMaterial.__init__", "", "corrct.physics.materials.VolumeMaterial([np.ones((6, 4)), np.ones((8, 4))], ['Fe', 'Cu'], 1.0)"),
    ("rotation between images of other widths", "alignment.fitting.fit_image_rotation_and_scale", "", "corrct.alignment.fitting.fit_image_rotation_and_scale(np.ones((4, 6)), np.ones((4, 8)))"),
    ("XRF projector with attenuation maps of another size", "projectors.ProjectorAttenuationXRF.__init__", "a: Arr[1]", "corrct.projectors.ProjectorAttenuationXRF([16, 16], a, angles_detectors_rad=[0.1], att_maps=np.ones((7, 1, 16, 18)), backend='skimage')"),
    ("XRF projector with attenuation maps of another number of detectors", "projectors.ProjectorAttenuationXRF.__init__", "a: Arr[1]", "corrct.projectors.ProjectorAttenuationXRF([16, 16], a, angles_detectors_rad=[0.1], att_maps=np.ones((7, 2, 16, 16)), backend='skimage')"),
    ("a vertical and two horizontal shifts", "models.combine_shifts_vu", "v: float", "corrct.models.combine_shifts_vu(np.array([v]), np.array([v, v]))"),
    ("vertical shifts in a square", "models.combine_shifts_vu", "v: float", "corrct.models.combine_shifts_vu(np.ones((2, 2)), np.array([v, v, v, v]))"),
    ("horizontal shifts in a square", "models.combine_shifts_vu", "v: float", "corrct.models.combine_shifts_vu(np.array([v, v, v, v]), np.ones((2, 2)))"),
    ("three detector positions, then two", "models.ProjectionGeometry.set_detector_shifts_vu", "v: float", "corrct.models.ProjectionGeometry('parallel3d', np.zeros((1, 3)), np.ones((3, 3)), np.ones((1, 3)), np.ones((1, 3)), np.ones(3)).set_detector_shifts_vu(np.ones((2, 2)))"),
    ("three source positions, then two", "models.ProjectionGeometry.set_source_shifts_vu", "v: float", "corrct.models.ProjectionGeometry('cone', np.ones((3, 3)), np.ones((1, 3)), np.ones((1, 3)), np.ones((1, 3)), np.ones(3)).set_source_shifts_vu(np.ones((2, 2)))"),
    ("three shifts and two distances", "models.ProjectionGeometry.set_detector_shifts_vu", "v: float", "corrct.models.get_prj_geom_parallel().set_detector_shifts_vu(np.ones((2, 3)), det_dist_y=np.ones((2,)))"),
    ("distances in a square", "models.ProjectionGeometry.set_detector_shifts_vu", "v: float", "corrct.models.get_prj_geom_parallel().set_detector_shifts_vu(np.ones((2, 4)), det_dist_y=np.ones((2, 2)))"),
    ("angles and projections of other numbers", "alignment.shifts.DetectorShiftsBase.__init__", "", "corrct.alignment.DetectorShiftsPRE(np.ones((4, 6, 8)), np.ones((5,)))"),
    ("margins larger than the image", "processing.pre.background_from_margin", "", "corrct.processing.pre.background_from_margin(np.ones((3, 4, 6)), margin=4)"),
    ("two margins larger than the image", "processing.pre.background_from_margin", "", "corrct.processing.pre.background_from_margin(np.ones((3, 4, 6)), margin=(2, 5))"),
    ("margins per line", "processing.pre.background_from_margin", "", "corrct.processing.pre.background_from_margin(np.ones((3, 4, 6)), margin=((1, 2), (1, 2)))"),
    ("marker points of a volume", "alignment.cone_beam.FitConeBeamGeometry.__init__", "", "corrct.alignment.cone_beam.FitConeBeamGeometry([10, 10, 10], np.ones((2, 5)), np.ones((2, 5)))"),
    ("marker points with three coordinates", "alignment.cone_beam.FitConeBeamGeometry.__init__", "", "corrct.alignment.cone_beam.FitConeBeamGeometry([10, 10], np.ones((3, 5)), np.ones((2, 5)))"),
    ("second marker with three coordinates", "alignment.cone_beam.FitConeBeamGeometry.__init__", "", "corrct.alignment.cone_beam.FitConeBeamGeometry([10, 10], np.ones((2, 5)), np.ones((3, 5)))"),
    ("marker points in a line", "alignment.cone_beam.FitConeBeamGeometry.__init__", "", "corrct.alignment.cone_beam.FitConeBeamGeometry([10, 10], np.ones((5,)), np.ones((2, 5)))"),
    ("ghost imaging of another field of view", "struct_illum.ProjectorGhostTomography.__init__", "m: Arr[3], a: Arr[1]", "corrct.struct_illum.ProjectorGhostTomography(corrct.struct_illum.MaskCollection(np.ones((9, 5)), mask_dims=1), corrct.projectors.ProjectorUncorrected([16, 16], a, backend='skimage'), backend='numpy')"),
]
for _s in SOLVERS:
    NEVER.append((f"number given to {_s} as regularizer", f"solvers.Solver._initialize_regularizer", "", f"corrct.solvers.{_s}(regularizer=3)"))
    NEVER.append((f"number among the regularizers given to {_s}", f"solvers.Solver._initialize_regularizer", "w: float", f"corrct.solvers.{_s}(regularizer=[corrct.regularizers.Regularizer_l1(w), 3])"))
    NEVER.append((f"unknown string given to {_s} as regularizer", f"solvers.Solver._initialize_regularizer", "", f"corrct.solvers.{_s}(regularizer='l1')"))
for _g in ("TV2D(w)", "TV1D(w)", "lap2D(w)", "smooth2D(w)", "l1med(w)", "l2med(w)", "TNV(w)", "VTV(w)", "vSVD(w)", "HubTV2D(w, 1.0)"):
    NEVER.append((f"FISTA with {_g.split('(')[0]}, which has no primal proximal", "solvers.FISTA.__init__", "w: float", f"corrct.solvers.FISTA(regularizer=corrct.regularizers.Regularizer_{_g})"))
for _d in ("l1", "l12", "Huber(1.0)", "KL", "ln"):
    NEVER.append((f"{_d} given to FISTA as data term", "solvers.FISTA._initialize_data_fidelity_function", "", f"corrct.solvers.FISTA(data_term=corrct.data_terms.DataFidelity_{_d}{'' if '(' in _d else '()'})"))
for _g in ("l1(w)", "TV2D(w)", "smooth2D(w)", "l1swl(w, 'db2', 2)", "l1dwl(w, 'db2', 2)", "fft(w)"):
    for _m in ("initialize_dual()", "compute_update_primal(x)", "update_dual(x, x)"):
        if _g == "l1(w)" and _m.startswith("update_dual"):
            continue  # the identity needs no initialization
        NEVER.append((f"{_g.split('(')[0]}: {_m.split('(')[0]} before its initialization", "regularizers.BaseRegularizer." + _m.split("(")[0], "w: float, x: Arr[2]", f"corrct.regularizers.Regularizer_{_g}.{_m}"))


def mismatch_rows():
    return [(nm, site, "an argument that does not fit is not rejected", fn(params, e, ret="0"), fn(params, *R, ret="0")) for nm, site, params, e in NEVER]


def rows():
    return option_rows() + mismatch_rows()


def run(chk, prog):
    for rule, desc, rr in (("options", "unknown options are rejected, known ones accepted in any letter case", option_rows()),
                           ("mismatch", "arguments that do not fit together are rejected", mismatch_rows())):
        chk.rule(rule, desc)
        chk.need(rule, table(chk, prog, rule, rr))
