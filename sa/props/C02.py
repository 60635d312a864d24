"""C02: using an object leaves no trace: whatever was computed before with it, each later result is the one a fresh object gives."""
import re
from ..spec import table
from ..solverspec import fn, OPQ, S
from ..opspec import OPERATORS, ARGS, GUARD, O, P, BKOPQ

FA = "h: np.ndarray, x: np.ndarray, x2: np.ndarray, A: corrct.operators.BaseTransform"
FG = "if x is None or x2 is None or not isinstance(h, np.ndarray):\n    raise ValueError()\n"
F = "corrct.filters."
R = "corrct.regularizers."
D = "corrct.data_terms."
NAMES = ("x", "y", "v", "p", "q", "b", "sigma", "tau", "A", "n", "i")


def second(t):
    return re.sub(r"\b(" + "|".join(NAMES) + r")\b(?!2)", r"\g<1>2", t)


class Use:
    """One use of the object: statements and the value they give; `inplace` when the value is an argument updated in place."""

    def __init__(self, label, meth, ret, body="", write=True):
        self.label, self.meth, self.ret, self.body, self.write = label, meth, ret, body, write


def grid(out, name, cls, args, pre, ctor, uses, opq, write=True, pairs=None):
    def row(nm, meth, what, d, r, ret):
        out.append((nm, f"{cls}.{meth}", what, fn(args, *d, ret=ret), fn(args, *r, ret=ret), dict(opaque=opq)))
    for u in uses:
        for w in uses:
            if pairs is not None and (u.label, w.label) not in pairs:
                continue
            a = [u.body, f"r1 = {u.ret}"]
            b = [second(w.body), f"r2 = {second(w.ret)}"]
            row(f"{name}: {w.label} after {u.label}", w.meth, f"the result depends on an earlier {u.label} with the same object", [pre, ctor, *a, *b], [pre, ctor, *b], "r2")
            row(f"{name}: {u.label} then {w.label}", w.meth, f"a result handed out earlier by {u.label} is changed", [pre, ctor, *a, *b], [pre, ctor, *a], "r1")
            if u.write and w.write:
                row(f"{name}: {w.label} after writing to the result of {u.label}", u.meth, f"the result of {u.label} is internal storage: writing to it changes a later {w.label}",
                    [pre, ctor, *a, "r1[...] = 7", *b], [pre, ctor, *b], "r2")


def operators(out):
    for name, cls, ctor, opq in OPERATORS:
        svd = cls.endswith("TransformSVD")
        uses = [Use("application", "__call__", "op(x)"), Use("transpose", "__call__", "op.T(y)", "op(x)" if svd else ""), Use("absolute", "absolute", "op.absolute()(x)")]
        if cls.split(".")[0] == "projectors":
            uses.append(Use("transposed absolute", "absolute", "op.T.absolute()(y)"))
        if name == "projector":
            uses += [Use("angle projection", "fp_angle", "op.fp_angle(x, i)"), Use("angle back-projection", "bp_angle", "op.bp_angle(v, i)")]
        if "Wavelet" in cls or "Functions" in cls:
            uses = uses[:2]
        pairs = None
        if cls.endswith("DecimatedWavelet"):  # the layout of the coefficients is recorded by the application, and only depends on the shape
            pairs = {(u.label, w.label) for u in uses for w in uses if (u.label, w.label) != ("application", "transpose")}
        grid(out, name, cls, ARGS + ", i: int, v2: np.ndarray, i2: int", GUARD, ctor, uses, opq, pairs=pairs)


def filters(out):
    for name, cls, ctor, opq in (
            ("custom filter", "filters.FilterCustom", f"f = {F}FilterCustom(h)", ()),
            ("custom filter bank", "filters.FilterCustom", "if len(h.shape) != 2 or h.shape[-2] != 3:\n    raise ValueError()\n" + f"f = {F}FilterCustom(h)", ()),
            ("ramp filter", "filters.FilterFBP", f"f = {F}FilterFBP('hann')", ()),
            ("ramp filter, complex", "filters.FilterFBP", f"f = {F}FilterFBP('ramp', use_rfft=False)", ()),
            ("data-dependent filter", "filters.FilterMR", f"f = {F}FilterMR(projector=A)", OPQ + ("filters.create_basis",))):
        uses = [Use("filtering", "__call__", "f(x)"), Use("filter application", "apply_filter", "f.apply_filter(x)", "f.compute_filter(x)"), Use("Fourier filter", "filter_fourier", "f.filter_fourier", "f.compute_filter(x)"),
                Use("real-space filter", "filter_real", "f.filter_real", "f.compute_filter(x)")]
        grid(out, name, cls, FA, FG, ctor, uses, opq, pairs=None)


REGS = {
    "Grad": "Regularizer_Grad(w)", "TV1D": "Regularizer_TV1D(w)", "TV2D": "Regularizer_TV2D(w)", "TV3D": "Regularizer_TV3D(w)", "HubTV2D": "Regularizer_HubTV2D(w, 0.5)",
    "smooth2D": "Regularizer_smooth2D(w)", "lap2D": "Regularizer_lap2D(w)", "lap3D": "Regularizer_lap3D(w)", "l1": "Regularizer_l1(w)",
    "l1swl": "Regularizer_l1swl(w, 'db2', 2)", "l12swl": "Regularizer_l12swl(w, 'db2', 2)", "Hub_swl": "Regularizer_Hub_swl(w, 'db2', 2)",
    "l1dwl": "Regularizer_l1dwl(w, 'db2', 2)", "l12dwl": "Regularizer_l12dwl(w, 'db2', 2)", "l1med": "Regularizer_l1med(w)", "l2med": "Regularizer_l2med(w)",
    "l1swl, normalized": "Regularizer_l1swl(w, 'db2', 2, normalized=True)",
    "fft": "Regularizer_fft(w)", "fft, l1": "Regularizer_fft(w, fft_filter='delta', norm=corrct.data_terms.DataFidelity_l1())", "TNV": "Regularizer_TNV(w)", "VTV": "Regularizer_VTV(w)", "lnswl": "Regularizer_lnswl(w, 'db2', 2)",
    "vl1wl": "Regularizer_vl1wl(w, 'db2', 2)", "vSVD": "Regularizer_vSVD(w)", "lower": "Constraint_LowerLimit(w)", "upper": "Constraint_UpperLimit(w)",
}


PRIMAL = ("l1", "l1swl, normalized", "l1dwl", "fft, l1", "lower", "upper")


def regularizers(out):
    args = "p: np.ndarray, p2: np.ndarray, q: np.ndarray, q2: np.ndarray, w: float, tau: float, tau2: float"
    from ..model import PKG
    for nm, ctor in REGS.items():
        cls = "regularizers." + ctor.split("(")[0]
        init = "s = o.initialize_sigma_tau(p)"
        step = init + "\nd = o.initialize_dual()\no.update_dual(d, q)\no.apply_proximal_dual(d)"
        uses = [Use("step sizes and dual step", "apply_proximal_dual", "s, d", step, write=False),
                Use("primal update", "compute_update_primal", "u", step + "\nu = o.compute_update_primal(d)")]
        if nm in PRIMAL:
            uses.append(Use("primal proximal", "apply_proximal_primal", "d", init + "\nd = p.copy()\no.apply_proximal_primal(d, tau)"))
        grid(out, f"regularizer {nm}", cls, args, "", f"o = {R}{ctor}", uses, ())


TERMS = {"l2": "DataFidelity_l2(bg)", "wl2": "DataFidelity_wl2(w, bg)", "l2b": "DataFidelity_l2b(w, bg)", "Huber": "DataFidelity_Huber(w, bg)", "l1": "DataFidelity_l1(bg)",
         "l12": "DataFidelity_l12(bg)", "l1b": "DataFidelity_l1b(w, bg)", "KL": "DataFidelity_KL(bg)", "ln": "DataFidelity_ln(background=bg)"}


def data_terms(out):
    args = "p: np.ndarray, p2: np.ndarray, q: np.ndarray, q2: np.ndarray, b: np.ndarray, b2: np.ndarray, sigma: np.ndarray, sigma2: np.ndarray, w: float, bg: np.ndarray, m: np.ndarray, tau: float, tau2: float"
    for nm, ctor in TERMS.items():
        cls = "data_terms." + ctor.split("(")[0]
        asg = "o.assign_data(b, sigma)\n"
        uses = [Use("residual", "compute_residual", "o.compute_residual(p, mask=m)", asg), Use("dual step", "apply_proximal_dual", "d", asg + "d = o.initialize_dual()\no.update_dual(d, p)\no.apply_proximal_dual(d)"),
                Use("gap", "compute_primal_dual_gap", "o.compute_primal_dual_gap(p, q)", asg, write=False), Use("residual norm", "compute_residual_norm", "o.compute_residual_norm(q)", asg, write=False),
                Use("slice", "__getitem__", "e.compute_residual(p)", asg + "e = o[1:]")]
        if nm not in ("Huber", "l12", "ln"):
            uses.append(Use("primal proximal", "apply_proximal_primal", "d", asg + "d = p.copy()\no.apply_proximal_primal(d, tau)"))
        grid(out, f"data term {nm}", cls, args, "", f"o = {D}{ctor}", uses, ())


def solvers(out):
    args = "A: corrct.operators.TransformFunctions, A2: corrct.operators.TransformFunctions, b: np.ndarray, b2: np.ndarray, n: int, n2: int, w: float, tol: float, bg: np.ndarray, lo: float, xm: np.ndarray, bt: np.ndarray, h: np.ndarray"
    r = f"{R}Regularizer_TV2D(w)"
    for nm, kw in (("SIRT", f"regularizer={r}, tolerance=tol"), ("SIRT", f"data_term={D}DataFidelity_KL(bg)"), ("MLEM", "tolerance=tol"), ("PDHG", f"regularizer={r}, tolerance=tol"),
                   ("PDHG", f"data_term={D}DataFidelity_wl2(w, bg)"), ("FISTA", f"regularizer={r}, tolerance=tol"), ("FBP", "fbp_filter=h"), ("FBP", "fbp_filter='hann'"), ("FBP", "fbp_filter='mr'")):
        call = "s(A, b)" if nm == "FBP" else "s(A, b, n, lower_limit=lo, x_mask=xm, b_test_mask=bt)"
        uses = [Use("reconstruction", "__call__", "x", f"x, info = {call}")]
        if nm != "FBP":
            uses.append(Use("reconstruction information", "__call__", "info.residuals, info.residuals_cv, info.iterations, info.residual0", f"x, info = {call}", write=False))
        grid(out, f"{nm}({kw.replace('corrct.', '')})", f"solvers.{nm}", args, "if h is None or not isinstance(h, np.ndarray):\n    raise ValueError()\n", f"s = {S}{nm}({kw})", uses, OPQ)


def others(out):
    """Geometries, masks, materials, attenuation maps: every query leaves the object as it was."""
    pg = "o: corrct.models.ProjectionGeometry, p: np.ndarray, p2: np.ndarray, q: np.ndarray, q2: np.ndarray"
    grid(out, "projection geometry", "models.ProjectionGeometry", pg, "", "o = corrct.models.ProjectionGeometry.get_default_parallel()", [
        Use("rotation", "rotate", "o.rotate(p).det_pos_xyz, o.rotate(p).det_u_xyz, o.rotate(p).src_pos_xyz", write=False),
        Use("rotated detector axis", "rotate", "r.det_v_xyz", "r = o.rotate(p)\nr.set_detector_tilt(q)"),
        Use("rotated detector", "rotate", "r.det_pos_xyz", "r = o.rotate(p)\nr.set_detector_shifts_vu(q)"),
        Use("copy", "copy", "r.det_pos_xyz", "r = o.copy()\nr.set_detector_shifts_vu(q)"),
        Use("copied source", "copy", "r.src_pos_xyz", "r = o.copy()\nr.set_source_shifts_vu(q)"),
        Use("3D version", "get_3d", "r.det_pos_xyz", "r = o.get_3d()\nr.set_detector_shifts_vu(q)"),
        Use("scaled field", "get_field_scaled", "o.get_field_scaled('det_u_xyz')"),
        Use("displacement", "project_displacement_to_detector", "o.project_displacement_to_detector(p)"),
        Use("subset", "__getitem__", "r.det_pos_xyz", "r = o[:1]\nr.set_detector_shifts_vu(q)")], ())
    vg = "p: np.ndarray, p2: np.ndarray"
    grid(out, "volume geometry", "models.VolumeGeometry", vg, "", "o = corrct.models.VolumeGeometry.get_default_from_volume(p)", [
        Use("shape_xyz", "shape_xyz", "o.shape_xyz", write=False), Use("shape_zxy", "shape_zxy", "o.shape_zxy"), Use("mask shape", "mask_shape", "o.mask_shape", write=False),
        Use("3D version", "get_3d", "o.get_3d().shape_zxy"), Use("extent", "extent", "o.extent", write=False)], ())
    mc = "M: np.ndarray, N: np.ndarray, i: int, i2: int, b: np.ndarray, b2: np.ndarray, n: int, n2: int"
    grid(out, "mask collection", "struct_illum.MaskCollection", mc, "", "o = corrct.struct_illum.MaskCollection(M)", [
        Use("shapes", "shape_fov", "o.shape_fov, o.shape_shifts, o.num_buckets, o.num_pixels", write=False),
        Use("binning", "bin_masks", "o.bin_masks(n).masks_enc"),
        Use("QR decomposition", "get_qr_decomposition", "o.get_qr_decomposition(b)[1]"), Use("decomposed masks", "get_qr_decomposition", "o.get_qr_decomposition(b, shift=1)[0].masks_enc")],
        ("processing.misc.bin_imgs", "struct_illum.decompose_qr_masks", "struct_illum.reorder_masks"))
    grid(out, "ghost imaging projector", "struct_illum.ProjectorGhostImaging", "C: corrct.struct_illum.MaskCollection, p: np.ndarray, p2: np.ndarray, q: np.ndarray, q2: np.ndarray",
         "if p is None or q is None or p2 is None or q2 is None:\n    raise ValueError()\n", "o = corrct.struct_illum.ProjectorGhostImaging(C, backend='numpy')", [
             Use("projection", "fp", "o.fp(p)"), Use("back-projection", "bp", "o.bp(q)"), Use("pseudo-inverse", "fbp", "o.fbp(q, adjust_scaling=True)"), Use("absolute", "absolute", "o.absolute().fp(p)"),
             Use("scaling", "adjust_sampling_scaling", "o.adjust_sampling_scaling(p)")], ())
    for nm in ("Point", "MURA"):
        grid(out, f"{nm} mask generator", f"struct_illum.MaskGenerator{nm}", "n: int, p: np.ndarray, p2: np.ndarray, i: int, i2: int", "", f"o = corrct.struct_illum.MaskGenerator{nm}(16, 1.0)" if nm == "MURA" else f"o = corrct.struct_illum.MaskGenerator{nm}((6, 8), 1.0)", [
            Use("mask", "generate_shifted_mask", "o.generate_shifted_mask((i, n))"), Use("decoding mask", "generate_shifted_mask", "o.generate_shifted_mask((i, n), mask_encoding=False)"),
            Use("interval shifts", "get_interval_shifts", "o.get_interval_shifts(i)[0]"), Use("collection", "generate_collection", "o.generate_collection().masks_enc")], ())
    vm = "a: np.ndarray, c: np.ndarray, ca: dict, cb: dict, p: float, p2: float, v: float, v2: float, d: corrct.physics.xrf.DetectorXRF"
    grid(out, "material volume", "physics.materials.VolumeMaterial", vm, "", "o = corrct.physics.materials.VolumeMaterial([a, c], [ca, cb], 0.1)", [
        Use("attenuation", "get_attenuation", "o.get_attenuation(p)"), Use("phase", "get_phase_shift", "o.get_phase_shift(p)"), Use("mass fraction", "get_element_mass_fraction", "o.get_element_mass_fraction(20)"),
        Use("Compton production", "get_compton_scattering", "o.get_compton_scattering(p, v)[1]"), Use("Compton production in a detector", "get_compton_scattering", "o.get_compton_scattering(p, detector=d)[1]"),
        Use("fluorescence production", "get_fluo_production", "o.get_fluo_production(20, p, 'KA', detector=d)[1]")],
        ("physics.xraylib_helper.get_compound_cross_section", "physics.xraylib_helper.get_element_number", "physics.xrf.get_energy"))
    av = "a: np.ndarray, e: np.ndarray, ang: np.ndarray, w: float, i: int, i2: int"
    for mt in (True, False):
        mk = f"o.compute_maps(use_multithreading={mt})\n"
        grid(out, f"attenuation maps{', threads' if mt else ''}", "physics.attenuation.AttenuationVolume", av, "", "o = corrct.physics.attenuation.AttenuationVolume(a, e, ang, [0.5, 1.5])", [
            Use("all maps", "compute_maps", "o.get_maps()", mk, write=False), Use("maps of one angle", "get_maps", "o.get_maps(rot_ind=i)", mk, write=False),
            Use("projector arguments", "get_projector_args", "k['att_maps'], k['angles_detectors_rad']", mk + "k = o.get_projector_args(det_ind=[i])", write=False)],
            ("_projector_backends.compute_attenuation",))


def rows():
    out = []
    others(out)
    operators(out)
    filters(out)
    regularizers(out)
    data_terms(out)
    solvers(out)
    return out


def run(chk, prog):
    chk.rule("fresh", "the value of a method called after other uses of the same object (or after its earlier results were overwritten) equals its value on a fresh object; values handed out earlier are unchanged")
    chk.need("fresh", table(chk, prog, "fresh", rows(), rejects=False))
