"""C17: reporting (verbose output, plots, progress bars) changes neither results nor which inputs are accepted."""
import ast
import importlib
from ..solverspec import fn, S
from ..spec import table

C = "corrct."
W = "the result is another one when the progress is reported or plotted"


def pair(name, site, text, what=W, **opt):
    """`text` uses V for the option's value."""
    return (name, site, what, text.replace("@V", "True"), text.replace("@V", "False"), opt)


def solver_rows():
    out = []
    sig = "A: corrct.operators.BaseTransform, b: np.ndarray, iterations: int, w: float, tol: float, rel: float, x0: np.ndarray, lo: float, hi: float, xm: np.ndarray, bm: np.ndarray, bt: np.ndarray"
    ret = "x, info.residual0, info.residual0_cv, info.residuals, info.residuals_cv, info.iterations, info.max_iterations, info.tolerance"
    op = ("operators.BaseTransform.__call__", "operators.BaseTransform.absolute", "operators.BaseTransform.T", "operators.BaseTransform.adjoint", "operators.BaseTransform.transpose")
    for cls, ctor in (("SIRT", "relaxation=rel"), ("MLEM", ""), ("PDHG", "relaxation=rel"), ("FISTA", "relaxation=rel")):
        regs = ("",) if cls == "MLEM" else ("", "regularizer=corrct.regularizers.Regularizer_l1(w)")
        for reg in regs:
            for tol in (0, 1):
                for full in (0, 1):
                    for k in ("verbose=@V", "leave_progress=@V", "verbose=@V, leave_progress=False"):
                        c = ", ".join(x for x in (ctor, reg, "tolerance=tol" if tol else "", k) if x)
                        call = "A, b, iterations" + (", x0=x0, lower_limit=lo, upper_limit=hi, x_mask=xm, b_mask=bm, b_test_mask=bt" if full else "")
                        out.append(pair(f"{cls}{', regularized' if reg else ''}{', tolerance' if tol else ''}{', limits and masks' if full else ''}: {k.replace('=@V', '')}", f"solvers.{cls}.__call__",
                                        fn(sig, f"s = {S}{cls}({c})", f"x, info = s({call})", ret=ret), opaque=op))
    for k in ("verbose=@V", "leave_progress=@V"):
        for tol in (0, 1):
            out.append(pair(f"SART{', tolerance' if tol else ''}: {k[:-3]}", "solvers.SART.__call__", fn("F, G, n: int, b: np.ndarray, iterations: int, rel: float, tol: float", "A = lambda x, i: F(x, i)\nAt = lambda y, i: G(y, i)",
                            f"s = {S}SART(relaxation=rel{', tolerance=tol' if tol else ''}, {k})", "x, info = s(A, b, iterations, A_num_rows=n, At=At)", ret=ret)))
        out.append(pair(f"FBP: {k[:-3]}", "solvers.FBP.__call__", fn("A: corrct.operators.ProjectorOperator, b: np.ndarray", f"s = {S}FBP({k})", "x, info = s(A, b)", ret="x"),
                        opaque=op + ("filters.Filter.__call__", "operators.ProjectorOperator.get_pre_weights")))
    return out


def function_rows():
    out = []

    def add(name, site, sig, call, *body, **opt):
        out.append(pair(name, site, fn(sig, *body, ret=C + call if not call.startswith("=") else call[1:]), **opt))

    F, P, M = "alignment.fitting.", "processing.pre.", "processing.misc."
    for nd in (2, 3):
        s = "r: np.ndarray, i: np.ndarray" if nd == 2 else "r: np.ndarray, i: np.ndarray"
        for pm in ("None", "'edge'"):
            add(f"rotation and scale, padding {pm}", F + "fit_image_rotation_and_scale", "a: Arr[2], b: Arr[2]", f"{F}fit_image_rotation_and_scale(a, b, pad_mode={pm}, verbose=@V)")
        break
    for pad in (False, True):
        for l1 in (False, True):
            add(f"camera tilt, pad_u={pad}, fit_l1={l1}", F + "fit_camera_tilt_angle", "a: Arr[2], b: Arr[2]", f"{F}fit_camera_tilt_angle(a, b, pad_u={pad}, fit_l1={l1}, verbose=@V)")
    for b in ("2", "f"):
        for nd in (2, 3):
            for crop in (False, True):
                add(f"binning of {nd}D images by {'an integer' if b == '2' else 'a factor'}{', cropped' if crop else ''}", P + "bin_imgs", f"x: Arr[{nd}], f: float", f"{P}bin_imgs(x, {b}, auto_crop={crop}, verbose=@V)")
    for nd in (2, 3):
        for deg in (0, 1, 2):
            add(f"background from margins, {nd}D, order {deg}", P + "background_from_margin", f"x: Arr[{nd}], m: int", f"{P}background_from_margin(x, m, poly_order={deg}, plot=@V)")
    for nd in (1, 2):
        for kd in ("None", "1"):
            add(f"SNIP, {nd}D, kernel {kd}", P + "snip", f"x: Arr[{nd}], n: int", f"{P}snip(x, kernel_dims={kd}, iterations=n, verbose=@V)")
    for nd in (2, 3):
        for st in ("None", "s"):
            add(f"background from SNIP, {nd}D, smoothing {st}", P + "background_from_snip", f"x: Arr[{nd}], s: float, n: int", f"{P}background_from_snip(x, n, smooth_std={st}, verbose=@V)")
    for fl in ("", ", flats_wvu=f"):
        for dk in ("", ", darks_wvu=d"):
            for nd in (1, 2):
                add(f"eigen flats{', flats' if fl else ''}{', darks' if dk else ''}, {nd}D", P + "compute_eigen_flats", "t: Arr[3], f: Arr[3], d: Arr[3]", f"{P}compute_eigen_flats(t{fl}{dk}, ndim={nd}, plot=@V)")
    for two in (0, 1):
        for tm in (False, True):
            for full in (False, True):
                for prof in (False, True):
                    for nd, ax in ((2, "(-2, -1)"), (1, "(-1,)"), (3, "(-2, -1)")):
                        add(f"cross-correlation, {'two images' if two else 'auto'}, {nd}D, t_match={tm}, full={full}, profile={prof}", M + "norm_cross_corr", f"x: Arr[{nd}], y: Arr[{nd}]",
                            f"{M}norm_cross_corr(x, {'y' if two else 'None'}, axes={ax}, t_match={tm}, mode_full={full}, compute_profile={prof}, plot=@V)")
    add("PSF with beam of gaussian shape", "physics.pencil_beam_profile", "v: float, w: float, n: int", "physics.pencil_beam_profile(v, w, n, verbose=@V)")
    for sh in ("gaussian", "lorentzian", "sech**2"):
        add(f"beam profile, {sh}", "physics.pencil_beam_profile", "v: float, w: float, n: int", f"physics.pencil_beam_profile(v, w, n, beam_shape='{sh}', verbose=@V)")
    add("delta over beta", "physics.phase.get_delta_beta_curves", "c: list, a: float, b: float, n: int", "physics.phase.get_delta_beta_curves(c, (a, b, n), plot=@V)")
    for nd in (1, 2):
        for ty in ("ctf", "tie"):
            for rf in (False, True):
                add(f"propagation filter {ty}, {nd}D{', half' if rf else ''}", "physics.phase.get_propagation_filter", "p: float, d: float, l: float, r: float, n: int, m: int",
                    f"physics.phase.get_propagation_filter({'(n, m)' if nd == 2 else '(n,)'}, p, d, l, r, filter_type='{ty}', use_rfft={rf}, plot_result=@V)")
    add("radiation rates", "physics.xrf.LinesSiegbahn", "e: str, l: str", "physics.xrf.LinesSiegbahn.get_lines(l)")
    out.pop()
    for l in ("l: str", "l: corrct.physics.xrf.FluoLine", "l: list"):
        add(f"radiation rates, {l[3:]}", "physics.xrf.LinesSiegbahn", "e: str, " + l, "physics.xrf.get_radiation_rate(e, l, verbose=@V)")
        for avg in ("", ", compute_average=True", ", use_lines_mean=True"):
            add(f"energies, {l[3:]}{avg}", "physics.xrf.LinesSiegbahn", "e: str, " + l, f"physics.xrf.get_energy(e, l{avg}, verbose=@V)")
    add("QR decomposition of masks", "struct_illum.decompose_qr_masks", "m: Arr[3]", "struct_illum.decompose_qr_masks(m, verbose=@V)")
    add("QR decomposition of a grid of masks", "struct_illum.decompose_qr_masks", "m: Arr[4]", "struct_illum.decompose_qr_masks(m, verbose=@V)")
    for nd in (3, 4):
        add(f"resolution of {nd - 2}D collection of masks, verbose", "struct_illum.estimate_resolution", f"m: Arr[{nd}]", "struct_illum.estimate_resolution(m, verbose=@V, plot_result=False)")
        add(f"resolution of {nd - 2}D collection of masks, plot", "struct_illum.estimate_resolution", f"m: Arr[{nd}]", "struct_illum.estimate_resolution(m, verbose=False, plot_result=@V)")
    for sc in ("linear", "log"):
        for st in ("None", "e"):
            for k in ("verbose", "plot_result"):
                add(f"minimum of a loss, {sc}{', with deviations' if st == 'e' else ''}: {k}", "param_tuning.fit_func_min", "h: Arr[1], f: Arr[1], e: Arr[1]", f"param_tuning.fit_func_min(h, f, {st}, scale='{sc}', {k}=@V)")
    return out


SWITCH = {"LCurve": ("verbose", "plot_result"), "CrossValidation": ("verbose", "plot_result"), "DetectorShiftsPRE": ("verbose",), "DetectorShiftsXC": ("verbose",), "FitConeBeamGeometry": ("verbose", "plot_result"),
          "tune_acquisition_geometry": ("verbose",), "VolumeMaterial": ("verbose",), "compute_maps": ("verbose",), "ProjectorAttenuationXRF": ("verbose",), "denoise_image": ("verbose",)}


class Switch(ast.NodeTransformer):
    """Every call that can report or plot, with that switched on or off."""

    def __init__(self, what, val):
        self.what, self.val, self.hits = what, val, []

    def visit_Call(self, n):
        self.generic_visit(n)
        name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
        if self.what in SWITCH.get(name, ()):
            self.hits.append(name)
            n.keywords = [k for k in n.keywords if k.arg not in ("verbose", "plot_result")] + [ast.keyword(k, ast.Constant(self.val if k == self.what else self.val and self.what == "plot_result")) for k in SWITCH[name]]
        return n


def switched(text, what):
    """The driver with reporting on, and off; None when nothing in it can report."""
    out = []
    for val in (True, False):
        t, w = ast.parse(text), Switch(what, val)
        t = ast.fix_missing_locations(w.visit(t))
        if not w.hits:
            return None
        out.append(ast.unparse(t))
    return out


def options(row):
    o = {k: v for k, v in (row[5] if len(row) > 5 else {}).items() if k in ("opaque", "preset")}
    if "opaque" in o:
        o["opaque"] = tuple(q for q in o["opaque"] if not q.startswith("solvers."))  # their reporting is followed, too
    return o


def class_rows(per=14):
    """The scenarios of the other properties, with the classes reporting and plotting."""
    out, seen = [], set()
    for m in ("C09", "C20", "C22", "C29"):
        M = importlib.import_module(f".{m}", __package__)
        group = {}
        for row in M.rows():
            for what in ("verbose", "plot_result"):
                d = switched(row[3], what)
                if d is None or (d[0], what) in seen:
                    continue
                seen.add((d[0], what))
                group.setdefault((row[1], what), []).append((f"{row[0]}: {what}", row[1], W, *d, options(row)))
        for g in group.values():
            out += g[::max(1, -(-len(g) // per))]
    return out


def run(chk, prog):
    chk.rule("solvers", "a solver gives the same solution, residuals and number of iterations whether or not it reports its progress, and accepts the same inputs")
    chk.need("solvers", table(chk, prog, "solvers", solver_rows(), twin=True))
    chk.rule("functions", "a function returns the same value, and accepts the same inputs, with and without verbose output or plots")
    chk.need("functions", table(chk, prog, "functions", function_rows(), twin=True))
    chk.rule("classes", "an object gives the same results, and accepts the same inputs, whether or not it reports and plots")
    chk.need("classes", table(chk, prog, "classes", class_rows(), twin=True))


def rows():
    return class_rows() + solver_rows() + function_rows()
