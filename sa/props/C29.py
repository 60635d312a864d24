"""C29: cone-beam calibration: ellipses, detector geometry and tuning are those of the documented definitions (Noo et al. 2000)."""
from ..spec import table
from ..solverspec import fn

F = "corrct.alignment.fitting."
C = "corrct.alignment.cone_beam."
M = "corrct.alignment.markers."
ELL = ("alignment.fitting.fit_ellipse_center", "alignment.fitting.fit_ellipse_parameters")
ANG = ("alignment.cone_beam._get_rot_axis_angle_deg",)


def ellipse_rows():
    out = []
    s = "p: Arr[2], k: int"
    W = "the centre is not the point closest to all the lines through opposite points"
    for resc in (True, False):
        for l1 in (False, True):
            for dec in ("", "decimals=k", "decimals=None"):
                o = (["rescale=False"] if not resc else []) + (["use_l1_norm=True"] if l1 else []) + ([dec] if dec else [])
                b = ["m = np.mean(p, axis=-1)", "q = p - m[:, None]", "w = np.max(q, axis=-1) - np.min(q, axis=-1)" if resc else "w = np.ones(2)", "q = q / w[:, None]" if resc else "", "n = q.shape[-1] // 2",
                     "q1, q2 = q[:, :n], q[:, n:2 * n]", "d = q2 - q1", "H = np.stack([d[-1, :], -d[-2, :]], axis=-1)",
                     "z = np.zeros((1, q1.shape[-1]))", "y = np.cross(np.concatenate((q1, z), axis=0), np.concatenate((q2, z), axis=0), axis=0)[2, :]",
                     "c = np.linalg.lstsq(H, y, rcond=None)[0]"]
                if l1:
                    b += ["def g(t):\n    return float(np.linalg.norm(H.dot(t) - y, ord=1))", "c = spopt.minimize(g, c).x"]
                b += ["c = c * w + m"]
                r = "c" if dec == "decimals=None" else f"np.around(c, decimals={'k' if dec else '2'})"
                out.append(("centre of a projected circle" + "".join(", " + x for x in o), "alignment.fitting.fit_ellipse_center", W, fn(s, ret=f"{F}fit_ellipse_center({', '.join(['p'] + o)})"), "import scipy.optimize as spopt\n" + fn(s, *b, ret=r)))
    W = "the parameters are not those of the least-squares (least-absolute) ellipse"
    for resc in (True, False):
        for l1 in (False, True):
            o = (["rescale=False"] if not resc else []) + (["use_l1_norm=True"] if l1 else [])
            b = ["x, y = p[-1, :], p[-2, :]", "mx, my = float(np.mean(x)), float(np.mean(y))" if resc else "mx, my = 0.0, 0.0", "x = x - mx\ny = y - my" if resc else "",
                 "sx, sy = float(np.abs(x).max()), float(np.abs(y).max())" if resc else "sx, sy = 1.0, 1.0", "x = x / sx\ny = y / sy" if resc else "",
                 "H = np.stack([x ** 2, -2 * x, -2 * y, 2 * x * y, np.ones_like(x)], axis=-1)", "z = -y ** 2", "c = np.linalg.lstsq(H, z, rcond=None)[0]"]
            if l1:
                b += ["def g(t):\n    return float(np.linalg.norm(H.dot(t) - z, ord=1))", "c = spopt.minimize(g, c).x"]
            b += ["c0, c1, c2, c3, c4 = c[0] * sy ** 2 / sx ** 2, c[1] * sy ** 2 / sx, c[2] * sy, c[3] * sy / sx, c[4] * sy ** 2" if resc else "c0, c1, c2, c3, c4 = c[0], c[1], c[2], c[3], c[4]",
                  "u = (c1 - c2 * c3) / (c0 - c3 ** 2)", "v = (c0 * c2 - c1 * c3) / (c0 - c3 ** 2)", "a = c0 / (c0 * u ** 2 + v ** 2 + 2 * c3 * u * v - c4)", "b = a / c0"]
            out.append(("parameters of an ellipse" + "".join(", " + x for x in o), "alignment.fitting.fit_ellipse_parameters", W, fn("p: Arr[2]", ret=f"{F}fit_ellipse_parameters({', '.join(['p'] + o)})"),
                        "import scipy.optimize as spopt\n" + fn("p: Arr[2]", *b, ret="(a, b, c3 * b, u + mx, v + my)")))
    for resc in ("", "rescale=False"):
        for l1 in ("", "use_l1_norm=True"):
            o = ", ".join(x for x in ("p", resc, l1) if x)
            oo = ", ".join(x for x in (resc, l1) if x)
            out.append((f"ellipse of points ({oo})", "alignment.fitting.fit_ellipse", "the ellipse is not made of the fitted parameters and centre", fn("p: Arr[2]", f"e = {F}fit_ellipse({o})", ret="(e.a, e.b, e.c, e.u, e.v, e.c_vu, e.center_vu, e.parameters)"),
                        fn("p: Arr[2]", f"a, b, c, u, v = {F}fit_ellipse_parameters({o})", f"m = {F}fit_ellipse_center({o})", ret="(a, b, c, u, v, m, m, (b, a, c, v, u))"), dict(opaque=ELL)))
    s = "a: float, b: float, c: float, u: float, v: float, m: Arr[1], x: Arr[1]"
    E = f"e = {F}Ellipse(a, b, c, u, v, m)"
    out.append(("vertical positions along an ellipse", "alignment.fitting.Ellipse.__call__", "the positions do not satisfy the equation of the ellipse", fn(s, E, ret="e(x)"),
                fn(s, "d = x - u", "B = 2 * (c * d - b * v)", "D = np.sqrt(B ** 2 - 4 * b * (a * d ** 2 + b * v ** 2 - 2 * c * v * d - 1))", ret="((-B + D) / (2 * b), (-B - D) / (2 * b))")))
    out.append(("horizontal extremes of an ellipse", "alignment.fitting.Ellipse.extremes_u", "the extremes are not those of the ellipse", fn(s, E, ret="e.extremes_u"), fn(s, "h = np.sqrt(b / (a * b - c ** 2))", ret="(u - h, u + h)")))
    return out


GEOM = "th: float, ph: float, et: float, D: float, R: float, v0: float, u0: float, nv: int, nu: int, pix: float"
MK = f"g = {C}ConeBeamGeometry(th, ph, et, D, R, v0, u0, nv, nu, pix)"
FIELDS = ("theta_deg", "phi_deg", "eta_deg", "D_pix", "R_pix", "v0_pix", "u0_pix", "det_size_v_pix", "det_size_u_pix", "pix_size_um")
NAMES = ("th", "ph", "et", "D", "R", "v0", "u0", "nv", "nu", "pix")
ALLF = "(" + ", ".join("h." + f for f in FIELDS) + ")"


def geom_rows():
    out = []
    W = "the detector geometry is not that of the calibration parameters"
    P = "src_pos_xyz, det_pos_xyz, det_u_xyz, det_v_xyz, rot_dir_xyz, pix2vox_ratio, det_shape_vu, geom_type".split(", ")
    for tr in (True, False):
        o = "" if tr else "translate_z_to_center=False"
        b = ["t = np.deg2rad(th)\np = np.deg2rad(ph)", "a = np.array([-np.sin(p), -np.cos(p), 0])", "b = np.array([-np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)])",
             "n = np.array([np.cos(t) * np.cos(p), -np.cos(t) * np.sin(p), np.sin(t)])", "x = np.array([1, 0, 0])", "c = n * D + a * u0 + b * v0", "src = x * R", "det = x * R - n * D - a * u0 - b * v0"]
        if tr:
            b += ["z = c[2] / np.abs(c[0]) * R", "src = src + np.array([0, 0, z])", "det = det + np.array([0, 0, z])"]
        b += ["q = Rotation.from_rotvec(-n * np.deg2rad(et))",
              "h = corrct.models.ProjectionGeometry('cone', src_pos_xyz=src, det_pos_xyz=det, det_u_xyz=q.apply(a), det_v_xyz=q.apply(b), rot_dir_xyz=np.array([0, 0, 1]), pix2vox_ratio=R / D * np.abs(np.dot(n, x)), det_shape_vu=np.array((nv, nu)))"]
        for f in P:
            out.append((f"cone-beam projection geometry{'' if tr else ', not centred'}: {f}", "alignment.cone_beam.ConeBeamGeometry.get_prj_geom", W, fn(GEOM, MK, f"h = g.get_prj_geom({o})", ret=f"h.{f}"), "from scipy.spatial.transform import Rotation\n" + fn(GEOM, *b, ret=f"h.{f}")))
    for up in (False, True):
        s = GEOM + ", k: int"
        kk = "k" if up else "1"
        out.append((f"cone-beam volume geometry{', up-sampled' if up else ''}", "alignment.cone_beam.ConeBeamGeometry.get_vol_geom", "the volume geometry is not that of the detector", fn(s, MK, f"h = g.get_vol_geom({'k' if up else ''})", ret="(h.shape_xyz, h.vox_size)"),
                    fn(s, f"h = corrct.models.VolumeGeometry(_vol_shape_xyz=np.array([nu, nu, nv], dtype=int) * {kk}, vox_size=1 / {kk})", ret="(h.shape_xyz, h.vox_size)")))
    W = "the updated geometry is not a copy where only the given field changed"
    for f, n in list(zip(FIELDS, NAMES)):
        for rel in (True, False):
            for dec in ("", "decimals=k", "decimals=None"):
                o = ([] if rel else ["is_relative=False"]) + ([dec] if dec else [])
                s = GEOM + ", x: float, k: int"
                new = f"{n} + x" if rel else "x"
                new = new if dec == "decimals=None" else f"np.around({new}, decimals={'k' if dec else '3'})"
                out.append((f"updated field {f}" + "".join(", " + y for y in o), "alignment.cone_beam.ConeBeamGeometry.update", W, fn(s, MK, f"h = g.update({', '.join([repr(f), 'x'] + o)})", ret=f"{ALLF}, (" + ", ".join("g." + y for y in FIELDS) + ")"),
                            fn(s, ret="(" + ", ".join(new if y == f else m for y, m in zip(FIELDS, NAMES)) + "), (" + ", ".join(NAMES) + ")")))
    out.append(("default calibration parameters", "alignment.cone_beam.ConeBeamGeometry", "the default parameters are not zero", fn("x: float", f"h = {C}ConeBeamGeometry()", ret=ALLF), fn("x: float", ret="(0.0,) * 7 + (0, 0, 0.0)")))
    out.append(("parameters loaded from JSON", "alignment.cone_beam.ConeBeamGeometry.from_json", "the loaded parameters are not those stored", fn(GEOM + ", s: str", MK + "\nh = g", "g.from_json(s)", ret=ALLF),
                "import json\n" + fn(GEOM + ", s: str", "d = json.loads(s)", "if len(d.keys()) > 1 or list(d.keys())[0] != 'ConeBeamGeometry':\n    raise ValueError()", "d = d[list(d.keys())[0]]", ret="(" + ", ".join(f"d[{f!r}]" for f in FIELDS) + ")")))
    for f, n in zip(FIELDS[:7], NAMES[:7]):
        for rel in (True, False):
            s = GEOM + ", x: float, y: float"
            o = "" if rel else ", is_relative=False"
            out.append((f"geometries for tuning {f}{o}", "alignment.cone_beam.ConeBeamGeometry.get_tuning_params", "the geometries are not one per value of the field", fn(s, MK, f"q = g.get_tuning_params({f!r}, [x, y]{o})", "r = []\nfor h in q:\n    r = r + [" + ALLF + "]", ret="r"),
                        fn(s, MK, f"q = [g.update({f!r}, x{o}), g.update({f!r}, y{o})]", "r = []\nfor h in q:\n    r = r + [" + ALLF + "]", ret="r")))
    for dec in ("", "decimals=k", "decimals=None"):
        s = "a: Arr[1], b: Arr[1], k: int"
        b = ["a = np.squeeze(np.array(a))\nb = np.squeeze(np.array(b))", "if a.ndim != 1 or b.ndim != 1 or a.shape[0] != 2 or b.shape[0] != 2:\n    raise ValueError()", "d = a - b", "g = np.rad2deg(np.mod(np.arctan2(d[-1], d[-2]), 2 * np.pi) - np.pi)"]
        r = "g" if dec == "decimals=None" else f"np.around(g, decimals={'k' if dec else '4'})"
        out.append((f"angle of the rotation axis {dec}", "alignment.cone_beam._get_rot_axis_angle_deg", "the angle is not that of the line between the two centres", fn(s, ret=f"{C}_get_rot_axis_angle_deg({', '.join(x for x in ('a', 'b', dec) if x)})"), fn(s, *b, ret=f"float({r})")))
    return out


def fit_rows():
    out = []
    W = "the initial values are not those of the two ellipses"
    ATTRS = "prj_size_vu center_vu prj_origin_vu points_ell1 points_ell2 points_axis ell1_prj_c_vu ell2_prj_c_vu".split()
    base = "s: Arr[1], p: Arr[2], q: Arr[2], x: Arr[2], pix: float"
    for ax in (False, True):
        for l1 in (False, True):
            for px in (False, True):
                if l1 and px:
                    continue
                o = (["points_axis=x"] if ax else []) + (["use_l1_norm=True"] if l1 else []) + (["pix_size_um=pix"] if px else []) + ["verbose=False"]
                L = f", use_l1_norm={l1}"
                b = ["if len(s) != 2:\n    if len(s) == 1:\n        s = np.tile(s, 2)\n    else:\n        raise ValueError()", "c = np.squeeze(s)[:, None] / 2", "if p.shape[0] != 2 or q.shape[0] != 2:\n    raise ValueError()", "p = p - c\nq = q - c",
                     "x = x - c" if ax else "x = None", f"e1 = {F}fit_ellipse_center(p{L})\ne2 = {F}fit_ellipse_center(q{L})"]
                b += ["ori = x[:, 1]\nz = " + C + "_get_rot_axis_angle_deg(e1, e2)\ne1 = x[:, 0]\ne2 = x[:, 2]" if ax else "ori = None", f"eta = {C}_get_rot_axis_angle_deg(e1, e2)",
                      "if np.abs(eta) > 120:\n    raise ValueError()",
                      "if np.abs(eta) > 0.1:\n    m = Rotation.from_rotvec(-np.deg2rad(eta) * np.array([0, 0, 1])).as_matrix()[:2, :2]\n    pr = m.dot(p)\n    qr = m.dot(q)\nelse:\n    pr = p.copy()\n    qr = q.copy()",
                      f"E1 = {F}fit_ellipse(pr{L})\nE2 = {F}fit_ellipse(qr{L})",
                      f"g = {C}ConeBeamGeometry(det_size_v_pix=int(s[0]), det_size_u_pix=int(s[1]), eta_deg=eta{', pix_size_um=pix' if px else ''})"]
                ref = dict(prj_size_vu="s", center_vu="c", prj_origin_vu="ori", points_ell1="p", points_ell2="q", points_axis="x", ell1_prj_c_vu="e1", ell2_prj_c_vu="e2")
                mk = f"f = {C}FitConeBeamGeometry(" + ", ".join(["s", "p", "q"] + o) + ")"
                nm = "".join(", " + y for y in o[:-1])
                for a in ATTRS:
                    out.append((f"calibration{nm}: {a}", "alignment.cone_beam.FitConeBeamGeometry.__init__", W, fn(base, mk, ret=f"f.{a}"), "from scipy.spatial.transform import Rotation\n" + fn(base, *b, ret=ref[a]), dict(opaque=ELL + ANG)))
                for k in (1, 2):
                    out.append((f"calibration{nm}: rotated ellipse {k}", "alignment.cone_beam.FitConeBeamGeometry._initialize", W, fn(base, mk, ret=f"f.ell{k}_rot.parameters"), "from scipy.spatial.transform import Rotation\n" + fn(base, *b, ret=f"E{k}.parameters"), dict(opaque=ELL + ANG)))
                out.append((f"calibration{nm}: geometry", "alignment.cone_beam.FitConeBeamGeometry._initialize", W, fn(base, mk, "h = f.acq_geom", ret=ALLF), "from scipy.spatial.transform import Rotation\n" + fn(base, *b, "h = g", ret=ALLF), dict(opaque=ELL + ANG)))
    s = "a1: float, b1: float, c1: float, u1: float, v1: float, a2: float, b2: float, c2: float, u2: float, v2: float, e: float, m: Arr[1]"
    E = [f"E1 = {F}Ellipse(a1, b1, c1, u1, v1, m)", f"E2 = {F}Ellipse(a2, b2, c2, u2, v2, m)"]
    DREF = ["t2 = np.sqrt(b2 - c2 ** 2 / a2)\nt1 = np.sqrt(b1 - c1 ** 2 / a1)", "m0 = (v2 - v1) * t2\nm1 = t2 / t1", "n0 = (1 - m0 ** 2 - m1 ** 2) / (2 * m0 * m1)\nn1 = (a2 - a1 * m1 ** 2) / (2 * m0 * m1)"]
    for ee in ("", "e"):
        sg = "e * " if ee else ""
        out.append((f"distance from the source to the detector ({ee})", "alignment.cone_beam.FitConeBeamGeometry._fit_distance_det2src", "the distance is not that of the two ellipses", fn(s, *E, ret=f"{C}FitConeBeamGeometry._fit_distance_det2src(E1, E2{', e=e' if ee else ''})"),
                    fn(s, *DREF, ret=f"np.sqrt((a1 - 2 * n0 * n1 - {sg}np.sqrt(a1 ** 2 + 4 * n1 ** 2 - 4 * n0 * n1 * a1)) / (2 * n1 ** 2))")))
    W = "the geometry is not that of the two ellipses"
    base = "s: Arr[1], p: Arr[2], q: Arr[2], x: Arr[2], r: float, e: float, D: float"
    DIST = ("alignment.cone_beam.FitConeBeamGeometry._fit_distance_det2src",)
    for ax in (False, True):
        for meas in (False, True):
            for ee in (False, True):
                mk = f"f = {C}FitConeBeamGeometry(s, p, q{', points_axis=x' if ax else ''}, verbose=False)"
                o = (["e"] if ee else []) + (["meas_D_pix=D"] if meas else [])
                sg = "e" if ee else "1"
                b = [mk, "b1, a1, c1, v1, u1 = f.ell1_rot.parameters\nb2, a2, c2, v2, u2 = f.ell2_rot.parameters"]
                if meas:
                    b += [f"d = {C}FitConeBeamGeometry._fit_distance_det2src(f.ell1_rot, f.ell2_rot, e={sg})", "d = D"]
                else:
                    b += [f"d = {C}FitConeBeamGeometry._fit_distance_det2src(f.ell1_rot, f.ell2_rot, e={sg})", "if np.isnan(d) or np.isclose(d, 0.0):\n    raise ValueError()"]
                b += [f"k1, k2 = a1 * b1 - c1 ** 2, a2 * b2 - c2 ** 2", "w1 = v1 + np.sqrt(a1 + a1 ** 2 * d ** 2) / np.sqrt(k1)", f"w2 = v2 - {sg} * np.sqrt(a2 + a2 ** 2 * d ** 2) / np.sqrt(k2)",
                      "v0 = np.array([w1, w2]).mean()", "u0 = (u1 + u2) / 2 + c1 / (2 * a1) * (v1 - v0) + c2 / (2 * a2) * (v2 - v0)", "if np.linalg.norm(w1 - w2) > np.linalg.norm(v1 - v2):\n    raise ValueError()",
                      "y1 = np.sqrt(a1 * b1 + a1 ** 2 * b1 * d ** 2 - c1 ** 2)\ny2 = np.sqrt(a2 * b2 + a2 ** 2 * b2 * d ** 2 - c2 ** 2)", f"z1 = -d * a1 * np.sqrt(a1) / y1\nz2 = {sg} * d * a2 * np.sqrt(a2) / y2",
                      "phi = np.rad2deg(np.arcsin(-c1 / (2 * a1) * z1 - c2 / (2 * a2) * z2))", "r1 = r / (np.sqrt(k1) / y1)\nr2 = r / (np.sqrt(k2) / y2)", "h1 = r1 * z1\nh2 = r2 * z2",
                      "R = (h1 * r2 - h2 * r1) / (h1 - h2)", "if np.isnan(R) or np.isclose(R, 0.0):\n    raise ValueError()", "o = x[:, 1] - np.squeeze(f.prj_size_vu)[:, None][:, 0] / 2" if False else
                      ("o = f.prj_origin_vu" if ax else "o = (h1 * f.ell2_prj_c_vu - h2 * f.ell1_prj_c_vu) / (h1 - h2)")]
                vals = {"theta_deg": "0.0", "phi_deg": "phi", "eta_deg": "f.acq_geom.eta_deg", "D_pix": "d", "R_pix": "R", "v0_pix": "v0", "u0_pix": "u0", "det_size_v_pix": "f.acq_geom.det_size_v_pix", "det_size_u_pix": "f.acq_geom.det_size_u_pix", "pix_size_um": "f.acq_geom.pix_size_um"}
                for fld in FIELDS:
                    out.append((f"calibrated geometry{', axis' if ax else ''}" + "".join(", " + y for y in o) + f": {fld}", "alignment.cone_beam.FitConeBeamGeometry.fit", W, fn(base, mk, f"h = f.fit({', '.join(['r'] + o)})", ret=f"h.{fld}"), fn(base, *b, ret=vals[fld]), dict(opaque=ELL + ANG + DIST)))
                out.append((f"calibrated geometry{', axis' if ax else ''}" + "".join(", " + y for y in o) + ": projected origin", "alignment.cone_beam.FitConeBeamGeometry.fit", W, fn(base, mk, f"h = f.fit({', '.join(['r'] + o)})", ret="f.prj_origin_vu"), fn(base, *b, ret="o"), dict(opaque=ELL + ANG + DIST)))
    return out


def tune_rows():
    out = []
    OP = ("solvers.SIRT.__call__", "alignment.fitting.fit_parabola_min")
    for mask in (False, True):
        for two in (False, True):
            s = f"g: {C}ConeBeamGeometry, d: Arr[3], a: Arr[1], x: Arr[1], y: Arr[1], m: Arr[3]"
            pr = "{'D_pix': x, 'eta_deg': y}" if two else "{'D_pix': x}"
            b = ["t = corrct.solvers.SIRT(tolerance=0.0)"]
            for f, v in (("D_pix", "x"), ("eta_deg", "y"))[:1 + two]:
                b += [f"r = np.atleast_1d(np.empty(len({v})))", f"q = g.get_tuning_params({f!r}, {v})", f"for i, h in enumerate(q):\n    with corrct.projectors.ProjectorUncorrected(h.get_vol_geom(), a, prj_geom=h.get_prj_geom()) as prj:\n        z, w = t(prj, d, iterations=100, b_mask={'m' if mask else 'None'})\n        r[i] = w.residuals[-1]",
                      f"k, kk, kkk = {F}fit_parabola_min({v}, r, decimals=6)", f"g = g.update({f!r}, k)"]
            out.append((f"tuned geometry{', two fields' if two else ''}{', mask' if mask else ''}", "alignment.cone_beam.tune_acquisition_geometry", "the tuned field is not that of the smallest residual",
                        fn(s, f"h = {C}tune_acquisition_geometry(g, d, a, {pr}{', data_mask=m' if mask else ''}, verbose=False)", ret=ALLF), fn(s, *b, "h = g", ret=ALLF), dict(opaque=OP)))
    return out


def marker_rows():
    out = []
    for ax in (-2, 0):
        o = "" if ax == -2 else f", stack_axis={ax}"
        out.append((f"positions of a marker, stack axis {ax}", "alignment.markers.track_marker", "the positions are not those of the centre of the marker in every image", fn("a: Arr[3], m: Arr[2]", ret=f"{M}track_marker(a, m{o})"),
                    fn("a: Arr[3], m: Arr[2]", ret=f"{F}fit_shifts_vu_xc(a, np.expand_dims(m, {ax}).astype(np.float32), stack_axis={ax}, normalize_fourier=False) + np.array(m.shape)[:, None] / 2"), dict(opaque=("alignment.fitting.fit_shifts_vu_xc",))))
    W = "the marker is not a disk of the given radius"
    for sup in ("", "super_sampling=k"):
        for conv in ("", "conv=False"):
            o = ", ".join(x for x in (sup, conv) if x)
            k = "k" if sup else "5"
            b = [f"y, x = np.meshgrid(np.fft.fftfreq(n * {k}, 1 / (n * {k})), np.fft.fftfreq(m * {k}, 1 / (m * {k})), indexing='ij')", f"d = np.sqrt(x ** 2 + y ** 2) < r * {k}", f"d = np.roll(d, {k} // 2, axis=(0, 1))",
                 f"d = np.fft.fftshift(np.mean(d.reshape((n, {k}, m, {k})), axis=(1, 3)))"] + ([] if conv else ["d = scipy.ndimage.convolve(d, d)"])
            out.append((f"marker disk ({o})", "alignment.markers.create_marker_disk", W, fn("n: int, m: int, r: float, k: int", ret=f"{M}create_marker_disk((n, m), r{', ' + o if o else ''})"), "import scipy.ndimage\n" + fn("n: int, m: int, r: float, k: int", *b, ret="d")))
    out.append(("centimetres in inches", "alignment.markers.cm2inch", "the sizes are not those in inches", fn("x: float, y: float", ret=f"{M}cm2inch((x, y))"), fn("x: float, y: float", ret="(x / 2.54, y / 2.54)")))
    return out


def run(chk, prog):
    chk.rule("ellipses", "centres, parameters and positions of the ellipses")
    chk.need("ellipses", table(chk, prog, "ellipses", ellipse_rows()))
    chk.rule("geometry", "geometries made from the calibration parameters")
    chk.need("geometry", table(chk, prog, "geometry", geom_rows()))
    chk.rule("calibration", "calibration parameters from the two ellipses")
    chk.need("calibration", table(chk, prog, "calibration", fit_rows()))
    chk.rule("tuning", "fields tuned on the residuals of the reconstruction")
    chk.need("tuning", table(chk, prog, "tuning", tune_rows()))
    chk.rule("markers", "marker images and positions")
    chk.need("markers", table(chk, prog, "markers", marker_rows()))


def rows():
    return ellipse_rows() + geom_rows() + fit_rows() + tune_rows() + marker_rows()
