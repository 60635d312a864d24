"""C14: acquisition and volume geometries: rotations, tilts, shifts, slicing, default geometries, shapes and pre-weights."""
from ..spec import table
from ..solverspec import fn

G, M = "models.ProjectionGeometry.", "corrct.models."
S = "s: Arr[2], d: Arr[2], u: Arr[2], v: Arr[2], r: Arr[2], q: float, h: Arr[1], a: Arr[1]"
F = ("src_pos_xyz", "det_pos_xyz", "det_u_xyz", "det_v_xyz", "rot_dir_xyz")
ALL = "(" + ", ".join(f"g.{f}" for f in F) + ", g.geom_type, g.pix2vox_ratio, g.det_shape_vu)"
TYPES = ("parallel2d", "parallel3d", "cone")


def mk(t, shp=True):
    return f"g = {M}ProjectionGeometry('{t}', s, d, u, v, r, q{', h' if shp else ''})"


def ref(t, s="s", d="d", u="u", v="v", r="r", q="q", h="h"):
    return f"({s}, {d}, {u}, {v}, {r}, '{t}', {q}, {h})"


def vec_rows():
    out = []
    imp = "import scipy.spatial.transform as spt\n"
    for t in TYPES:
        for patch in (None, False, True):
            r = f"R = spt.Rotation.from_rotvec({'-' if patch and t == 'parallel2d' else ''}a[:, None] * r)"
            out.append((f"rotation of {t}{'' if patch is None else f', 2D patch {patch}'}", G + "rotate", "source, detector and its axes are not all rotated by the given angles around the rotation axis (or another field changed)",
                        fn(S, mk(t), f"g = g.rotate(a{'' if patch is None else f', patch_astra_2d={patch}'})", ret=ALL), imp + fn(S, r, ret=ref(t, "R.apply(s)", "R.apply(d)", "R.apply(u)", "R.apply(v)"))))
        out.append((f"rotation of {t} by one angle", G + "rotate", "a single angle does not rotate every vector", fn(S + ", b: float", mk(t), "g = g.rotate(b)", ret=ALL), imp + fn(S + ", b: float", "R = spt.Rotation.from_rotvec(b * r)", ret=ref(t, "R.apply(s)", "R.apply(d)", "R.apply(u)", "R.apply(v)"))))
        out.append((f"rotation of {t} leaves the original geometry", G + "rotate", "the rotation changes the geometry it is applied to", fn(S, mk(t), "g.rotate(a)", ret=ALL), fn(S, ret=ref(t))))
        for k, n in (("k: int", "angle"), ("k: slice", "selection")):
            sl = [f"({x}[k, :] if {x}.shape[0] > 1 else {x})" for x in "sduv"]
            if k == "k: int":
                sl = [f"(np.array({x}[k, :], ndmin=2) if {x}.shape[0] > 1 else {x})" for x in "sduv"]
            out.append((f"{n} of {t}", G + "__getitem__", "the selection of angles does not select the same angles of every vector", fn(S + ", " + k, mk(t), "g = g[k]", ret=ALL), fn(S + ", " + k, ret=ref(t, *sl))))
        out.append((f"copy of {t}", G + "copy", "the copy of a geometry differs from it", fn(S, mk(t), "g = g.copy()", ret=ALL), fn(S, ret=ref(t))))
        h = "h" if t != "parallel2d" else "np.array([1, h[0]])"
        out.append((f"3D version of {t}", G + "get_3d", "the 3D version does not have the same vectors and detector width", fn(S + ", w: int", mk(t, False), "g.set_detector_shape_vu(w)" if t == "parallel2d" else "g.set_detector_shape_vu(h)", "g = g.get_3d()", ret=ALL),
                    fn(S + ", w: int", ret=ref(t.replace("2d", "3d"), h="np.array([1, w])" if t == "parallel2d" else "h"))))
        out.append((f"3D version of {t}, without detector shape", G + "get_3d", "the 3D version does not have the same vectors", fn(S, mk(t, False), "g = g.get_3d()", ret=ALL), fn(S, ret=ref(t.replace("2d", "3d"), h="None"))))
        out.append((f"dimensions of {t}", G + "ndim", "the number of dimensions is wrong", fn(S, mk(t), ret="g.ndim"), fn(S, ret="2" if t == "parallel2d" else "3")))
        for src in (False, True):
            for na, ax in ((1, None), (1, "b"), (2, "c")):
                s2 = S.replace("a: Arr[1]", "a1: float, a2: float, b: Arr[1], c1: float, c2: float, c3: float, e1: float, e2: float, e3: float")
                ang = "a1" if na == 1 else "(a1, a2)"
                axs = {None: "", "b": ", (c1, c2, c3)", "c": ", np.array([[c1, c2, c3], [e1, e2, e3]])"}[ax]
                r = ["R = spt.Rotation.from_rotvec(np.array([a1]) * np.array(%s))" % ("(0, 1, 0)" if ax is None else "[c1, c2, c3]"), "s, d, u, v = " + ("R.apply(s)" if src else "s") + ", R.apply(d), R.apply(u), R.apply(v)"]
                if na == 2:
                    r += ["R = spt.Rotation.from_rotvec(np.array([a2]) * np.array([e1, e2, e3]))", r[1]]
                out.append((f"{'two tilts' if na == 2 else 'tilt'} of {t}{', given axis' if ax else ''}{', with source' if src else ''}", G + "set_detector_tilt", "the detector (and source, if requested) is not tilted by the angle around the axis, in order",
                            fn(s2, mk(t), f"g.set_detector_tilt({ang}{axs}{', tilt_source=True' if src else ''})", ret=ALL), imp + fn(s2, *r, ret=ref(t))))
    return out


def shift_rows():
    out = []
    W = "the detector is not shifted along its own axes U and V by the given amounts (and along the beam by its distance)"
    for t in TYPES:
        for pos in (None, "u", "vu", "n"):
            for cor in (False, True):
                for dist in (None, "f", "a"):
                    s = S + ", p1: float, p2: float, P: Arr[2], c: float, y: float, Y: Arr[1], z: Arr[1], z2: Arr[1]"
                    arg, U, V = {None: (None, "np.zeros([1])", None), "u": ("z", "z", None), "vu": ("np.stack((z2, z))", "np.stack((z2, z))[-1]", "z2"), "n": ("p1", "np.array([p1])", None)}[pos]
                    if cor:
                        U = f"({U} + c)"
                    a = ", ".join(([arg] if arg else []) + (["cor_pos_u=c"] if cor else []) + ([f"det_dist_y={'y' if dist == 'f' else 'Y'}"] if dist else []))
                    r = f"p = u * {U}.reshape([-1, 1])" + (f" + v * {V}.reshape([-1, 1])" if V and t != "parallel2d" else "")
                    if dist:
                        r += f"\np[:, 1] = p[:, 1] + {'y' if dist == 'f' else 'Y'}"
                    L = "np.stack((z2, z))" if pos == "vu" else "z" if pos == "u" else "np.zeros(1)"
                    L = f"{L}.shape[-1]"
                    rej = f"if d.shape[0] > 1 and {L} > 1 and d.shape[0] != {L}:\n    raise ValueError()" + (f"\nif Y.shape[0] > 1 and {L} > 1 and Y.shape[0] != {L}:\n    raise ValueError()" if dist == "a" else "")
                    r = r.replace("p = ", f"p = np.zeros(({'np.stack((z2, z))' if pos == 'vu' else U}.shape[-1], 3))\np += ", 1)
                    out.append((f"detector shift of {t}, {pos or 'no'} position{', centre of rotation' if cor else ''}{'' if not dist else ', distance' if dist == 'f' else ', distances'}", G + "set_detector_shifts_vu", W,
                                fn(s, mk(t), f"g.set_detector_shifts_vu({a})", ret=ALL), fn(s, rej, r, ret=ref(t, d="p"))))
        for pos in ("u", "vu"):
            s = S + ", z: Arr[1], z2: Arr[1]"
            L = f"{'z' if pos == 'u' else 'np.stack((z2, z))'}.shape[-1]"
            r = [f"if s.shape[0] > 1 and {L} > 1 and s.shape[0] != {L}:\n    raise ValueError()", f"p = np.zeros(({L}, 3))", "p[:, 0] = z", "p[:, 1] = s[:, 1]"] + (["p[:, 2] = z2"] if pos == "vu" and t != "parallel2d" else [])
            out.append((f"source shift of {t}, {pos}", G + "set_source_shifts_vu", "the source is not moved to the given positions, at its distance from the sample", fn(s, mk(t), f"g.set_source_shifts_vu({'z' if pos == 'u' else 'np.stack((z2, z))'})", ret=ALL), fn(s, *r, ret=ref(t, s="p"))))
        out.append((f"no source shift of {t}", G + "set_source_shifts_vu", "the source moves without a shift", fn(S, mk(t), "g.set_source_shifts_vu()", ret=ALL), fn(S, ret=ref(t))))
        for f, x in zip(F, "sduvr"):
            out.append((f"scaled {f} of {t}", G + "get_field_scaled", "the vectors are not in units of voxels", fn(S, mk(t), ret=f"g.get_field_scaled('{f}')"), fn(S, ret=f"({x} / q)" + ("[:, :-1]" if t == "parallel2d" else ""))))
        if t == "parallel2d":
            out.append((f"projected displacement, {t}", G + "project_displacement_to_detector", "the displacement is not projected on the detector axes", fn(S + ", y: float, x: float", mk(t), ret="g.project_displacement_to_detector([y, x])"), fn(S + ", y: float, x: float", ret="u[..., :2].dot(np.array([x, y]))")))
        else:
            out.append((f"projected displacement, {t}", G + "project_displacement_to_detector", "the displacement is not projected on the detector axes", fn(S + ", y: float, x: float, z: float", mk(t), ret="g.project_displacement_to_detector([z, y, x])"),
                        fn(S + ", y: float, x: float, z: float", ret="np.stack([v[..., :3].dot(np.array([x, y, z])), u[..., :3].dot(np.array([x, y, z]))], axis=0)")))
        for own in (True, False):
            for n in (1, 2):
                s = S + ", h1: int, h2: int"
                hh = "[h1, h2]" if n == 2 else "[h2]"
                if t != "cone":
                    out.append((f"pre-weights of {t}", G + "get_pre_weights", "parallel beams have no pre-weights", fn(s, mk(t), ret="g.get_pre_weights()"), fn(s, ret="None")))
                    continue
                r = ["D = d - s", "V, U = np.meshgrid(np.linspace(-(h1 - 1) / 2, (h1 - 1) / 2, h1), np.linspace(-(h2 - 1) / 2, (h2 - 1) / 2, h2), indexing='ij')" if n == 2 else "U = np.meshgrid(np.linspace(-(h2 - 1) / 2, (h2 - 1) / 2, h2), indexing='ij')[0]",
                     "c = U[..., None, None] * u" + (" + V[..., None, None] * v" if n == 2 else ""), "l = np.linalg.norm(c + D, axis=-1)"]
                out.append((f"pre-weights of {t}, {n}D detector, {'own' if own else 'given'} shape", G + "get_pre_weights", "the weight of a pixel is not the distance of the detector from the source over that of the pixel",
                            fn(s, mk(t, False), f"g.set_detector_shape_vu({hh})" if own else "pass", ret=f"g.get_pre_weights({'' if own else hh})"), fn(s, *r, ret="(np.linalg.norm(D, axis=-1) / (l + (l == 0))).swapaxes(-2, -1)")))
    seen = set()
    return [x for x in out if not (x[0] in seen or seen.add(x[0]))]


def default_rows():
    out = []
    W = "the default geometry does not have the source, detector, axes and rotation of the documentation"
    for cone in (False, True):
        for t in (("3d",) if cone else ("3d", "2d")):
            for sh in (None, "c", "Z", "VU"):
                for rd in (None, "'clockwise'", "'counter-clockwise'", "w"):
                    for shape in (None, "full"):
                        if sh in ("Z", "VU") and (rd is not None or shape):
                            continue
                        s = "D: float, c: float, Z: Arr[1], Z2: Arr[1], w: Arr[1], m: int, n: int, k: int"
                        a = ", ".join((["src_to_sam_dist=D"] if cone else [f"geom_type='{t}'"]) + ([f"rot_axis_shift_pix={'np.stack((Z2, Z))' if sh == 'VU' else sh}"] if sh else []) + ([f"rot_axis_dir={rd}"] if rd else []) + (["data_shape=(m, k, n)"] if shape else []))
                        r = ["u = np.array([[1.0, 0.0, 0.0]])", "v = np.array([[0.0, 0.0, 1.0]])"]
                        if sh in ("Z", "VU"):
                            r.append("if %s.size == 1:\n    raise ValueError()" % ("Z" if sh == "Z" else "np.stack((Z2, Z))"))
                        d = "np.zeros((1, 3))"
                        if sh == "c":
                            d = "(np.zeros((1, 3)) + u * c)"
                        elif sh:
                            r.append(f"p = np.zeros(({'Z' if sh == 'Z' else 'np.stack((Z2, Z))'}.shape[-1], 3))\np += u * Z.reshape([-1, 1])" + ("\np += v * Z2.reshape([-1, 1])" if sh == "VU" and t == "3d" else ""))
                            d = "p"
                        rot = {None: "np.array([[0.0, 0.0, -1.0]])", "'clockwise'": "np.array([[0.0, 0.0, -1.0]])", "w": "np.array(w, ndmin=2)"}.get(rd, "np.array([[0.0, 0.0, 1.0]])")
                        out.append((f"default {'cone' if cone else 'parallel' + t} geometry, {'no shift' if not sh else 'shift ' + sh}, {rd or 'default'} rotation{', detector shape' if shape else ''}", "models.get_prj_geom_" + ("cone" if cone else "parallel"), W,
                                    fn(s, *r[2:3], f"g = {M}get_prj_geom_{'cone' if cone else 'parallel'}({a})", ret=ALL),
                                    fn(s, *r, ret=ref("cone" if cone else "parallel" + t, f"np.array([[0.0, {'-D' if cone else '-1.0'}, 0.0]])", d, "u", "v", rot, "1", "None" if not shape else "np.array([m, n])" if t == "3d" else "np.array([n])"))))
    return out


def vol_rows():
    out = []
    V = "models.VolumeGeometry."
    s = "x: int, y: int, z: int, w: float"
    for nd in (2, 3):
        g = f"g = {M}VolumeGeometry(np.array([x, y{', z' if nd == 3 else ''}]), w)"
        for n, e, r in (("shape_xyz", "g.shape_xyz", "np.array([x, y%s])" % (", z" if nd == 3 else "")), ("shape_zxy", "g.shape_zxy", "np.array([%sx, y])" % ("z, " if nd == 3 else "")), ("mask_shape", "g.mask_shape", "np.array([x, y])"),
                        ("extent", "g.extent", "[-(x * w) / 2, x * w / 2, -(y * w) / 2, y * w / 2%s]" % (", -(z * w) / 2, z * w / 2" if nd == 3 else "")), ("is_square", "g.is_square()", "x == y"), ("is_3D", "g.is_3D()", "z > 1" if nd == 3 else "False"),
                        ("get_3d", "(g.get_3d().shape_xyz, g.get_3d().vox_size)", "(np.array([x, y, %s]), w)" % ("z" if nd == 3 else "1")), ("get_3d", "(g.get_3d(), g.shape_xyz)[1]", "np.array([x, y%s])" % (", z" if nd == 3 else ""))):
            out.append((f"{n}, {nd}D volume{', original' if '[1]' in e else ''}", V + n, f"the {n} of the volume does not follow from its XYZ shape and voxel size", fn(s, g, ret=e), fn(s, ret=r)))
        out.append((f"{nd}D volume from a list", V + "__post_init__", "the shape of the volume is not an array", fn(s, f"g = {M}VolumeGeometry([x, y{', z' if nd == 3 else ''}])", ret="(g.shape_xyz * 2, g.vox_size)"), fn(s, ret="(np.array([x * 2, y * 2%s]), 1.0)" % (", z * 2" if nd == 3 else ""))))
        D = f"v: Arr[{nd}]"
        out.append((f"geometry of a {nd}D volume", "models.get_vol_geom_from_volume", "the geometry of a volume does not have the shape of the volume", fn(D, f"g = {M}get_vol_geom_from_volume(v)", ret="(g.shape_zxy, g.vox_size)"), fn(D, ret="(np.array(v.shape), 1.0)")))
        out.append((f"geometry of a {nd}D volume, default constructor", "models.VolumeGeometry.get_default_from_volume", "the geometry of a volume does not have the shape of the volume", fn(D, f"g = {M}VolumeGeometry.get_default_from_volume(v)", ret="(g.shape_zxy, g.vox_size)"), fn(D, ret="(np.array(v.shape), 1.0)")))
    for nd, fmt, vax, uax in ((2, None, None, 1), (3, None, 0, 2), (4, None, 1, 3), (3, "vwu", 0, 2), (3, "wvu", 1, 2), (2, "uw", None, 0), (3, "dwu", None, 2), (3, "uvw", 1, 0)):
        for pad in (None, "p", "(p, k)"):
            for ss in (None, "S"):
                D = f"x: Arr[{nd}], p: int, k: int, S: int"
                n = f"x.shape[{uax}]" + {None: "", "p": " - 2 * p", "(p, k)": " - (p + k)"}[pad]
                e = f"(np.array([{n}, {n}{f', x.shape[{vax}]' if vax is not None else ''}]){' * S' if ss else ''}, {'1 / S' if ss else '1.0'})"
                out.append((f"volume from {nd}D data{', format ' + fmt if fmt else ''}{', padded ' + pad if pad else ''}{', super-sampled' if ss else ''}", "models.get_vol_geom_from_data", "the volume is not as wide as the unpadded data (times the super-sampling), and as high as the detector",
                            fn(D, f"g = {M}get_vol_geom_from_data(x{', padding_u=' + pad if pad else ''}{', data_format=' + repr(fmt) if fmt else ''}{', super_sampling=S' if ss else ''})", ret="(g.shape_xyz, g.vox_size)"), fn(D, ret=e)))
    out.append(("combined shifts", "models.combine_shifts_vu", "the vertical shifts are not the first row, and the horizontal ones the second", fn("a: Arr[1], b: Arr[1]", ret=f"{M}combine_shifts_vu(a, b)"), fn("a: Arr[1], b: Arr[1]", "if len(a) != len(b):\n    raise ValueError()", ret="np.stack([np.squeeze(a), np.squeeze(b)], axis=-2)")))
    return out


def rows():
    return vec_rows() + shift_rows() + default_rows() + vol_rows()


def run(chk, prog):
    chk.rule("vector-geometry", "rotations and tilts act on every vector of the acquisition geometry, selections select the same angles of all of them")
    chk.need("vector-geometry", table(chk, prog, "vector-geometry", vec_rows()))
    chk.rule("shifts", "detector and source shifts along the detector axes, scaled vectors, projected displacements and pre-weights")
    chk.need("shifts", table(chk, prog, "shifts", shift_rows()))
    chk.rule("default-geometry", "documented default geometries, and volumes from data and volumes")
    chk.need("default-geometry", table(chk, prog, "default-geometry", default_rows() + vol_rows()))
