"""C06: every operator's forward, adjoint and absolute value are the documented formulas, the adjoint mirroring the forward step by step."""
from ..spec import table
from ..solverspec import fn

O = "corrct.operators."
P = "corrct.projectors."
BK = "_projector_backends.ProjectorBackendSKimage."
BKOPQ = (BK + "fp", BK + "bp")
X = "x: np.ndarray"
NM = X + ", n: int, m: int"


def basic():
    out = []

    def row(cls, meth, what, args, ctor, expr, ref, name=None, **opt):
        out.append((f"{cls}: {name or expr}", f"operators.{cls}.{meth}", what, fn(args, f"op = {O}{cls}({ctor})", f"r = {expr}", ret="r"), fn(args, ref, ret="r"), opt))
    W = "the operator differs from its definition"
    row("TransformIdentity", "_op_direct", W, X, "x.shape", "op(x)", "r = x.copy()")
    row("TransformIdentity", "_op_adjoint", W, X, "x.shape", "op.T(x)", "r = x.copy()")
    D = X + ", s: np.ndarray"
    row("TransformDiagonalScaling", "_op_direct", W, D, "x.shape, s", "op(x)", "r = s * x")
    row("TransformDiagonalScaling", "_op_adjoint", W, D, "x.shape, s", "op.T(x)", "r = s * x")
    row("TransformDiagonalScaling", "absolute", W, D, "x.shape, s", "op.absolute()(x)", "r = np.abs(s) * x")
    row("TransformDiagonalScaling", "absolute", W, D, "x.shape, s", "op.absolute().T(x)", "r = np.abs(s) * x")
    K = X + ", k: np.ndarray, n: int, m: int"
    conv = """
k = {k}
pw = (np.array(k.shape) - 1) // 2
y = np.pad(x, pad_width=pw[:, None], mode={mode})
y = sp.signal.convolve(y, {ka}, mode='same')
r = y[tuple([slice(p if p else None, -p if p else None) for p in pw])]
"""
    kd = "np.array(k, ndmin=2)"
    for mode, mk in (("", "'edge'"), (", pad_mode='Reflect'", "'reflect'")):
        row("TransformConvolution", "_op_direct", W, K, "(n, m), k" + mode, "op(x)", conv.format(k=kd, mode=mk, ka="k"), name=f"op(x){mode}")
        row("TransformConvolution", "_op_adjoint", W, K, "(n, m), k" + mode, "op.T(x)", conv.format(k=kd, mode=mk, ka="k"), name=f"op.T(x){mode}")
    row("TransformConvolution", "_op_adjoint", W, K, "(n, m), k, flip_adjoint=True", "op.T(x)", conv.format(k=kd, mode="'edge'", ka="np.flip(k)"), name="op.T(x), flipped adjoint")
    row("TransformConvolution", "_op_direct", W, K, "(n, m), k, flip_adjoint=True", "op(x)", conv.format(k=kd, mode="'edge'", ka="k"), name="op(x), flipped adjoint")
    row("TransformConvolution", "_op_adjoint", W, K, "(n, m), k, is_symm=False", "op.T(x)", "r = x.copy()", name="op.T(x), not symmetric")
    A = "the absolute operator loses a setting of the operator, or is not that of the absolute kernel"
    ka = "np.array(np.abs(np.array(k, ndmin=2)), ndmin=2)"
    for name, ctor, d, ad in (("", "(n, m), k", "k", "k"), (", padding mode", "(n, m), k, pad_mode='reflect'", "k", "k"), (", flipped adjoint", "(n, m), k, flip_adjoint=True", "k", "np.flip(k)"),
                              (", not symmetric", "(n, m), k, is_symm=False", "k", None)):
        mode = "'reflect'" if "reflect" in ctor else "'edge'"
        row("TransformConvolution", "absolute", A, K, ctor, "op.absolute()(x)", conv.format(k=ka, mode=mode, ka=d), name="op.absolute()(x)" + name)
        row("TransformConvolution", "absolute", A, K, ctor, "op.absolute().T(x)", conv.format(k=ka, mode=mode, ka=ad) if ad else "r = x.copy()", name="op.absolute().T(x)" + name)
        row("TransformConvolution", "absolute", A, K, ctor, "op.T.absolute()(x)" if False else "op.absolute().pad_mode", f"r = {mode}", name="op.absolute().pad_mode" + name)
    # gradient, Laplacian: axes given and default, 2 and 3 dimensions
    for dims, axes in (("(n, m)", None), ("(n, m)", "(-1,)"), ("(n, m, n)", None), ("(n, m, n)", "(0, 2)")):
        nd = dims.count(",") + 1
        ax = list(range(-nd, 0)) if axes is None else list(eval(axes))
        ctor = dims + (f", axes={axes}" if axes else "")
        for mode in ("edge", "reflect"):
            c = ctor + (f", pad_mode='{mode.title()}'" if mode != "edge" else "")

            def padded(v, a, lo, hi):
                w = [[0, 0] for _ in range(nd)]
                w[a] = [lo, hi]
                return f"np.diff(np.pad({v}, {w}, mode='{mode}'), n={lo + hi}, axis={a})"
            row("TransformGradient", "_op_direct", W, NM, c, "op(x)", f"r = np.stack([{', '.join(padded('x', a, 0, 1) for a in ax)}], axis=0)", name=f"gradient of {nd}D data, axes {axes}, {mode}")
            row("TransformGradient", "_op_adjoint", W, NM, c, "op.T(x)", f"r = -({' + '.join(padded(f'x[{k}]', a, 1, 0) for k, a in enumerate(ax))})", name=f"adjoint gradient of {nd}D data, axes {axes}, {mode}")
            for e in ("op(x)", "op.T(x)"):
                row("TransformLaplacian", "_op_direct", W, NM, c, e, f"r = {' + '.join(padded('x', a, 1, 1) for a in ax)}", name=f"Laplacian of {nd}D data, axes {axes}, {mode}, {e}")
        row("TransformGradient", "__init__", "the shapes of the two spaces are wrong", NM, ctor, "op.dir_shape, op.adj_shape", f"r = np.array({dims}), np.array(({len(ax)}, *{dims}))", name=f"gradient shapes, {nd}D, axes {axes}")
        row("TransformLaplacian", "__init__", "the shapes of the two spaces are wrong", NM, ctor, "op.dir_shape, op.adj_shape", f"r = np.array({dims}), np.array({dims})", name=f"Laplacian shapes, {nd}D, axes {axes}")
        row("TransformFourier", "_op_direct", W, NM, ctor, "op(x)", f"f = np.fft.fftn(x, axes={tuple(ax)}, norm='ortho')\nr = np.empty(np.array((2, *{dims})), dtype=x.dtype)\nr[0] = f.real\nr[1] = f.imag", name=f"Fourier transform of {nd}D data, axes {axes}")
        row("TransformFourier", "_op_adjoint", W, NM, ctor, "op.T(x)", f"r = np.fft.ifftn(x[0] + 1j * x[1], axes={tuple(ax)}, norm='ortho').real", name=f"adjoint Fourier transform of {nd}D data, axes {axes}")
    # callables
    F = X + ", A, B"
    row("TransformFunctions", "_op_direct", W, F, "x.shape, x.shape, A, B", "op(x)", "r = A(x)", name="op(x), forward and adjoint given")
    row("TransformFunctions", "_op_adjoint", W, F, "x.shape, x.shape, A, B", "op.T(x)", "r = B(x) if B is not None else A(x)", name="op.T(x), forward and adjoint given")
    row("TransformFunctions", "_op_adjoint", W, F, "x.shape, x.shape, A", "op.T(x)", "r = A(x)", name="op.T(x), symmetric")
    # SVD
    S = X + ", y: np.ndarray, n: int, m: int"
    for axes, dims, rows_, cols in (("", "(n, m)", [0], [1]), (", axes_rows=0, axes_cols=(1, 2)", "(n, m, n)", [0], [1, 2]), (", axes_rows=(0,), axes_cols=(-1,)", "(n, m, n)", [0], [2])):
        nd = dims.count(",") + 1
        inv = [a for a in range(nd) if a not in rows_ + cols]
        perm = inv + rows_ + cols
        sh = dims[1:-1].split(", ")
        fs = ", ".join([sh[a] for a in inv] + [" * ".join(sh[a] for a in rows_), " * ".join(sh[a] for a in cols)])
        bs = ", ".join(sh[a] for a in perm)
        bperm = sorted(range(nd), key=lambda k: perm[k])
        for rescale in (False, True):
            res = "s = s / np.sqrt(V.shape[-1] * U.shape[-2])\nV = V * np.sqrt(V.shape[-1])\nU = U * np.sqrt(U.shape[-2])" if rescale else ""
            fw = f"z = np.reshape(np.transpose(x, np.array({perm})), np.array(({fs})))\nU, s, V = np.linalg.svd(z, full_matrices=False, compute_uv=True)\n{res}\n"
            ctor = dims + axes + (", rescale=True" if rescale else "")
            row("TransformSVD", "_op_direct", W, S, ctor, "op(x)", fw + "r = s", name=f"SVD of {nd}D data{axes}{', rescaled' if rescale else ''}")
            row("TransformSVD", "_op_adjoint", W, S, ctor, "(op(x), op.T(y))[1]", fw + f"t = np.matmul(U, y[..., None] * V)\nr = np.transpose(np.reshape(t, np.array(({bs}))), np.array({bperm}))", name=f"recomposition of {nd}D data{axes}{', rescaled' if rescale else ''}")
    return out


def wavelets():
    out = []
    pre = "import pywt\n"
    A = X + ", y: np.ndarray, n: int, m: int, lvl: int"
    W = "the wavelet transform differs from the PyWavelets transform it stands for, with the operator's own settings"
    for axes, ax in (("", "np.array([-2, -1])"), (", axes=(1,)", "np.array([1])")):
        c = f"(n, m), 'db2', lvl{axes}, pad_on_demand='reflect'"
        ctor = f"op = {O}TransformDecimatedWavelet({c})"
        s = f"s = dict(wavelet='db2', axes={ax}, mode='reflect')"
        ref = f"c = pywt.wavedecn(x, level=lvl, **s)\nv, inf = pywt.coeffs_to_array(c, axes={ax})\n"
        out.append((f"decimated wavelets{axes}: op(x)", "operators.TransformDecimatedWavelet._op_direct", W, pre + fn(A, ctor, "r = op(x)", ret="r"), pre + fn(A, s, ref, "r = v", ret="r")))
        inv = "t = pywt.waverecn(pywt.array_to_coeffs(y, inf), **s)\nif not np.all(t.shape == np.array((n, m))):\n    t = t[tuple([slice(0, n), slice(0, m)])]\nr = t"
        out.append((f"decimated wavelets{axes}: op.T(y) after op(x)", "operators.TransformDecimatedWavelet._op_adjoint", W, pre + fn(A, ctor, "op(x)", "r = op.T(y)", ret="r"), pre + fn(A, s, ref, inv, ret="r")))
        out.append((f"decimated wavelets{axes}: op.T(y) first", "operators.TransformDecimatedWavelet._op_adjoint", W, pre + fn(A, ctor, "r = op.T(y)", ret="r"),
                    pre + fn(A, s, ref.replace("(x,", "(np.zeros((n, m)),"), inv, ret="r")))
    for axes, ax, k in (("", "np.array([-2, -1])", 2), (", axes=(1,)", "np.array([1])", 1)):
        labels = ["da"] and {2: ["ad", "da", "dd"], 1: ["d"]}[k]
        nb = len(labels)
        for lvl in (1, 2):
            for norm in ("", ", normalized=False"):
                c = f"(n, m), 'db2', {lvl}{axes}, pad_on_demand=None{norm}"
                ctor = f"op = {O}TransformStationaryWavelet({c})"
                s = f"s = dict(wavelet='db2', axes={ax}, norm={not norm})"
                ref = f"c = pywt.swtn(x, level={lvl}, trim_approx=True, **s)\n"
                coefs = ", ".join(["c[0]"] + [f"c[{q}]['{lb}']" for q in range(1, lvl + 1) for lb in labels])
                out.append((f"stationary wavelets{axes}{norm}, level {lvl}: op(x)", "operators.TransformStationaryWavelet._op_direct", W, pre + fn(A, ctor, "r = op(x)", ret="r"),
                            pre + fn(A, s, ref, f"r = np.array([{coefs}])", ret="r")))
                dic = ", ".join(["y[0]"] + ["{" + ", ".join(f"'{lb}': y[{i + (q - 1) * nb + 1}]" for i, lb in enumerate(labels)) + "}" for q in range(1, lvl + 1)])
                out.append((f"stationary wavelets{axes}{norm}, level {lvl}: op.T(y)", "operators.TransformStationaryWavelet._op_adjoint", W, pre + fn(A, ctor, "r = op.T(y)", ret="r"),
                            pre + fn(A, s, f"r = pywt.iswtn([{dic}], **s)", ret="r")))
    # padding up to a multiple of 2 ** level, on the transformed axes only, more in front than behind
    for dims, axes, lvl, pads, ad in (("(5, 8)", "", 2, {-2: (2, 1)}, "(7, 8, 8)"), ("(5, 7)", "", 1, {-2: (1, 0), -1: (1, 0)}, "(4, 6, 8)"), ("(6, 7, 11)", ", axes=(-1,)", 2, {-1: (1, 0)}, "(3, 6, 7, 12)"),
                                      ("(6, 7, 9)", ", axes=(0, 2)", 2, {0: (1, 1), 2: (2, 1)}, "(7, 8, 7, 12)")):
        ax = axes[7:] or "(-2, -1)"
        labels = ["d"] if axes == ", axes=(-1,)" else ["ad", "da", "dd"]
        nb = len(labels)
        c = f"{dims}, 'db2', {lvl}{axes}, pad_on_demand='reflect'"
        ctor = f"op = {O}TransformStationaryWavelet({c})"
        s = f"s = dict(wavelet='db2', axes=np.array({ax}), norm=True)"
        W2 = W + " (padding included)"
        pad, crop = "", ""
        for a, (lo, hi) in pads.items():
            pad += f"p = [(0, 0)] * len(x.shape)\np[{a}] = ({lo}, {hi})\nx = np.pad(x, p, mode='reflect')\n"
            crop += f"q = [slice(None)] * len(t.shape)\nq[{a}] = slice({lo}, t.shape[{a}] - {hi}, 1)\nt = t[tuple(q)]\n"
        coefs = ", ".join(["c[0]"] + [f"c[{q}]['{lb}']" for q in range(1, lvl + 1) for lb in labels])
        dic = ", ".join(["y[0]"] + ["{" + ", ".join(f"'{lb}': y[{i + (q - 1) * nb + 1}]" for i, lb in enumerate(labels)) + "}" for q in range(1, lvl + 1)])
        nm = f"stationary wavelets of {dims} data{axes}, level {lvl}"
        out.append((f"{nm}: op(x)", "operators.TransformStationaryWavelet._op_direct", W2, pre + fn(A, ctor, "r = op(x)", ret="r"),
                    pre + fn(A, s, pad, f"c = pywt.swtn(x, level={lvl}, trim_approx=True, **s)", f"r = np.array([{coefs}])", ret="r")))
        out.append((f"{nm}: op.T(y)", "operators.TransformStationaryWavelet._op_adjoint", W2, pre + fn(A, ctor, "r = op.T(y)", ret="r"), pre + fn(A, s, f"t = pywt.iswtn([{dic}], **s)", crop, ret="t")))
        out.append((f"{nm}: shapes", "operators.TransformStationaryWavelet.__init__", "the shapes of the two spaces are wrong", fn(A, ctor, "r = op.dir_shape, op.adj_shape", ret="r"), fn(A, f"r = np.array({dims}), np.array({ad})", ret="r")))
    A3 = X + ", n: int, m: int"
    for axes, ax, nax in (("", "np.array([-2, -1])", 2), (", axes=(1,)", "np.array([1])", 1)):
        for lvl in (1, 2):
            sh = ""
            for a in (0, 1) if nax == 2 else (1,):
                sh += f"\nr[{a - 2 if nax == 2 else a}] = b[0][{a - 2 if nax == 2 else a}] + np.sum([" + ", ".join(f"b[{q}]['{'d' * nax}'][{a - 2 if nax == 2 else a}]" for q in range(1, lvl + 1)) + "])"
            out.append((f"decimated wavelets{axes}, level {lvl}: shapes", "operators.TransformDecimatedWavelet.__init__", "the shapes of the two spaces are wrong",
                        pre + fn(A3, f"op = {O}TransformDecimatedWavelet((n, m), 'db2', {lvl}{axes}, pad_on_demand='reflect')", "r = op.dir_shape, op.adj_shape", ret="r"),
                        pre + fn(A3, f"b = pywt.wavedecn_shapes(np.array((n, m)), 'db2', mode='reflect', level={lvl}, axes={ax})", "r = np.array((n, m))" + sh, ret="np.array((n, m)), r")))
    # the per-band norms used to scale the dual update
    for cls in ("TransformDecimatedWavelet", "TransformStationaryWavelet"):
        extra = ", pad_on_demand=None" if "Stat" in cls else ""
        bands = (("", ["01", "10", "11"]), (", axes=(1,)", ["1"]))
        for axes, labs in bands:
            prod = [" * ".join(f"f[{{{ch}}}]" for ch in lb) for lb in labs]
            for q, attr in ((0, "wlet_dec_filter_mult"), (2, "wlet_rec_filter_mult")):
                vals = ", ".join("(" + " * ".join(f"f[{q + int(ch)}]" for ch in lb) + ")" for lb in labs)
                out.append((f"{cls}{axes}: {attr}", f"operators.BaseWaveletTransform._initialize_filter_bank", "the norms of the wavelet filters of each band are wrong",
                            pre + fn(A3, f"op = {O}{cls}((n, m), 'db2', 2{axes}{extra})", f"r = op.{attr}", ret="r"),
                            pre + fn(A3, "f = np.linalg.norm(pywt.Wavelet('db2').filter_bank, ord=1, axis=-1)", f"r = np.array([{vals}])", ret="r")))
    return out


def geometry():
    """Sizes, angles and intensities a projector is set up with."""
    out = []
    G = "V: corrct.models.VolumeGeometry, ang: np.ndarray, I: np.ndarray, B: corrct._projector_backends.ProjectorBackendSKimage, s: bool, n: int, m: int, k: int"
    W = "the projector is set up with other sizes or angles than the ones it was given"
    ini = "if ang is None:\n    raise ValueError()\nB.initialize_geometry(V, ang, create_single_projs=s)"
    ref = "if ang is None:\n    raise ValueError()\nif V.is_3D():\n    raise ValueError()\ne = np.floor(V.shape_zxy * V.vox_size).astype(int)\na = np.array(ang, ndmin=1)"
    for e, r in (("B.angles_w_rad", "a"), ("np.array(B.prj_shape_vwu)", "np.array([*e[:-2], len(a), e[-1]])"), ("np.array(B.prj_shape_vu)", "np.array([*e[:-2], 1, e[-1]])"), ("B.get_vol_shape()", "V.shape_zxy"),
                 ("np.array(B.get_prj_shape())", "np.array([*e[:-2], len(a), e[-1]])"), ("B.has_individual_projs", "s"), ("B.is_initialized", "True")):
        out.append((f"scikit-image backend: {e}", "_projector_backends.ProjectorBackend.initialize_geometry", W, fn(G, ini, ret=e), fn(G, ref, ret=r)))
    for e, r in (("op.vol_shape", "np.array(B.get_vol_shape(), ndmin=1)"), ("op.prj_shape", "np.array(B.get_prj_shape(), ndmin=1)"), ("op.angles_rot_rad", "B.angles_w_rad"), ("op.vol_geom", "V"), ("op.get_pre_weights()", "None"),
                 ("op.prj_intensities", "np.array(I)"), ("op.prj_geom", "None")):
        c = f"if ang is None or I is None:\n    raise ValueError()\nop = {P}ProjectorUncorrected(V, ang, prj_intensities=I, backend=B)"
        d = "if ang is None or I is None:\n    raise ValueError()\nif not len(V.shape_xyz) in (2, 3):\n    raise ValueError()\nif not V.is_square():\n    raise ValueError()\nB.initialize_geometry(vol_geom=V, angles_rot_rad=ang, rot_axis_shift_pix=None, prj_geom=None, create_single_projs=False)"
        out.append((f"ProjectorUncorrected: {e}", "projectors.ProjectorUncorrected.__init__", W, fn(G, c, ret=e), fn(G, d, ret=r)))
    XG = "x: np.ndarray, n: int, B: corrct._projector_backends.ProjectorBackendSKimage, ang: np.ndarray, att: np.ndarray, ai: np.ndarray, ao: np.ndarray, w: float, v: float, wa: np.ndarray, I: np.ndarray, a: int"
    pre = "if ang is None or x is None or att is None or ai is None or ao is None:\n    raise ValueError()\nV = corrct.models.VolumeGeometry(np.array((n, n)))"
    base = f"U = {P}ProjectorUncorrected(V, ang, backend=B, create_single_projs=True)"
    chk = "if att.shape[1] != {nd} or not np.all(np.equal(att.shape[-2:], np.array((n, n)))):\n    raise ValueError()"
    for lab, args, ref in (("one weight for two detectors", "angles_detectors_rad=(0.5, 1.0), weights_detectors=w", "d = np.array((0.5, 1.0))\nW = np.tile(np.array((w,)), [2])"),
                           ("no weights", "angles_detectors_rad=(0.5, 1.0)", "d = np.array((0.5, 1.0))\nW = np.ones_like(d)"),
                           ("two weights for two detectors", "angles_detectors_rad=(0.5, 1.0), weights_detectors=(w, v)", "d = np.array((0.5, 1.0))\nW = np.array((w, v))")):
        c = chk.format(nd=2)
        ctor = f"{c}\nop = {P}ProjectorAttenuationXRF(V, ang, backend=B, {args}, att_maps=att)"
        r = f"{c}\n{base}\n{ref}\nT = np.ones((len(U.angles_rot_rad), 2))"
        out.append((f"XRF projector set-up, {lab}", "projectors.ProjectorAttenuationXRF.__init__", "the detectors' weights, angles or maps are not the ones given", fn(XG, pre, ctor, ret="(op.weights_det, op.angles_det_rad, op.weights_angles, op.att_vol_angles)"),
                    fn(XG, pre, r, ret="(W, d, T, att)")))
        col = "q = np.reshape(W, [1, -1, *np.ones(att.ndim - 2, dtype=int)]) / np.sum(W)\nmaps = np.sum(att * q, axis=1, keepdims=True)\nq = np.squeeze(q)"
        out.append((f"XRF projector with collapsed detectors, {lab}", "projectors.ProjectorAttenuationXRF.collapse_detectors", "the collapsed detector is not the weighted combination of the detectors, with their total weight",
                    fn(XG, pre, ctor, "op.collapse_detectors()", ret="(op.weights_det, op.angles_det_rad, op.weights_angles, op.att_vol_angles)"),
                    fn(XG, pre, r, col, ret="(np.sum(W, keepdims=True), np.sum(d * q, keepdims=True), np.sum(T * q, axis=1, keepdims=True), maps)")))
    for lab, args, mk in (("both volumes", "att_in=ai, att_out=ao, ", "ai, ao"), ("incident only", "att_in=ai, ", "ai, None"), ("emitted only", "att_out=ao, ", "None, ao")):
        ctor = f"op = {P}ProjectorAttenuationXRF(V, ang, backend=B, {args}angles_detectors_rad=(0.5, 1.0))"
        out.append((f"XRF projector, maps computed from {lab}", "projectors.ProjectorAttenuationXRF.__init__", "the attenuation maps are not those of the given volumes, angles and detectors", fn(XG, pre, ctor, ret="op.att_vol_angles"),
                    fn(XG, pre, base, f"m = corrct.physics.attenuation.AttenuationVolume({mk}, U.angles_rot_rad, np.array((0.5, 1.0)))\nm.compute_maps()", ret="m.get_maps()"), dict(opaque=("_projector_backends.compute_attenuation",))))
    return out


def projectors():
    out = []
    # explicit matrix
    M = X + ", M: np.ndarray, n: int, m: int, k: int"
    W = "the projector differs from its definition"
    for expr, ref in (("op(x)", "M.dot(x.flatten()).reshape(np.array((k, m)))"), ("op.T(x)", "M.transpose().dot(x.flatten()).reshape(np.array((n, m)))"),
                      ("op.fp(x)", "M.dot(x.flatten()).reshape(np.array((k, m)))"), ("op.bp(x)", "M.transpose().dot(x.flatten()).reshape(np.array((n, m)))"),
                      ("op.absolute()(x)", "np.abs(M).dot(x.flatten()).reshape(np.array((k, m)))"), ("op.absolute().T(x)", "np.abs(M).transpose().dot(x.flatten()).reshape(np.array((n, m)))"),
                      ("op.vol_shape, op.prj_shape", "(np.array((n, m)), np.array((k, m)))"), ("op.T.vol_shape, op.T.prj_shape", "(np.array((k, m)), np.array((n, m)))")):
        out.append((f"ProjectorMatrix: {expr}", "projectors.ProjectorMatrix." + ("bp" if "T" in expr or "bp" in expr else "fp"), W,
                    fn(M, f"op = {P}ProjectorMatrix(M, (n, m), (k, m))", f"r = {expr}", ret="r"), fn(M, f"r = {ref}", ret="r")))
    # (un)corrected projectors on an arbitrary backend
    G = "x: np.ndarray, V: corrct.models.VolumeGeometry, B: corrct._projector_backends.ProjectorBackendSKimage, ang: np.ndarray, I: np.ndarray, psf: np.ndarray, a: int"
    pre = "if I is None or psf is None or ang is None or x is None:\n    raise ValueError()"
    init = "B.initialize_geometry(vol_geom=V, angles_rot_rad=ang, rot_axis_shift_pix=None, prj_geom=None, create_single_projs={s})"
    conv = """
if len(np.squeeze(np.array(psf)).shape) >= len(V.shape_xyz):
    raise ValueError()
shp = B.prj_shape_vwu
C1 = corrct.operators.TransformConvolution(np.array([*B.prj_shape_vu[:-2], B.prj_shape_vu[-1]], ndmin=1), kernel=np.squeeze(np.array(psf)), is_symm=False)
C2 = corrct.operators.TransformConvolution(np.array(shp, ndmin=1), kernel=np.squeeze(np.array(psf))[..., None, :], is_symm=False)
"""
    chk = "if not len(V.shape_xyz) in (2, 3):\n    raise ValueError()\nif not V.is_square():\n    raise ValueError()"
    for it in (False, True):
        for ps in (False, True):
            ctor = f"op = {P}ProjectorUncorrected(V, ang, {'prj_intensities=I, ' if it else ''}{'psf=psf, ' if ps else ''}backend=B)"
            head = [pre, chk, init.format(s=False)] + ([conv] if ps else [])
            w = f" (intensities {'given' if it else 'not given'}, PSF {'given' if ps else 'not given'})"
            for expr, body in (("op.fp(x)", ["r = B.fp(x)"] + (["r = r * np.array(I)[:, np.newaxis]"] if it else []) + (["r = C2(r)"] if ps else [])),
                               ("op.bp(x)", (["x = x * np.array(I)[:, np.newaxis]"] if it else []) + (["x = C2.T(x)"] if ps else []) + ["r = B.bp(x)"]),
                               ("op.fp_angle(x, a)", ["r = B.fp(x, a)"] + (["r = r * np.array(I)[a]"] if it else []) + (["r = C1(r)"] if ps else [])),
                               ("op.bp_angle(x, a)", (["x = x * np.array(I)[a]"] if it else []) + (["x = C1.T(x)"] if ps else []) + ["r = B.bp(x, a)"])):
                out.append((f"ProjectorUncorrected: {expr}{w}", f"projectors.ProjectorUncorrected.{expr[3:expr.index('(')]}", "the projection is not backend, intensities and PSF in mirrored order",
                            fn(G, pre, ctor, f"r = {expr}", ret="r"), fn(G, *head, *body, ret="r"), dict(opaque=BKOPQ)))
    # the scikit-image backend: angle by angle with the angle's own index
    S = "x: np.ndarray, V: corrct.models.VolumeGeometry, B: corrct._projector_backends.ProjectorBackendSKimage, ang: np.ndarray, a: int"
    spre = "import skimage.transform\n"
    ini = "B.initialize_geometry(V, ang)"
    for expr, body in (("fp(x, a)", "r = np.squeeze(skimage.transform.radon(x, B.angles_w_deg[a:a + 1:]))"),
                       ("bp(x, a)", "r = skimage.transform.iradon(x[:, np.newaxis], B.angles_w_deg[a:a + 1:], circle=False, output_size=B.vol_shape_zxy[-1], **B._set_filter_name(None)) * 2 / np.pi"),
                       ("fp(x)", "r = np.empty(B.prj_shape_vwu, dtype=x.dtype)\nfor i, t in enumerate(B.angles_w_deg):\n    r[i] = np.squeeze(skimage.transform.radon(x, [t]))"),
                       ("bp(x)", "v = np.empty([B.prj_shape_vwu[-2], *B.vol_shape_zxy], dtype=x.dtype)\nfor i, t in enumerate(B.angles_w_deg):\n    v[i] = skimage.transform.iradon(x[i, :, np.newaxis], [t], circle=False, output_size=B.vol_shape_zxy[-1], **B._set_filter_name(None))\nr = np.sum(v, axis=0) * 2 / np.pi")):
        out.append((f"scikit-image backend: {expr}", f"{BK}{expr[:2]}", "the projection of an angle does not use that angle's data", spre + fn(S, ini, f"r = B.{expr}", ret="r"), spre + fn(S, ini, body, ret="r")))
    return out


def xrf():
    out = []
    G = "x: np.ndarray, n: int, B: corrct._projector_backends.ProjectorBackendSKimage, ang: np.ndarray, att: np.ndarray, w: float, v: float, wa: np.ndarray, I: np.ndarray, a: int"
    pre = "if I is None or ang is None or x is None or att is None:\n    raise ValueError()\nV = corrct.models.VolumeGeometry(np.array((n, n)))"
    W = "the attenuation-corrected projection does not use the maps, weights and projections of each detector and angle"
    for nd in (1, 2):
        det = "angles_detectors_rad=(0.5, 1.0), weights_detectors=(w, v), " if nd == 2 else "angles_detectors_rad=0.5, weights_detectors=w, "
        for wts in (True, False):
            for sym in (True, False):
                ctor = (f"if att.shape[1] != {nd} or not np.all(np.equal(att.shape[-2:], np.array((n, n)))):\n    raise ValueError()\n"
                        f"op = {P}ProjectorAttenuationXRF(V, ang, backend=B, prj_intensities=I, {det}{'weights_angles=wa, ' if wts else ''}att_maps=att, is_symmetric={sym}, psf=None)")
                ref = ctor.split("op =")[0] + f"U = {P}ProjectorUncorrected(V, ang, backend=B, prj_intensities=I, create_single_projs=True)\nW = np.array({'(w, v)' if nd == 2 else '(w,)'})\n"
                ref += "" if wts else f"wa = np.ones((len(U.angles_rot_rad), {nd}))\n"
                line = "np.stack([" + ", ".join(f"(W * wa[{{i}}, :])[{d}] * U.fp_angle((x * att[{{i}}])[{d}], {{i}})" for d in range(nd)) + "], axis=0)"
                if nd == 1:
                    line = f"np.squeeze({line}, axis=0)"
                back = "np.stack([" + ", ".join(f"(W * wa[{{i}}, :])[{d}] * U.bp_angle(s[{d}], {{i}})" for d in range(nd)) + "], axis=0)" + (" * att[{i}]" if sym else "")
                cut = f"s = np.reshape({{d}}, [{nd}, *{{d}}.shape[-1:]])"
                lab = f"{nd} detector{'s' * (nd > 1)}{', angle weights' if wts else ''}{', symmetric' if sym else ''}"
                out.append((f"XRF projector: fp_angle, {lab}", "projectors.ProjectorAttenuationXRF.fp_angle", W, fn(G, pre, ctor, ret="op.fp_angle(x, a)"), fn(G, pre, ref, ret=line.format(i="a")), dict(opaque=BKOPQ)))
                out.append((f"XRF projector: bp_angle of one line, {lab}", "projectors.ProjectorAttenuationXRF.bp_angle", W, fn(G, pre, ctor, ret="op.bp_angle(x, a, single_line=True)"),
                            fn(G, pre, ref, cut.format(d="x"), ret=f"np.sum({back.format(i='a')}, axis=0)"), dict(opaque=BKOPQ)))
                out.append((f"XRF projector: bp_angle, {lab}", "projectors.ProjectorAttenuationXRF.bp_angle", W, fn(G, pre, ctor, ret="op.bp_angle(x, a)"),
                            fn(G, pre, ref, "x = x[..., a, :]", cut.format(d="x"), ret=f"np.sum({back.format(i='a')}, axis=0)"), dict(opaque=BKOPQ)))
                if not sym:
                    full = f"s = np.reshape(x, [{nd}, *U.prj_shape])\nr = np.sum(np.stack([{', '.join(f'U.bp(s[{d}])' for d in range(nd))}], axis=0), axis=0)"
                    out.append((f"XRF projector: bp, {lab}, not symmetric", "projectors.ProjectorAttenuationXRF.bp", "the detectors' sinograms are not each back-projected and summed", fn(G, pre, ctor, ret="op.bp(x)"),
                                fn(G, pre, ref, full, ret="r"), dict(opaque=BKOPQ)))
                for par in (False, True):
                    w = "with op:\n    r = op.{m}(x)" if par else "r = op.{m}(x)"
                    lp = lab + (", inside a with statement" if par else "")
                    full = "r = np.stack([" + line.format(i="i") + " for i in range(len(U.angles_rot_rad))], axis=-2)\nif r.shape[0] == 1:\n    r = np.squeeze(r, axis=0)"
                    out.append((f"XRF projector: fp, {lp}", "projectors.ProjectorAttenuationXRF.fp", W, fn(G, pre, ctor, w.format(m="fp"), ret="r"), fn(G, pre, ref, full, ret="r"), dict(opaque=BKOPQ)))
                    if sym:
                        full = f"def one(t, i):\n    {cut.format(d='t')}\n    return np.sum({back.format(i='i')}, axis=0)\nr = np.sum([one(x[..., i, :], i) for i in range(len(U.angles_rot_rad))], axis=0)"
                        out.append((f"XRF projector: bp, {lp}", "projectors.ProjectorAttenuationXRF.bp", W, fn(G, pre, ctor, w.format(m="bp"), ret="r"), fn(G, pre, ref, full, ret="r"), dict(opaque=BKOPQ)))
    return out


def ghost():
    out = []
    G = "x: np.ndarray, y: np.ndarray, M: corrct.struct_illum.MaskCollection, T: corrct.operators.ProjectorOperator"
    W = "the bucket values are not the inner products of the image with the masks (or the back-projection not that of the decoding masks)"
    sh = "ms = [np.prod(M.shape_shifts), np.prod(M.shape_fov)]"
    E_, D_ = ("M.masks_enc", "M.masks_dec")

    def fp(x, e):
        return f"np.squeeze({x}.reshape([*{x}.shape[: -M.mask_dims], np.prod({x}.shape[-M.mask_dims :])]).dot({e}.reshape(ms).T))"

    def bp(y, d):
        return f"{y}.dot({d}.reshape(ms)).reshape([*{y}.shape[:-1], *M.shape_fov])"
    ctor = "op = corrct.struct_illum.ProjectorGhostImaging(M, backend='numpy')"
    S = "struct_illum.ProjectorGhostImaging."
    for expr, ref, m in (("op(x)", fp("x", E_), "fp"), ("op.T(y)", bp("y", D_), "bp"), ("op.absolute()(x)", fp("x", f"np.abs({E_})"), "absolute"), ("op.absolute().T(y)", bp("y", f"np.abs({D_})"), "absolute"),
                         ("(op.absolute(), op(x), op.T(y))[1:]", f"({fp('x', E_)}, {bp('y', D_)})", "absolute")):
        out.append((f"ghost imaging projector: {expr}", S + m, W, fn(G, ctor, f"r = {expr}", ret="r"), fn(G, sh, f"r = {ref}", ret="r")))
    return out


def rows():
    # the stationary wavelets are refused for old versions of PyWavelets, which is not the operator's formula
    w = [(*r[:5], dict(r[5] if len(r) > 5 else {}, rejects=False)) if "tationary" in r[0] or "TransformStationary" in r[1] else r for r in wavelets()]
    return basic() + w + geometry() + projectors() + xrf() + ghost()


def run(chk, prog):
    chk.rule("operator-formula", "the array returned by op(x), op.T(x), op.absolute() equals, as a term over the symbolic input and the constructor's arguments, the documented formula")
    n = table(chk, prog, "operator-formula", rows())
    chk.need("operator-formula", n)
