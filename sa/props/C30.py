"""C30: structured illumination: mask collections, mask generators and ghost-imaging / ghost-tomography projectors are those of their definitions."""
from ..spec import table
from ..solverspec import fn

S = "corrct.struct_illum."
NCC = ("processing.misc.norm_cross_corr", "processing.misc.lines_intersection")
BIN = ("processing.pre.bin_imgs",)
FBP = ("solvers.FBP.__call__",)


def coll_rows():
    out = []
    for d in (3, 4):
        s = f"m: Arr[{d}], y: Arr[1], k: int"
        W = "the masks and the buckets are not rotated by the same amount"
        out.append((f"reordered masks ({d}D)", "struct_illum.reorder_masks", W, fn(s, ret=f"{S}reorder_masks(m, y, k)"), fn(s, "q = np.roll(m.reshape([-1, m.shape[-2], m.shape[-1]]), -k, axis=0).reshape(m.shape)", ret="(q, np.roll(y, -k))")))
        for o in ("", ", verbose=False"):
            out.append((f"QR decomposition of masks ({d}D{o})", "struct_illum.decompose_qr_masks", "the masks are not the product of the two components", fn(s, ret=f"{S}decompose_qr_masks(m{o})"),
                        fn(s, "q, r = np.linalg.qr(m.reshape([-1, np.prod(m.shape[-2:])]).T)", ret="(q.T.reshape(m.shape), np.linalg.inv(r.T))")))
    for n in (1, 2, 3):
        s = "m: Arr[3]"
        out.append((f"resolution of masks", "struct_illum.estimate_resolution", "the resolution is not made of the half widths of the auto-correlations", fn(s, ret=f"{S}estimate_resolution(m, verbose=False, plot_result=False)"),
                    fn(s, "m = m.reshape([-1, *m.shape[-2:]])", "m = m - m.mean(axis=(-2, -1), keepdims=True)", "r = np.zeros(len(m))", "for i, q in enumerate(m):\n    _, c = corrct.processing.misc.norm_cross_corr(q, plot=False)\n    p = corrct.processing.misc.lines_intersection(c, 0.5, position='first')\n    r[i] = p[0] if p is not None else 0", ret="(r.mean(), r.min())"), dict(opaque=NCC)))
        break
    chk = "if e.ndim < D + 1:\n    raise ValueError()"
    chk2 = chk + "\nif f.ndim < D + 1:\n    raise ValueError()\nif e.shape[:-D] != f.shape[:-D]:\n    raise ValueError()\nif e.shape[-D:] != f.shape[-D:]:\n    raise ValueError()"
    fields = {"masks_enc": "e", "masks_dec": None, "mask_dims": "D", "mask_type": None, "mask_support": None, "shape_fov": "e.shape[-D:]", "shape_shifts": "e.shape[:-D]", "num_buckets": "int(np.prod(e.shape[:-D]))", "num_pixels": "int(np.prod(e.shape[-D:]))"}
    for nd, D in ((3, 2), (4, 2), (2, 1), (3, 1), (2, 2), (1, 1)):
        for dec in (False, True):
            for ty in (False, True):
                s = f"e: Arr[{nd}], f: Arr[{nd}], t: str, p: Arr[1]"
                o = (["f"] if dec else []) + ([f"mask_dims={D}"] if D != 2 else []) + (["mask_type=t", "mask_support=p"] if ty else [])
                mk = f"c = {S}MaskCollection({', '.join(['e'] + o)})"
                g = (chk2 if dec else chk).replace("D", str(D))
                for a, r in fields.items():
                    if a == "masks_dec":
                        r = "f" if dec else "e"
                    if a == "mask_type":
                        r = "t" if ty else "'measured'"
                    if a == "mask_support":
                        r = "np.array(p, ndmin=1, dtype=int)" if ty else "np.array(e.shape[-D:], ndmin=1, dtype=int)"
                    out.append((f"collection of {D}D masks ({nd}D stack{', decoding' if dec else ''}{', described' if ty else ''}): {a}", "struct_illum.MaskCollection.__init__" if a.startswith("mask") else f"struct_illum.MaskCollection.{a}",
                                "the collection is not that of the given masks", fn(s, mk, ret=f"c.{a}"), fn(s, g, ret=r.replace("D", str(D)))))
    s = "e: Arr[3], f: Arr[3], t: str, i: int, y: Arr[1], k: int, b: int"
    mk = f"c = {S}MaskCollection(e, f, mask_type=t)"
    out.append(("names of masks", "struct_illum.MaskCollection.info", "the name is not that of the type of masks", fn(s, mk, ret="(c.info(), c.upper(), c.lower())"), fn(s, mk, ret="(t, t.upper(), t.lower())")))
    for nm, o, r in (("encoding", "", "e"), ("encoding", ", mask_encoding=True", "e"), ("decoding", ", mask_encoding=False", "f"), ("decoding", ", False", "f")):
        out.append((f"one {nm} mask{o}", "struct_illum.MaskCollection.get_mask", "the mask is not the requested one", fn(s, mk, ret=f"c.get_mask([i]{o})"), fn(s, mk, ret=f"{r}[i]")))
    s4 = s.replace("Arr[3]", "Arr[4]") + ", j: int"
    for nm, o, r in (("encoding", "", "e"), ("decoding", ", mask_encoding=False", "f")):
        out.append((f"one {nm} mask of a grid", "struct_illum.MaskCollection.get_mask", "the mask is not the requested one", fn(s4, mk, ret=f"c.get_mask([i, j]{o})"), fn(s4, mk, ret=f"{r}[i, j]")))
    mk1 = f"c = {S}MaskCollection(e, mask_type=t)"
    for o in ("", ", k", ", shift=k", ", shift=0"):
        sh = "if k != 0:\n    m, y = np.roll(m.reshape([-1, *m.shape[-2:]]), -k, axis=0).reshape(m.shape), np.roll(y, -k)" if "k" in o else ""
        for a, r in {"masks_enc": "m", "masks_dec": "m", "mask_dims": "2", "mask_type": "t"}.items():
            out.append((f"QR collection{o}: {a}", "struct_illum.MaskCollection.get_qr_decomposition", "the collection is not that of the decomposed masks", fn(s, mk1, f"q, z = c.get_qr_decomposition(y{o})", ret=f"(q.{a}, c.masks_enc, c.masks_dec)"),
                        fn(s, mk1, "m = e", "if np.any(e != e):\n    raise ValueError()", sh, f"m, r = {S}decompose_qr_masks(m)", ret=f"({r}, e, e)")))
        for nd in (1, 2):
            sy = s.replace("y: Arr[1]", f"y: Arr[{nd}]")
            out.append((f"buckets of a QR collection{o} ({nd}D)", "struct_illum.MaskCollection.get_qr_decomposition", "the buckets are not those of the decomposed masks", fn(sy, mk1, f"q, z = c.get_qr_decomposition(y{o})", ret="z"),
                        fn(sy, mk1, "m = e", "if np.any(e != e):\n    raise ValueError()", sh, f"m, r = {S}decompose_qr_masks(m)", ret="r.dot(y.T).T")))
    out.append(("QR decomposition of encoded masks", "struct_illum.MaskCollection.get_qr_decomposition", "masks with different encoding and decoding are decomposed", fn(s, mk, "q, z = c.get_qr_decomposition(y)", ret="q.masks_enc"),
                fn(s, mk, "if np.any(f != e):\n    raise ValueError()", f"m, r = {S}decompose_qr_masks(e)", ret="m")))
    for a, r in {"masks_enc": "corrct.processing.pre.bin_imgs(e, binning=b)", "masks_dec": "corrct.processing.pre.bin_imgs(f, binning=b)", "mask_dims": "2", "mask_type": "t"}.items():
        out.append((f"binned masks: {a}", "struct_illum.MaskCollection.bin_masks", "the collection is not that of the binned masks", fn(s, mk, "q = c.bin_masks(b)", ret=f"(q.{a}, c.masks_enc, c.masks_dec)"), fn(s, mk, ret=f"({r}, e, f)"), dict(opaque=BIN)))
    return out


def gen_rows():
    out = []
    Z = {"fov": "np.ceil(np.array([x, y]) / r).astype(int)", "scalar": "np.ceil(np.array([x, x]) / r).astype(int)"}
    s = "x: float, y: float, r: float, q: float, i: int, j: int, n: int, f: float"
    kinds = {"Point": ("pencil", False), "Bernoulli": ("bernoulli", True), "HalfGaussian": ("half-gaussian", True)}
    for k, (nm, ratio) in kinds.items():
        for sc in (False, True):
            for dr in (False, True):
                for ar in ((False, True) if ratio else (False,)):
                    o = ["x" if sc else "[x, y]"] + ([] if dr else ["r"]) + (["max_masks_ratio=q"] if ar else [])
                    mk = f"g = {S}MaskGenerator{k}({', '.join(o)})"
                    fov = "np.array([x, x])" if sc else "np.array([x, y])"
                    b = [f"F = {fov}", "R = 1.0" if dr else "R = r", "N = np.ceil(F / R).astype(int)", f"M = np.ceil(N * {'q' if ar else '1.2'}).astype(int)" if ratio else "M = N"]
                    vals = {"fov_size_mm": "F", "feature_size_mm": "F / N", "shape_fov": "N", "shape_mask": "N" if ratio else "np.array([1, 1], dtype=int)", "shape_shifts": "M", "transmittance": "1.0", "max_buckets": "int(np.prod(M))", "num_pixels": "int(np.prod(N))", "info()": repr(nm)}
                    for a, v in vals.items():
                        out.append((f"{nm} masks{', scalar field of view' if sc else ''}{', default resolution' if dr else ''}{', ratio' if ar else ''}: {a}", f"struct_illum.MaskGenerator{k}.__init__", "the generator is not that of the field of view and resolution", fn(s, mk, ret=f"g.{a}"), fn(s, *b, ret=v)))
    MURA = ["n = 4 * int(np.ceil((x / R - 1) / 4)) + 1", "a = np.zeros(n)\na[np.mod(np.arange(n) ** 2, n)[1:]] = 1", "e = a[:, None] * a[None, :] + (1 - a[:, None]) * (1 - a[None, :])", "e[0, :] = 0", "e[1:, 0] = 1", "d = e.copy()", "d[0, 0] = 1"]
    for dr in (False, True):
        mk = f"g = {S}MaskGeneratorMURA(x{'' if dr else ', r'})"
        b = ["R = 1.0" if dr else "R = r"] + MURA
        vals = {"fov_size_mm": "np.array([x, x])", "feature_size_mm": "np.array([x, x]) / n", "shape_fov": "np.array([n, n], dtype=int)", "shape_mask": "np.array([n, n], dtype=int)", "shape_shifts": "np.array([n, n], dtype=int)", "masks_enc": "e", "masks_dec": "d", "info()": "'mura'", "max_buckets": "int(np.prod(np.array([n, n], dtype=int)))"}
        for a, v in vals.items():
            out.append((f"MURA masks{', default resolution' if dr else ''}: {a}", "struct_illum.MaskGeneratorMURA.__init__", "the masks are not the modified uniformly redundant array", fn(s, mk, ret=f"g.{a}"), fn(s, *b, ret=v)))
        for nm, o, v in (("encoding", "", "e"), ("encoding", ", True", "e"), ("decoding", ", mask_encoding=False", "d")):
            out.append((f"shifted MURA mask{', default resolution' if dr else ''}, {nm}{o}", "struct_illum.MaskGeneratorMURA.generate_shifted_mask", "the mask is not the base mask, shifted", fn(s, mk, ret=f"g.generate_shifted_mask([i, j]{o})"),
                        fn(s, *b, ret=f"1 - (1 - np.roll(np.roll({v}, i, axis=0), j, axis=1)) * 1.0")))
            out.append((f"shifted MURA mask with transmittance{', default resolution' if dr else ''}, {nm}{o}", "struct_illum.MaskGeneratorMURA.generate_shifted_mask", "the transmittance is not that of the open elements", fn(s, mk, "g.transmittance = f", ret=f"g.generate_shifted_mask([i, j]{o})"),
                        fn(s, *b, ret=f"1 - (1 - np.roll(np.roll({v}, i, axis=0), j, axis=1)) * f")))
    out.append(("possible sizes of MURA masks", "struct_illum.MaskGeneratorMURA.compute_possible_mask_sizes", "the sizes are not the primes 4 k + 1 in the range", fn("n: int", ret=f"{S}MaskGeneratorMURA.compute_possible_mask_sizes(n)"),
                fn("n: int", "t = np.arange(1, (n - 1) // 4 + 1) * 4 + 1", ret="t[np.array([not np.any(x % np.arange(2, x // 2) == 0) for x in t])]")))
    N = "N = np.ceil(np.array([x, y]) / r).astype(int)"
    for tr in ("1.0", "f"):
        st = f"g.transmittance = {tr}" if tr != "1.0" else ""
        out.append((f"point mask, transmittance {tr}", "struct_illum.MaskGeneratorPoint.generate_shifted_mask", "the mask does not open the requested pixel only", fn(s, f"g = {S}MaskGeneratorPoint([x, y], r)", st, ret="g.generate_shifted_mask([i, j])"),
                    fn(s, N, "m = np.zeros(N, dtype=np.float32)", "m[i, j] = 1.0", ret=f"1 - (1 - m) * {tr}")))
        out.append((f"Bernoulli mask, transmittance {tr}", "struct_illum.MaskGeneratorBernoulli.generate_shifted_mask", "the mask is not made of random open and closed pixels", fn(s, f"g = {S}MaskGeneratorBernoulli([x, y], r)", st, ret="g.generate_shifted_mask([i, j])"),
                    fn(s, N, "m = np.random.randint(0, 2, size=N).astype(np.float32)", ret=f"1 - (1 - m) * {tr}")))
        out.append((f"half-Gaussian mask, transmittance {tr}", "struct_illum.MaskGeneratorHalfGaussian.generate_shifted_mask", "the mask is not made of random half-normal values", fn(s, f"g = {S}MaskGeneratorHalfGaussian([x, y], r)", st, ret="g.generate_shifted_mask([i, j])"),
                    fn(s, N, "m = np.abs(np.random.randn(*N)).astype(np.float32)", ret=f"1 - (1 - m) * {tr}")))
    GP = f"g = {S}MaskGeneratorPoint([x, y], r)"
    GRID = "a, b = np.meshgrid(np.arange(0, N[-2], {0}), np.arange(0, N[-1], {1}), indexing='ij')\na, b = a.flatten(), b.flatten()"
    W = "the shifts are not those of the type of scan"
    for nm, o, k0, k1 in (("one interval", "n", "n", "n"), ("two intervals", "[i, j]", "i", "j"), ("unit interval", "1", "1", "1")):
        out.append((f"shifts at {nm}", "struct_illum.MaskGenerator.get_interval_shifts", W, fn(s, GP, ret=f"g.get_interval_shifts({o})"), fn(s, N, GRID.format(k0, k1), ret="[a, b]")))
    out.append(("shifts at intervals, swapped axes", "struct_illum.MaskGenerator.get_interval_shifts", W, fn(s, GP, ret="g.get_interval_shifts([i, j], axes_order=(-1, -2))"), fn(s, N, "a, b = np.meshgrid(np.arange(0, N[-1], i), np.arange(0, N[-2], j), indexing='ij')", ret="[a.flatten(), b.flatten()]")))
    for o, c in (("", ""), ("n", "[:n]")):
        out.append((f"sequential shifts ({o})", "struct_illum.MaskGenerator.get_sequential_shifts", W, fn(s, GP, ret=f"g.get_sequential_shifts({o})"), fn(s, N, GRID.format(1, 1), ret=f"[a{c}, b{c}]")))
    out.append(("random shifts", "struct_illum.MaskGenerator.get_random_shifts", "the shifts are not distinct shifts among the available ones", fn(s, GP, ret="g.get_random_shifts(n)"),
                fn(s, N, GRID.format(1, 1), "p = np.random.permutation(np.prod(N))[:np.fmin(n, int(np.prod(N)))]", ret="[a[p], b[p]]")))
    for k, kw in (("Point", ""), ("Bernoulli", ""), ("HalfGaussian", ""), ("MURA", "")):
        mura = k == "MURA"
        mk = f"g = {S}MaskGenerator{k}({'x' if mura else '[x, y]'}, r)"
        for fr in ("", "f"):
            for ty in ("", "sequential", "Random", "interval", "other"):
                o = ", ".join(([fr] if fr else []) + ([f"shift_type={ty!r}"] if ty else []))
                ff = fr or "1"
                t = ty.lower() or "sequential"
                b = [mk]
                if t == "other":
                    b += ["raise ValueError()"]
                elif t == "interval":
                    b += [f"sv, su = g.get_interval_shifts(np.ceil(1 / {ff}).astype(int))"]
                else:
                    b += [f"m = np.ceil(g.num_pixels * {ff}).astype(int)", f"sv, su = g.get_{t}_shifts(m)"]
                e = "np.stack([g.generate_shifted_mask([v, u], True) for v, u in zip(sv, su)], axis=0)"
                d = "np.stack([g.generate_shifted_mask([v, u], False) for v, u in zip(sv, su)], axis=0)"
                c = f"c = {S}MaskCollection(e, {'d' if mura else 'None'}, mask_type={dict(Point='pencil', Bernoulli='bernoulli', HalfGaussian='half-gaussian', MURA='mura')[k]!r}, mask_support=g.shape_mask, mask_dims=2)"
                for a in ("masks_enc", "masks_dec", "mask_dims", "mask_type", "mask_support"):
                    out.append((f"generated {k} collection ({o}): {a}", "struct_illum.MaskGenerator.generate_collection", "the collection is not made of the masks at the chosen shifts", fn(s, mk, f"c = g.generate_collection({o})", ret=f"c.{a}"),
                                fn(s, *b, *([] if t == "other" else [f"e = {e}", f"d = {d}" if mura else "", c]), ret="0" if t == "other" else f"c.{a}")))
    return out


def proj_rows():
    out = []
    O = ', backend="numpy"'
    for D in (1, 2):
        for nd in ((2, 3) if D == 1 else (3, 4)):
            for mode in ("array", "collection", "encoded"):
                if mode == "array" and D == 1:
                    continue
                K = nd - D
                s = f"e: Arr[{nd}], f: Arr[{nd}], x: Arr[{D}], z: Arr[{D + 1}], y: Arr[1], w: Arr[2]"
                col = f"c = {S}MaskCollection(e{', f' if mode == 'encoded' else ''}, mask_dims={D})" if mode != "array" else ""
                chk = f"if e.ndim < {D + 1}:\n    raise ValueError()" + (f"\nif f.ndim < {D + 1}:\n    raise ValueError()\nif e.shape[:-{D}] != f.shape[:-{D}]:\n    raise ValueError()\nif e.shape[-{D}:] != f.shape[-{D}:]:\n    raise ValueError()" if mode == "encoded" else "")
                mk = f"A = {S}ProjectorGhostImaging({'e' if mode == 'array' else 'c'}{O})"
                d = "f" if mode == "encoded" else "e"
                B = ["n = int(np.prod(e.shape[:-D]))", "m = np.prod(e.shape[-D:])", "E = e.reshape([n, m])", f"G = {d}.reshape([n, m])"]
                B = [b.replace("D", str(D)) for b in B]
                sh, fov = f"e.shape[:-{D}]", f"e.shape[-{D}:]"
                t = f"ghost imaging ({D}D masks, {nd}D stack, {mode})"
                W = "the projector is not that of the masks"
                ax_s, ax_f = tuple(range(K)), tuple(range(-D, 0))
                vals = {"vol_shape": f"np.array({fov})", "prj_shape": "np.array([n])", "col_sum": f"np.abs({d}).sum(axis={ax_s})", "row_sum": f"np.sqrt(np.abs(e * {d})).sum(axis={ax_f})"}
                for a, v in vals.items():
                    r = f"np.array(A.{a})" if a == "vol_shape" else f"A.{a}"
                    out.append((f"{t}: {a}", "struct_illum.ProjectorGhostImaging.__init__", W, fn(s, col, mk, ret=r), fn(s, chk, *B, ret=v)))
                out.append((f"{t}: forward", "struct_illum.ProjectorGhostImaging.fp", "the bucket values are not the products of the image with the encoding masks", fn(s, col, mk, ret="A.fp(x)"), fn(s, chk, *B, ret="np.squeeze(x.reshape([np.prod(x.shape)]).dot(E.T))")))
                out.append((f"{t}: forward of a stack", "struct_illum.ProjectorGhostImaging.fp", "the bucket values are not the products of the images with the encoding masks", fn(s, col, mk, ret="A.fp(z)"), fn(s, chk, *B, ret="np.squeeze(z.reshape([z.shape[0], np.prod(z.shape[1:])]).dot(E.T))")))
                out.append((f"{t}: backward", "struct_illum.ProjectorGhostImaging.bp", "the image is not the sum of the decoding masks weighted by the buckets", fn(s, col, mk, ret="A.bp(y)"), fn(s, chk, *B, ret=f"y.dot(G).reshape({fov})")))
                out.append((f"{t}: backward of a stack", "struct_illum.ProjectorGhostImaging.bp", "the image is not the sum of the decoding masks weighted by the buckets", fn(s, col, mk, ret="A.bp(w)"), fn(s, chk, *B, ret=f"w.dot(G).reshape([w.shape[0], *{fov}])")))
                sc = [f"p = np.prod({sh}) / np.prod({fov})", f"h = np.fft.rfftn(v, axes={ax_f}, norm='ortho')", f"k = np.ones(np.array(h.shape)[{list(ax_f)}], dtype=v.dtype) / (int(np.prod({sh})) / np.prod({fov}))", "k[0, 0] = 1", "h = h * k", f"v = np.fft.irfftn(h, s={fov}, axes={ax_f}, norm='ortho')"]
                if D == 2:
                    out.append((f"{t}: scaling", "struct_illum.ProjectorGhostImaging.adjust_sampling_scaling", "the image is not corrected for the sampling ratio outside the zero frequency", fn(s, col, mk, ret="A.adjust_sampling_scaling(x)"), fn(s, chk, *B, "v = x", *sc, ret="v")))
                for adj in ((False, True) if D == 2 else (False,)):
                    o = ", adjust_scaling=True" if adj else ""
                    ls = [f"v = spalg.lstsq(e.reshape([-1, np.prod({fov})]), y)[0].reshape({fov})"]
                    out.append((f"{t}: least squares{o}", "struct_illum.ProjectorGhostImaging.fbp", "the image is not the least-squares one", fn(s, col, mk, ret=f"A.fbp(y{o})"), "import scipy.linalg as spalg\n" + fn(s, chk, *B, *ls, *(sc if adj else []), ret="v")))
                    if mode == "encoded":
                        bp = ["if np.any(e != f):\n    v = y.dot(G).reshape(" + fov + ")\nelse:\n    " + ls[0]]
                        out.append((f"{t}: decoded{o}", "struct_illum.ProjectorGhostImaging.fbp", "the image is not the back-projection of the buckets", fn(s, col, mk, ret=f"A.fbp(y, use_lstsq=False{o})"), "import scipy.linalg as spalg\n" + fn(s, chk, *B, *bp, *(sc if adj else []), ret="v")))
                out.append((f"{t}: absolute", "struct_illum.ProjectorGhostImaging.absolute", "the projector is not that of the absolute masks, or the original changed", fn(s, col, mk, "Q = A.absolute()", ret="(Q.fp(x), Q.bp(y), A.fp(x), A.bp(y))"),
                            fn(s, chk, *B, ret=f"(np.squeeze(x.reshape([np.prod(x.shape)]).dot(np.abs(e).reshape([n, m]).T)), y.dot(np.abs({d}).reshape([n, m])).reshape({fov}), np.squeeze(x.reshape([np.prod(x.shape)]).dot(E.T)), y.dot(G).reshape({fov}))")))
    s = "e: Arr[3], x: Arr[2]"
    out.append(("unknown backend of ghost imaging", "struct_illum.ProjectorGhostImaging._init_backend", "an unknown backend is accepted", fn(s, f"A = {S}ProjectorGhostImaging(e, backend='other')", ret="A.fp(x)"), fn(s, "if e.ndim < 3:\n    raise ValueError()", "raise ValueError()", ret="x")))
    # ghost tomography: the tomographic projector is a projector with its own shapes
    P = "corrct.operators.ProjectorOperator()"
    OP = ("operators.ProjectorOperator.fp", "operators.ProjectorOperator.bp")
    for D in (1, 2):
        nd = D + 1
        s = f"e: Arr[{nd}], n0: int, n1: int, n2: int, p0: int, p1: int, p2: int, x: Arr[{D + 1}], y: Arr[2]"
        ps = "np.array([p1, p2])" if D == 1 else "np.array([p0, p1, p2])"
        vs = "np.array([n1, n2])" if D == 1 else "np.array([n0, n1, n2])"
        T = [f"T = {P}", f"T.vol_shape = {vs}", f"T.prj_shape = {ps}"]
        mk = [f"c = {S}MaskCollection(e, mask_dims={D})", f"A = {S}ProjectorGhostTomography(c, T{O})"]
        want = "np.array([p2])" if D == 1 else "np.array([p0, p2])"
        chk = f"if e.ndim < {D + 1}:\n    raise ValueError()\nif any({want} != e.shape[-{D}:]):\n    raise ValueError()"
        B = [f"n = int(np.prod(e.shape[:-{D}]))", f"m = np.prod(e.shape[-{D}:])", "E = e.reshape([n, m])"]
        t = f"ghost tomography ({D}D masks)"
        for a, v in {"vol_shape": vs, "prj_shape": "np.array([p1, n])"}.items():
            out.append((f"{t}: {a}", "struct_illum.ProjectorGhostTomography.__init__", "the shapes are not those of the volumes and buckets", fn(s, *T, *mk, ret=f"A.{a}"), fn(s, chk, *B, ret=v)))
        A = T + [chk] + B
        V = ["v = T.fp(x)", "v = np.squeeze(np.array(v, ndmin=3).swapaxes(-3, -2))"]
        k = f"[*v.shape[:-{D}], np.prod(v.shape[-{D}:])]"
        out.append((f"{t}: forward", "struct_illum.ProjectorGhostTomography.fp", "the bucket values are not those of the projections of the volume", fn(s, *T, *mk, ret="A.fp(x)"), fn(s, *A, *V, ret=f"np.squeeze(v.reshape({k}).dot(E.T))"), dict(opaque=OP)))
        out.append((f"{t}: backward", "struct_illum.ProjectorGhostTomography.bp", "the volume is not the back-projection of the back-projected buckets", fn(s, *T, *mk, ret="A.bp(y)"),
                    fn(s, *A, f"v = y.dot(E).reshape([y.shape[0], *e.shape[-{D}:]])", ret="T.bp(np.squeeze(np.array(v, ndmin=3).swapaxes(-3, -2)))"), dict(opaque=OP)))
        for o in ("", ", adjust_scaling=True", ", use_lstsq=False"):
            if D == 1 and "scaling" in o:
                continue
            out.append((f"{t}: least squares{o}", "struct_illum.ProjectorGhostTomography.fbp", "the volume is not the FBP of the images of the buckets of every angle", fn(s, *T, *mk, ret=f"A.fbp(y{o})"),
                        fn(s, *T, *mk, f"G = {S}ProjectorGhostImaging(c{O})", f"v = [G.fbp(z{o}) for z in y]", "v = np.squeeze(np.array(v, ndmin=3).swapaxes(-3, -2))", "w, i = corrct.solvers.FBP()(T, v)", ret="w"), dict(opaque=OP + FBP)))
    return out


def rows():
    return coll_rows() + gen_rows() + proj_rows()


def run(chk, prog):
    for rule, desc, rr in (("collections", "mask collections, their orders, decompositions and binning are those of the given masks", coll_rows()),
                           ("generators", "mask generators produce the masks and shifts of their definitions", gen_rows()),
                           ("projectors", "ghost-imaging and ghost-tomography projectors are those of their masks", proj_rows())):
        chk.rule(rule, desc)
        chk.need(rule, table(chk, prog, rule, rr))
