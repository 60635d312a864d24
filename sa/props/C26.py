"""C26: image-quality measures: radial averages, power spectra, ring correlations, normalised cross-correlation, centre of mass, bias / variance maps."""
from ..spec import table
from ..solverspec import fn

M, P = "processing.misc.", "processing.post."
AZ, CM = "corrct.processing.misc.azimuthal_integration", "corrct.processing.misc.circular_mask"
OPQ = dict(opaque=("processing.misc.azimuthal_integration", "processing.misc.circular_mask"))


def az_rows():
    W = "a pixel is not distributed linearly over the two radii around its own distance from the centre"
    out = []
    for nd, ax in ((1, (-1,)), (2, (-2, -1)), (2, (0, 1)), (3, (-3, -2, -1)), (3, (-2, -1)), (3, (0, 2)), (2, (-1,)), (2, (0,))):
        for dom in ("direct", "fourier"):
            s = f"x: Arr[{nd}]"
            ap = [a % nd for a in ax]
            rest = [i for i in range(nd) if i not in ap]
            c = "np.linspace(-(k - 1) / 2, (k - 1) / 2, k)" if dom == "direct" else "np.fft.fftfreq(k, 1 / k)"
            r = ["sh = np.array(np.array(x.shape)[list(%r)], ndmin=1)" % (ax,), f"g = np.stack(np.meshgrid(*[{c} for k in sh], indexing='ij'))", "d = np.sqrt(np.sum(g ** 2, axis=0))", "lo = np.floor(d)",
                 f"y = np.transpose(x, np.array({rest + ap}))", "b = np.concatenate((lo.flatten(), (lo + 1).flatten())).astype(int)"]
            if rest:
                r += [f"o = y.shape[:{len(rest)}]", "y = np.reshape(y, [-1, *sh])", "wl = (lo + 1 - d) * y\nwu = (d - lo) * y", "res = np.array([np.bincount(b, weights=np.concatenate((wl[i].flatten(), wu[i].flatten()))) for i in range(y.shape[0])])"]
                ret = "np.reshape(res, (*o, res.shape[-1]))"
            else:
                ret = "np.bincount(b, weights=np.concatenate((((lo + 1 - d) * y).flatten(), ((d - lo) * y).flatten())))"
            out.append((f"azimuthal integration of a {nd}D image over {ax}, {dom}", M + "azimuthal_integration", W, fn(s, ret=f"{AZ}(x, {ax}, domain={dom!r})"), fn(s, *r, ret=ret)))
    return out


def spec_rows():
    out = []
    for nd, ax in ((2, None), (3, None), (3, (-2, -1)), (2, (-1,))):
        L = list(range(-nd, 0)) if ax is None else list(ax)
        for tap in (True, False):
            for smo in (True, False):
                s = f"x: Arr[{nd}], y: Arr[{nd}], t: float"
                o = f"{'' if ax is None else f', axes={L}'}{', taper_ratio=t' if tap else ', taper_ratio=None'}{'' if smo else ', smooth=None'}"
                pre = ["sh = np.array(x.shape)", f"sa = sh[{L}]"]
                if tap:
                    pre.append(f"m = {CM}(sh, coords_ball={L}, radius_offset=-float(t * np.mean(sa)), taper_func='cos')\nx = x * m\ny = y * m")
                az = lambda e: f"{AZ}({e}, axes={L}, domain='fourier')"
                win = "w = scipy.signal.windows.hann(5)\nw = w / np.sum(w)"
                nm = f"{nd}D{'' if ax is None else f' over {ax}'}{', tapered' if tap else ''}{', smoothed' if smo else ''}"
                rest = nd - len(L)
                r = pre + [f"ps = {az(f'np.abs(np.fft.fftn(x, axes={L})) ** 2')} / {az('np.ones_like(x)')} / np.sqrt(np.min(sa) ** {len(L)}) ** 2"]
                out.append((f"power spectrum, {nm}", P + "power_spectrum", "the curve is not the mean squared spectrum over each ring of frequencies", fn(s, ret=f"corrct.processing.post.power_spectrum(x{o})"),
                            "import scipy.signal.windows\nimport scipy.ndimage\n" + fn(s, *r, *([win, "ps = scipy.ndimage.convolve(ps, w.reshape([*[1] * (ps.ndim - 1), -1]), mode='nearest')"] if smo else []), ret="ps[..., : np.min(sa) // 2]"), OPQ))
                g = "if np.any(np.array(x.shape) != np.array(y.shape)):\n    raise ValueError()"
                for theo in (True, False):
                    r = [g, *pre, f"a = np.fft.fftn(x, axes={L})\nb = np.fft.fftn(y, axes={L})\nc = a * np.conj(b)", f"num = np.sqrt({az('c.real')} ** 2 + {az('c.imag')} ** 2)", f"den = {az('np.abs(a) ** 2')} * {az('np.abs(b) ** 2')}", "f = num / np.sqrt(den + (den == 0))"]
                    r.append("if f.ndim > 1:\n    f = f.mean(axis=tuple(range(-f.ndim, -1)))")
                    if theo:
                        r.append(f"q = np.concatenate(((1.0,), 2 * np.pi ** ({len(L)} / 2) / scipy.special.gamma({len(L)} / 2) * np.arange(1, len(f)) ** ({len(L)} - 1)))")
                    else:
                        r.append(f"q = {az('np.ones_like(x)')}")
                    r.append("h = (z + (2 * np.sqrt(z) + 1) / np.sqrt(q)) / (z + 1 + 2 * np.sqrt(z) / np.sqrt(q))")
                    if smo:
                        r += [win, "f = scipy.ndimage.convolve(f, w.reshape([*[1] * (f.ndim - 1), -1]), mode='nearest')"]
                    for k, v in (("0", "f"), ("1", "h")):
                        out.append((f"ring correlation{', threshold' if k == '1' else ''}, {nm}{', theoretical ring sizes' if theo else ''}", P + "compute_frc", "the curve is not the correlation of the two spectra normalised by their energies, or the threshold is not that of the ring sizes",
                                    fn(s + ", z: float", ret=f"corrct.processing.post.compute_frc(x, y, z{o}{'' if theo else ', theo_threshold=False'})[{k}]"),
                                    "import scipy.signal.windows\nimport scipy.ndimage\nimport scipy.special\n" + fn(s + ", z: float", *r, ret=f"{v}[..., : np.min(sa) // 2]"), OPQ))
    return out


def other_rows():
    out = []
    for nd, ax in ((1, (-1,)), (2, (-2, -1)), (3, (-2, -1)), (3, (0, 2))):
        for two in (True, False):
            for full in (True, False):
                for prof in (True, False):
                    s = f"x: Arr[{nd}], y: Arr[{nd}]"
                    Y = "y" if two else "x"
                    r = [f"f = {Y}.astype(np.float32)"] + [f"f = np.flip(f, axis={a})" for a in ax] + [f"c = scipy.signal.fftconvolve(x.astype(np.float32), f, mode='full', axes={ax})"]
                    if not full:
                        sl = ["slice(None)"] * nd
                        for a in ax:
                            r.append(f"b{a % nd} = (c.shape[{a}] - x.shape[{a}]) // 2")
                            sl[a % nd] = f"slice(b{a % nd}, b{a % nd} + x.shape[{a}])"
                        r.append(f"c = c[({', '.join(sl)},)]")
                    r.append(f"c = np.fft.ifftshift(c / (np.linalg.norm(x.astype(np.float32)) * np.linalg.norm({Y}.astype(np.float32))), axes={ax})")
                    call = f"corrct.processing.misc.norm_cross_corr(x, {Y if two else 'None'}, axes={ax}{'' if full else ', mode_full=False'}, compute_profile={prof}, plot=False)"
                    for k, ret in ((0, "c"), (1, f"({AZ}(c, axes={ax}, domain='fourier') / {AZ}(np.ones_like(c), axes={ax}, domain='fourier'))[..., :np.min(np.array(x.shape)[list({ax})])]")) if prof else ((None, "c"),):
                        out.append((f"{'cross' if two else 'auto'}-correlation of {nd}D images over {ax}{', full' if full else ''}{', profile' if k else ''}", M + "norm_cross_corr", "the correlation is not that of the two images normalised by their norms, re-ordered over the correlated axes only",
                                    fn(s, ret=call + ("" if k is None else f"[{k}]")), "import scipy.signal\n" + fn(s, *r, ret=ret), dict(OPQ, ignore=())))
    for full in (True, False):
        ax = (-2, -1)
        r = ["z = np.zeros(2, dtype=int)\nz[-2] = x.shape[-2]\nz[-1] = x.shape[-1]", "a = x.astype(np.float32)", "f = np.flip(np.flip(y.astype(np.float32), axis=-2), axis=-1)",
             "def ls(q):\n    t = np.pad(q, z)\n    t = np.cumsum(t, axis=-2)\n    t = t[x.shape[-2]:-1, :] - t[0:-x.shape[-2] - 1, :]\n    t = np.cumsum(t, axis=-1)\n    return t[:, x.shape[-1]:-1] - t[:, 0:-x.shape[-1] - 1]".replace("x.shape", "q.shape").replace("np.pad(q, z)", "np.pad(q, np.array([q.shape[0], q.shape[1]]))"),
             "c = scipy.signal.fftconvolve(a, f, mode='full', axes=(-2, -1))", "l1 = ls(f)\nl2 = ls(f ** 2)"]
        if not full:
            r.append("b0 = (c.shape[0] - x.shape[0]) // 2\nb1 = (c.shape[1] - x.shape[1]) // 2\nc = c[b0:b0 + x.shape[0], b1:b1 + x.shape[1]]\nl1 = l1[b0:b0 + x.shape[0], b1:b1 + x.shape[1]]\nl2 = l2[b0:b0 + x.shape[0], b1:b1 + x.shape[1]]")
        r.append("c = (c - l1 * np.mean(a)) / (np.std(a) * np.sqrt(np.prod(np.array(a.shape))))")
        r.append("c = c / np.sqrt((l2 - l1 ** 2 / np.prod(np.array(f.shape))).clip(0, None))")
        s = "x: Arr[2], y: Arr[2]"
        out.append((f"template matching{', full' if full else ''}", M + "norm_cross_corr", "the correlation is not normalised by the local mean and deviation of the second image", fn(s, ret=f"corrct.processing.misc.norm_cross_corr(x, y, t_match=True{'' if full else ', mode_full=False'}, compute_profile=False)"),
                    "import scipy.signal\n" + fn(s, *r, ret="np.fft.ifftshift(c, axes=(-2, -1))"), OPQ))
    s = "x: Arr[2], y: Arr[2], t: float"
    for k in (0, 1):
        out.append((f"ring correlation of super-sampled images{', threshold' if k else ''}", P + "compute_frc", "the super-sampled curve is not the curve of the interpolated images", fn(s, ret=f"corrct.processing.post.compute_frc(x, y, axes=[-2, -1], taper_ratio=t, supersampling=2)[{k}]"),
                    "import scipy.ndimage\n" + fn(s, "if np.any(np.array(x.shape) != np.array(y.shape)):\n    raise ValueError()", "a = scipy.ndimage.zoom(x, zoom=2, order=5)\nb = scipy.ndimage.zoom(y, zoom=2, order=5)", ret=f"corrct.processing.post.compute_frc(a, b, axes=[-2, -1], taper_ratio=t)[{k}]"), dict(OPQ, rejects=False)))
    for nd, ax in ((1, None), (2, None), (3, None), (3, (0, 2)), (3, (1,)), (2, (-1,))):
        L = list(range(nd)) if ax is None else list(ax)
        r = [f"o = np.empty(({len(L)},))"] + [f"q = np.abs(x).sum(axis={tuple(i for i in range(nd) if i != a % nd)})\nk = x.shape[{a}]\no[{i}] = q.dot(np.linspace(-(k - 1) / 2, (k - 1) / 2, k)) / q.sum()" for i, a in enumerate(L)]
        out.append((f"centre of mass of {nd}D images{'' if ax is None else f' over {ax}'}", P + "com", "the centre of mass is not the mean position of the absolute values along each requested axis", fn(f"x: Arr[{nd}]", ret=f"corrct.processing.post.com(x{'' if ax is None else f', {L}'})"), fn(f"x: Arr[{nd}]", *r, ret="o")))
    W = "the maps are not the bias, variance and mean squared error over the realisations"
    for nd, ax in ((2, 0), (3, 0), (2, 1), (2, -1)):
        s = f"x: Arr[{nd}], r: Arr[{nd + 1}]"
        g = f"R = np.moveaxis(r, {ax}, 0)\nif any([{', '.join(f'R.shape[{i + 1}] != x.shape[{i}]' for i in range(nd))}]):\n    raise ValueError()"
        for k, (what, ret) in enumerate((("mean squared error", "((R - x) ** 2).mean(axis=0)"), ("squared bias", "(R.mean(axis=0) - x) ** 2"), ("variance", "R.var(axis=0, ddof=1)"))):
            out.append((f"{what} map of {nd}D reconstructions along {ax}", P + "compute_reconstruction_bias_variance_maps", W, fn(s, ret=f"corrct.processing.post.compute_reconstruction_bias_variance_maps(x, r{'' if ax == 0 else f', realizations_axis={ax}'})[{k}]"), fn(s, g, ret=ret)))
    return out


def mask_rows():
    out = []
    W = "the mask is not one within the requested distance of its centre and zero (or tapered) beyond"
    for nd, ball in ((2, None), (3, None), (3, (-3, -2, -1)), (2, (-1,)), (3, (0, 2))):
        L = list(range(-min(2, nd), 0)) if ball is None else list(ball)
        for org in (False, True):
            for tap in (None, "edge", "diagonal", "number"):
                for ss in (1, 2):
                    s = ", ".join(f"n{i}: int" for i in range(nd)) + ", d: float, o0: float, o1: float, o2: float, t: float, p: float"
                    sh = "[" + ", ".join(f"n{i}" for i in range(nd)) + "]"
                    og = "[" + ", ".join(f"o{i}" for i in range(nd)) + "]"
                    o = ", d" + "".join(("" if ball is None else f", coords_ball={ball}", f", vol_origin_zxy={og}" if org else "", "" if tap is None else f", taper_func='cos', taper_target={'t' if tap == 'number' else repr(tap)}", "" if ss == 1 else f", super_sampling={ss}", ", ball_norm=p" if org else ""))
                    f = "" if ss == 1 else f" * {ss}"
                    r = ["c = np.stack(np.meshgrid(" + ", ".join(f"np.linspace(-(n{i}{f} - 1) / {2 * ss}, (n{i}{f} - 1) / {2 * ss}, n{i}{f}, dtype=np.float32){f' + o{i}' if org else ''}" for i in range(nd)) + ", indexing='ij'), axis=0)"]
                    r.append(f"q = np.array({sh})[np.array({L})]{f}")
                    r.append(f"R = np.min(q) / {2 * ss} + d")
                    r.append(f"D = np.abs(c[np.array({L}), ...])" if len(L) == 1 else f"D = np.linalg.norm(c[np.array({L}), ...], axis=0, ord={'p' if org else 2})")
                    if tap is None:
                        r.append("m = (D <= R).astype(np.float32)")
                    else:
                        r.append({"edge": f"C = np.min(q) / {2 * ss}", "diagonal": f"C = np.min(q) / (np.sqrt(2) * {ss})", "number": f"C = np.min(q) / {2 * ss} + np.maximum(t, d)"}[tap])
                        r.append("m = (np.cos(np.maximum(D - R, 0) / (C - R) * np.pi) / 2 + 0.5) * (D < C)")
                    if ss > 1:
                        r.append("m = np.mean(m.reshape(np.array([" + ", ".join(f"n{i}, {ss}" for i in range(nd)) + f"])), axis={tuple(range(1, 2 * nd, 2))})")
                    out.append((f"circular mask, {nd}D{'' if ball is None else f' over {ball}'}{', shifted, other norm' if org else ''}{'' if tap is None else f', tapered to {tap}'}{'' if ss == 1 else ', super-sampled'}", M + "circular_mask", W, fn(s, ret=f"{CM}({sh}{o})"), fn(s, *r, ret="np.squeeze(m)")))
    return out


def line_rows():
    out = []
    W = "the point is not the intersection of the two lines at the requested sign change"
    for two in (True, False):
        for pos in ("first", "last"):
            for lim in (None, "(a, None)", "(None, b)", "(a, b)"):
                s = f"x: Arr[1], y: {'Arr[1]' if two else 'float'}, a: int, b: int"
                Y = "y" if two else "np.array([y])"
                sl = {None: "", "(a, None)": "[a:]", "(None, b)": "[:b]", "(a, b)": "[a:b]"}[lim]
                r = ["u = np.array(np.squeeze(x), ndmin=1)\nv = np.array(np.squeeze(y), ndmin=1)", "c = np.where(v > u, 0, 1)", f"k = np.where(np.abs(np.diff(c)){sl})[0]", "if k.size == 0:\n    return None", f"i = k[{0 if pos == 'first' else -1}]{' + a' if lim and 'a' in lim.split(',')[0] else ''}",
                     "y1, y2 = u[i], u[i + 1]", "y3, y4 = (v[i], v[i + 1]) if v.size != 1 else (v, v)", "den = y1 - y2 - y3 + y4".replace("y1 - y2 - y3 + y4", "(y1 - y2) - (y3 - y4)")]
                for k, ret in ((0, "float((y1 - y3) / den + i)"), (1, "float((y1 * (y3 - y4) * -1 + (y1 - y2) * y3) / den)")):
                    out.append((f"intersection of {'two lines' if two else 'a line and a level'}, {pos}{f', within {lim}' if lim else ''}, {'position' if k == 0 else 'value'}", M + "lines_intersection", W, fn(s, f"p = corrct.processing.misc.lines_intersection(x, y{'' if pos == 'first' else ', position=' + repr(pos)}{f', x_lims={lim}' if lim else ''})", "if p is None:\n    return None", ret=f"p[{k}]"), fn(s, *r, ret=ret)))
    return out


def extra_rows():
    out = []
    for nd in (1, 2, 3):
        for ss in (None, 3):
            for func in (False, True):
                q = ss or 5
                s = ", ".join(f"n{i}: int" for i in range(nd)) + ", R: float"
                r = [f"c = np.stack(np.meshgrid(*[np.fft.fftfreq(k, 1 / k) for k in np.array([{', '.join(f'n{i} * {q}' for i in range(nd))}])], indexing='ij'), axis=0)", f"d = np.sqrt(np.sum(c ** 2, axis=0)) / {q}", "m = (d < R).astype(np.float32)"]
                if func:
                    r.append("m = m * (1 - d)")
                r += [f"m = np.roll(m, {q // 2}, axis={tuple(range(nd))})", f"m = m.reshape(np.array([{', '.join(f'n{i}, {q}' for i in range(nd))}]))", f"m = np.mean(m, axis={tuple(range(1, 2 * nd, 2))})"]
                out.append((f"ball, {nd}D{'' if ss is None else ', other super-sampling'}{', with radial function' if func else ''}", M + "ball", "the ball is not the average over the sub-pixels within the radius", fn(s, ret=f"corrct.processing.misc.ball([{', '.join(f'n{i}' for i in range(nd))}], R{'' if ss is None else ', super_sampling=3'}{', func=lambda r: 1 - r' if func else ''})"),
                            fn(s, *r, ret="np.fft.fftshift(m)")))
    for nd in (1, 2, 3):
        for op in (False, True):
            s = f"x: Arr[{nd}], y: Arr[{nd}]" + (", M: np.ndarray" if op else "")
            T = "prj = corrct.operators.TransformFunctions(x.shape, y.shape, lambda v: v @ M, lambda v: v @ M.T)" if op else "pass"
            a = ["import scipy.optimize", "" if op else "pass", f"u = {'x @ M' if op else 'x'}\nw = {'np.ones_like(x) @ M' if op else 'np.ones_like(x)'}",
                 "def cost(q: np.ndarray):\n    a, b = float(q[0]), float(q[1])\n    r = " + ("(x * a + b) @ M" if op else "x * a + b") + " - y\n    return (np.sum(r ** 2) / 2, np.array((a * np.sum(u ** 2) + b * np.sum(u * w) - np.sum(y * u), a * np.sum(u * w) + b * np.sum(w ** 2) - np.sum(y * w))))", "o = scipy.optimize.minimize(cost, [1.0, 0.0], jac=True)"]
            out.append((f"scale and bias of {nd}D images{', projected' if op else ''}", P + "fit_scale_bias", "the scale and the bias do not minimise the squared distance of the images (objective or gradient)", fn(s, T, ret=f"corrct.processing.post.fit_scale_bias(x, y{', prj' if op else ''})"), fn(s, *a, ret="(float(o.x[0]), float(o.x[1]))")))
    for nd in (1, 2, 3):
        s = f"x: Arr[{nd}], y: Arr[{nd}]"
        m = "" if nd == 1 else f".mean(axis={tuple(range(nd - 1))})"
        out.append((f"resolution from {nd}D curves", P + "estimate_resolution", "the resolution is not the first crossing of the two (mean) curves after the zero frequency", fn(s, ret="corrct.processing.post.estimate_resolution(x, y)"), fn(s, ret=f"corrct.processing.misc.lines_intersection(x{m}, y{m}, x_lims=(1, None))"), dict(opaque=("processing.misc.lines_intersection",))))
    return out


def rows():
    return az_rows() + spec_rows() + other_rows() + mask_rows() + line_rows() + extra_rows()


def run(chk, prog):
    chk.rule("radial-integration", "linear distribution of every pixel over the two enclosing radii, for the chosen axes of images and stacks, from the image centre or from the zero frequency")
    chk.need("radial-integration", table(chk, prog, "radial-integration", az_rows()))
    chk.rule("spectral-curves", "power spectra and ring / shell correlations from the spectra of the (tapered) images over the chosen axes")
    chk.need("spectral-curves", table(chk, prog, "spectral-curves", spec_rows()))
    chk.rule("image-measures", "normalised correlation, centre of mass, and bias / variance maps")
    chk.need("image-measures", table(chk, prog, "image-measures", other_rows()))
    chk.rule("masks-and-crossings", "circular / spherical masks with their taper, and the intersections of curves; fit of scale and bias")
    chk.need("masks-and-crossings", table(chk, prog, "masks-and-crossings", mask_rows() + line_rows() + extra_rows()))
