"""C27: detector image preparation: padding, binning, shifting and rotating each projection, background estimation, stripe removal, flat-field decomposition."""
from ..spec import table
from ..solverspec import fn

P = "processing.pre."
Q = "corrct.processing.pre."


def geom_rows():
    out = []
    for nd in (2, 3):
        for ax in (None, -1, -2, 0):
            for two in (False, True):
                s = f"x: Arr[{nd}], a: int, b: int"
                i = (-1 if ax is None else ax) % nd
                w = "[" + ", ".join("(0, 0)" if j != i else ("(a, b)" if two else "(a, a)") for j in range(nd)) + "]"
                wd = f"z = np.zeros(({nd}, {2 if two else 1}), dtype=int)\nz[{i}, :] = np.array([{'a, b' if two else 'a'}])"
                out.append((f"padding of {nd}D data, axis {ax}{', two sides' if two else ''}", P + "pad_sinogram", "the data is not padded by the requested widths along the requested axis only",
                            fn(s, ret=f"{Q}pad_sinogram(x, {'[a, b]' if two else 'a'}{'' if ax is None else f', pad_axis={ax}'}, mode='Edge')"), fn(s, ret=f"np.pad(x, {w if two else w}, mode='edge')")))
    for nd in (2, 3):
        s = f"x: Arr[{nd}], d: float"
        if nd == 3:
            out.append(("rotation of every projection", P + "rotate_proj_stack", "a projection is not the rotated projection of the same angle", fn(s, ret=Q + "rotate_proj_stack(x, d)"),
                        "import skimage.transform\n" + fn(s, "o = np.empty_like(x)", "for i in range(x.shape[-2]):\n    o[:, i, :] = skimage.transform.rotate(x[:, i, :], -d, clip=False)", ret="o")))
        s = f"x: Arr[{nd}], t: Arr[{nd - 1}]"
        W = "a projection is not shifted by its own shifts"
        out.append((f"shift of every {nd - 1}D projection", P + "shift_proj_stack", W, fn(s, ret=Q + "shift_proj_stack(x, t)"),
                    "import scipy.ndimage\n" + fn(s, "o = np.empty_like(x)", "for i in range(x.shape[-2]):\n    o[..., i, :] = scipy.ndimage.shift(x[..., i, :], t[..., i], order=1, mode='nearest')", ret="o")))
        out.append((f"Fourier shift of every {nd - 1}D projection", P + "shift_proj_stack", W + ", or changes its size", fn(s, ret=Q + "shift_proj_stack(x, t, use_fft=True)"),
                    "import scipy.ndimage\n" + fn(s, "o = np.empty_like(x)", f"for i in range(x.shape[-2]):\n    q = x[..., i, :]\n    o[..., i, :] = np.fft.irfftn(scipy.ndimage.fourier_shift(np.fft.rfftn(q), t[..., i], n=q.shape[-1]), s=q.shape, axes={tuple(range(nd - 1))})", ret="o")))
    W = "the images are not the means of blocks of the requested size over the requested axes"
    for nd, ax in ((2, None), (3, None), (3, (0, 1)), (3, (-3, -2, -1)), (2, (-1,))):
        L = [-2, -1] if ax is None else list(ax)
        ip = [a % nd for a in L]
        b = [("2" if j in ip else "1") for j in range(nd)]
        for crop in (False, True):
            for vb in (True, False):
                s = f"x: Arr[{nd}]"
                r = []
                if crop:
                    r.append("\n".join(f"e{k} = x.shape[{a}] % 2" for k, a in enumerate(ip)))
                    r.append("\n".join(f"s{k} = slice(e{k} - e{k} // 2, x.shape[{a}] - e{k} // 2) if e{k} > 0 else slice(None)" for k, a in enumerate(ip)))
                    r.append("x = x[" + ", ".join(f"s{ip.index(j)}" if j in ip else ":" for j in range(nd)) + "]")
                out.append((f"binning of {nd}D images{'' if ax is None else f' over {ax}'}{', cropped' if crop else ''}{', quiet' if not vb else ''}", P + "bin_imgs", W, fn(s, ret=f"{Q}bin_imgs(x, 2{'' if ax is None else f', axes={ax}'}{', auto_crop=True' if crop else ''}{'' if vb else ', verbose=False'})"),
                            "import skimage.measure\n" + fn(s, *r, ret=f"skimage.measure.block_reduce(x, ({', '.join(b)}), np.mean)")))
    for nd in (2, 3, 4):
        s = f"x: Arr[{nd}], f: float"
        r = "y = skimage.transform.rescale(x.reshape([-1, *x.shape[-2:]]), 1 / f, channel_axis=%s)" % ("0" if nd > 2 else "None")
        out.append((f"fractional binning of {nd}D images", P + "bin_imgs", "the images are not rescaled by the binning factor", fn(s, "if isinstance(f, int):\n    raise ValueError()", ret=f"{Q}bin_imgs(x, f)"), "import skimage.transform\n" + fn(s, "if isinstance(f, int):\n    raise ValueError()", r, ret=f"y.reshape([*x.shape[:{nd - 2}], *y.shape[-2:]])")))
    return out


def bg_rows():
    out = []
    W = "the background is not estimated from the margins of its own row only"
    for nd in (2, 3):
        for m in ("3", "[3, 2]", "[3, 0]", "[0, 2]"):
            ml, mr = (3, 3) if m == "3" else eval(m)
            for po in (0, 1, 2):
                s = f"x: Arr[{nd}]"
                g = f"if x.shape[-1] < {ml + mr}:\n    raise ValueError()"
                if po == 0 or 0 in (ml, mr):
                    r = [f"b = (x[..., :{ml}].sum(axis=-1) + x[..., x.shape[-1] - {mr}:].sum(axis=-1)) / {ml + mr}"] + (["b = b.mean(axis=-2, keepdims=True)"] if nd > 2 else [])
                    ret = f"np.tile(b[..., None], [{'1, ' * (nd - 1)}x.shape[-1]])"
                else:
                    r = [f"k = np.concatenate([np.arange(0, {ml}), np.arange(x.shape[-1] - {mr}, x.shape[-1])])", f"y = np.concatenate([x[..., :{ml}], x[..., -{mr}:]], axis=-1)"] + (["y = y.mean(axis=-3)"] if nd > 2 else [])
                    r += ["b = np.empty([x.shape[-2], x.shape[-1]])", f"for i in range(x.shape[-2]):\n    p = Polynomial.fit(k, y[i], deg={po})\n    b[i, :] = p(np.arange(x.shape[-1]))"]
                    ret = "np.tile(b[None, ...], [x.shape[-3], 1, 1])" if nd > 2 else "b"
                out.append((f"background of {nd}D data from margins {m}, order {po}", P + "background_from_margin", W, fn(s, ret=f"{Q}background_from_margin(x, {m}{f', poly_order={po}' if po else ''})"), "from numpy.polynomial import Polynomial\n" + fn(s, g, *r, ret=ret)))
    for nd in (1, 2, 3):
        for kd in (None, 1, 2):
            if kd is not None and kd > nd:
                continue
            k = nd if kd is None else kd
            s = f"x: Arr[{nd}], n: int, w: int"
            sh = ", ".join(["1"] * (nd - k) + ["w"] * k)
            sl = ", ".join([":"] * (nd - k) + ["1:-1"] * k)
            out.append((f"SNIP background of a {nd}D image{'' if kd is None else f', over {kd} dimensions'}", P + "snip", "an iteration is not the smaller of the image and the mean of its surroundings", fn(s, ret=f"{Q}snip(x, {kd}, n, w)"),
                        "import scipy.ndimage\n" + fn(s, f"k = np.ones([{sh}])", f"k[{sl}] = 0.0", "k = k / k.sum()", "b = x.copy()", "for _ in range(n):\n    b = np.minimum(scipy.ndimage.convolve(b, k, mode='nearest'), b)", ret="b")))
    for nd in (2, 3, 4):
        for sm in (False, True):
            s = f"x: Arr[{nd}], n: int, g: float"
            r = ["o = np.empty_like(x)", "for i in range(x.shape[-2]):\n    q = x[..., i, :]" + ("\n    q = scipy.ndimage.gaussian_filter(q, sigma=g)" if sm else "")]
            r[-1] += "\n    o[..., i, :] = corrct.processing.pre.snip(q, iterations=n)" if nd < 4 else "\n    q = q.copy()\n    for j in range(q.shape[0]):\n        q[j] = corrct.processing.pre.snip(q[j], iterations=n)\n    o[..., i, :] = q"
            out.append((f"SNIP background of {nd}D data{', smoothed' if sm else ''}", P + "background_from_snip", "a projection's background is not that of the same projection", fn(s, ret=f"{Q}background_from_snip(x, n{', g' if sm else ''})"), "import scipy.ndimage\n" + fn(s, *r, ret="o"), dict(opaque=("processing.pre.snip",))))
    return out


def other_rows():
    out = []
    for nd, fl, dk in ((2, None, None), (2, 3, None), (2, 3, 2), (2, 3, 3), (1, 2, None), (2, None, 2)):
        s = f"x: Arr[{nd + 1}]" + (f", f: Arr[{fl}]" if fl else "") + (f", d: Arr[{dk}]" if dk else "")
        im = f"x.shape[-{nd}:]"
        r = [f"S = np.concatenate([x.reshape([-1, *{im}])" + (f", f.reshape([-1, *{im}])" if fl else "") + "])"]
        if dk:
            r.append(("d = d.mean(axis=(0,))\n" if dk == 3 else "") + "S = np.maximum(S - d, np.finfo(np.float32).eps)")
        r += [f"L = np.log(S.reshape([-1, np.prod({im})]).transpose())", "u, g, v = np.linalg.svd(L, full_matrices=False)"]
        for k, sl in ((0, "1:"), (1, "0:1")):
            r2 = r + [f"e = np.exp((u[..., {sl}] * g[..., None, {sl}]) @ v[..., {sl}, :])"]
            out.append((f"{'sample' if k == 0 else 'flat'} part of {nd}D transmission images{', flats' if fl else ''}{f', {dk}D darks' if dk else ''}", P + "compute_eigen_flats", "the two parts are not the first singular component of the logarithm of the images and the remaining ones",
                        fn(s, ret=f"{Q}compute_eigen_flats(x{', f' if fl else ', None'}{', d' if dk else ''}{'' if nd == 2 else ', ndim=1'})[{k}]"), fn(s, *r2, ret=f"e.transpose().reshape([-1, *{im}])[:np.prod(x.shape[:-{nd}])].reshape(x.shape)")))
    for nd, lv, ox in ((2, 1, (-1,)), (2, 2, (-1,)), (3, 1, (-3, -1)), (3, 2, (-1,))):
        L = list(range(-nd, 0)) if ox is None else list(ox)
        s = f"x: Arr[{nd}], g: float"
        r = ["n = np.array(x.shape)\nt = n.copy()\nt[%r] = np.ceil(n[%r] / %d) * %d\nd = t - n" % (L, L, 2 ** lv, 2 ** lv), "p = np.stack((d - d // 2, d // 2), axis=-1)",
             f"c = pywt.swtn(np.pad(x, pad_width=p, mode='edge'), wavelet='bior2.2', axes=np.array({L}), level={lv})",
             f"for i in range({lv}):\n    for k, w in c[i].items():\n        if k == 'a' * {len(L)}:\n            continue\n        f = np.fft.rfft(w, axis=-2) * (1 - np.exp(-np.fft.rfftfreq(w.shape[-2]) ** 2 / (2 * g ** 2)))[:, None]\n        c[i][k] = np.fft.irfft(f, axis=-2, n=w.shape[-2])",
             f"y = pywt.iswtn(c, wavelet='bior2.2', axes=np.array({L}))"]
        out.append((f"stripe removal of {nd}D data, {lv} level{'s' if lv > 1 else ''}{'' if ox is None else f' over {ox}'}", P + "destripe_wlf_vwu", "the detail coefficients are not damped at low angular frequencies only, or the padding is not removed",
                    fn(s, ret=f"{Q}destripe_wlf_vwu(x, g{'' if lv == 1 else f', {lv}'}{'' if ox is None else f', other_axes={ox}'})"), "import pywt\n" + fn(s, *r, ret="y[tuple([slice(p[i, 0], y.shape[i] - p[i, 1]) for i in range(y.ndim)])]")))
    return out


def rows():
    return geom_rows() + bg_rows() + other_rows()


def run(chk, prog):
    chk.rule("image-preparation", "padding, rotation, shift and binning act on the requested axes, projection by projection")
    chk.need("image-preparation", table(chk, prog, "image-preparation", geom_rows()))
    chk.rule("background", "backgrounds from margins or by clipping, each from its own projection, and the decomposition of transmission images")
    chk.need("background", table(chk, prog, "background", bg_rows() + other_rows()))
