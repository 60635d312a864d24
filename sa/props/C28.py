"""C28: filters of the filtered back-projection: padding, application, classical filters, data-dependent filters and bases."""
from ..spec import table
from ..solverspec import fn

F = "corrct.filters."
PAD = "P = max(64, int(2 ** np.ceil(np.log2(2 * x.shape[-1]))))"


def conv(nd, rfft, f, src="x", out="y"):
    """Linear convolution of the last axis with a filter given in Fourier space."""
    t, r = ("np.fft.rfft", "np.fft.irfft({}, axis=-1)") if rfft else ("np.fft.fft", "np.fft.ifft({}, axis=-1).real")
    z = "".join("(0, 0), " for _ in range(nd - 1))
    return [PAD, f"h = (P - {src}.shape[-1]) / 2", f"w = np.pad({src}, pad_width=({z}(int(np.ceil(h)), int(np.floor(h)))), mode=M)", "w = np.roll(w, shift=-int(np.ceil(h)), axis=-1)",
            f"q = {t}(w, axis=-1)", f"{out} = {r.format(f'(q * {f})')}[..., :{src}.shape[-1]]"]


def apply_rows():
    out = []
    W = "the filtered data is not the linear convolution of every projection with the filter"
    for nd in (2, 3):
        for rfft in (None, True, False):
            s = f"x: Arr[{nd}], f: Arr[1], g: Arr[1], M: str"
            o = "" if rfft is None else f", use_rfft={rfft}"
            B = lambda v: f"np.array({v}, ndmin={nd})"
            a = f"F = {F}FilterCustom(f, pad_mode=M{o})"
            pre = "M = M.lower()"
            out.append((f"custom filter on {nd}D data{o}", "filters.Filter.apply_filter", W, fn(s, a, ret="F(x)"), fn(s, pre, *conv(nd, rfft is not False, B("np.real(f)")), ret="y")))
            out.append((f"application of the own filter to {nd}D data{o}", "filters.Filter.apply_filter", W, fn(s, a, ret="F.apply_filter(x)"), fn(s, pre, *conv(nd, rfft is not False, B("np.real(f)")), ret="y")))
            out.append((f"application of a given filter to {nd}D data{o}", "filters.Filter.apply_filter", W, fn(s, a, ret="F.apply_filter(x, g)"), fn(s, pre, *conv(nd, rfft is not False, B("g")), ret="y")))
            s2 = s + ", f1: Arr[1], f2: Arr[1]"
            two = conv(nd, rfft is not False, B("f1"), out="y1") + conv(nd, rfft is not False, B("f2"), out="y2")[-1:]
            out.append((f"two filters on {nd}D data{o}", "filters.Filter.apply_filter", W, fn(s2, a, ret="F.apply_filter(x, np.stack((f1, f2)))"), fn(s2, pre, *two, ret="np.array([y1, y2])")))
            for name in (None, "hann", "Shepp-Logan"):
                n = "ramp" if name is None else name.lower()
                b = [PAD, f"k = np.squeeze(_get_fourier_filter(P, '{n}')) * np.pi / (2 * x.shape[-2])"] + (["k = k[: k.shape[-1] // 2 + 1]"] if rfft is not False else [])
                o2 = ", ".join(([f"'{name}'"] if name else []) + ["pad_mode=M"] + ([f"use_rfft={rfft}"] if rfft is not None else []))
                out.append((f"{n} filter on {nd}D data{o}", "filters.FilterFBP.compute_filter", "the classical filter is not that of the padded width, scaled by pi / (2 * number of projections)", fn(s, f"F = {F}FilterFBP({o2})", ret="F(x)"),
                            "from skimage.transform.radon_transform import _get_fourier_filter\n" + fn(s, pre, *b, *conv(nd, rfft is not False, f"np.array(k, ndmin={nd})"), ret="y")))
    s = "x: Arr[1], f: Arr[1], r: Arr[1]"
    for rfft in (True, False):
        a = f"F = {F}FilterCustom(f, use_rfft={rfft})"
        t, i = ("np.fft.rfft(r, axis=-1)", "np.fft.irfft(np.real(f), axis=-1)") if rfft else ("np.fft.fft(r, axis=-1)", "np.fft.ifft(np.real(f), axis=-1).real")
        out.append((f"real-space filter, use_rfft={rfft}", "filters.Filter.filter_real", "the real-space filter is not the inverse transform of the filter", fn(s, a, ret="F.filter_real"), fn(s, ret=f"np.fft.fftshift({i}, axes=(-1,))")))
        out.append((f"assigned real-space filter, use_rfft={rfft}", "filters.Filter.filter_real", "the filter is not the transform of the assigned real-space filter", fn(s, a, "F.filter_real = r", ret="F.filter_fourier"), fn(s, ret=t)))
        out.append((f"Fourier filter, use_rfft={rfft}", "filters.Filter.filter_fourier", "the Fourier filter is not the filter", fn(s, a, ret="F.filter_fourier"), fn(s, ret="np.real(f)")))
        out.append((f"assigned Fourier filter, use_rfft={rfft}", "filters.Filter.filter_fourier", "the filter is not the assigned one", fn(s, a, "F.filter_fourier = r", ret="F.fbp_filter"), fn(s, ret="r")))
    out.append(("number of filters, one", "filters.Filter.num_filters", "the number of filters is wrong", fn(s, f"F = {F}FilterCustom(f)", ret="F.num_filters"), fn(s, ret="1")))
    out.append(("number of filters, several", "filters.Filter.num_filters", "the number of filters is wrong", fn("f: Arr[2]", f"F = {F}FilterCustom(f)", ret="F.num_filters"), fn("f: Arr[2]", ret="np.real(f).shape[0]")))
    out.append(("no filter", "filters.Filter.__init__", "the neutral filter is not one", fn(s, f"F = {F}FilterCustom(None)", ret="F.filter_fourier"), fn(s, ret="np.array([1.0])")))
    return out


def basis_rows():
    out = []
    W = "the basis is not the documented set of bins (blocks, or orthogonalised hats) of growing width around the centre"
    s = "n: int, S: int"
    for bt in (None, "incremental", "custom"):
        for st in (False, True, None):
            for order in (0, 1):
                for norm in (False, True):
                    if norm and st is None:
                        continue
                    a = "n" + (f", binning_type='{bt}'" if bt else "") + (", binning_start=S" if st else ", binning_start=None" if st is None else "") + f", order={order}" + (", normalized=True" if norm else "")
                    S = "S" if st else "2"
                    grow = {None: "w = 2 * w", "incremental": "w = w + 1", "custom": f"w = w + int(np.sqrt(p - {S}))"}[bt]
                    fun = f"    t = np.zeros(d.shape)\n    t[(p <= d) & (d < p + w)] = 1.0{' / w' if norm else ''}" if order == 0 else "    t = np.maximum(1.0 - d / (p + w), 0.0)"
                    r = ["d = np.abs(np.fft.fftfreq(n, 1 / n))\nw = 1\np = 0\nL = []", f"while p < d.max():\n{fun}\n    L.append(t)\n    p = p + w" + ("" if st is None else f"\n    if p > {S}:\n        {grow}"), "b = np.array(L)"]
                    if order:
                        r.append("for i in range(1, b.shape[0]):\n    for j in range(i):\n        o = b[j]\n        b[i] = b[i] - o * o.dot(b[i]) / o.dot(o)")
                        if norm:
                            r.append("b = b / np.linalg.norm(b, ord=1, axis=-1, keepdims=True)")
                    out.append((f"basis of order {order}, {bt or 'exponential'}{'' if st is False else ', given start' if st else ', no binning'}{', normalised' if norm else ''}", "filters.create_basis", W, fn(s, ret=f"{F}create_basis({a})"), fn(s, *r, ret="b")))
    for lv in (1, 2, 3):
        for nm in (False, True):
            s = "n: int, q: str, m: float"
            r = ["v = pywt.Wavelet(q)\nlo, hi = np.trim_zeros(v.dec_lo), np.trim_zeros(v.dec_hi)",
                 "k = (n - len(hi)) // 2\nH = np.pad(hi, pad_width=np.array((n - len(hi) - k, k)))", "k = (n - len(lo)) // 2\nL = np.pad(lo, pad_width=np.array((n - len(lo) - k, k)))",
                 "c = np.fft.fftshift(np.fft.fftfreq(n, 1 / n))", "B = [H]"]
            for _ in range(lv - 1):
                r += ["l = L.copy()\nz = (c + 1 - len(c) % 2) / 2", "H = np.convolve(scipy.interpolate.interp1d(c, H, kind='linear')(z), l, mode='same')", "L = np.convolve(scipy.interpolate.interp1d(c, L, kind='linear')(z), l, mode='same')", "B.append(H)"]
            r += ["B.append(L)", "b = np.array(B)", f"b = b / np.linalg.norm(b, axis=-1, ord={'m' if nm else '1.0'}, keepdims=True)"]
            out.append((f"wavelet basis of {lv} level{'s' if lv > 1 else ''}{', given norm' if nm else ''}", "filters.create_basis_wavelet", "the wavelet basis is not the cascade of the decomposition filters, normalised", fn(s, ret=f"{F}create_basis_wavelet(n, q, {lv}{', m' if nm else ''})"),
                        "import pywt\nimport scipy.interpolate\n" + fn(s, *r, ret="np.fft.ifftshift(b, axes=(-1,))")))
    out.append(("options of the bases", "filters.BasisOptions", "the options are not those of the class", fn("k: int", "o = corrct.filters.BasisOptionsBlocks(order=k)", "w = corrct.filters.BasisOptionsWavelets(level=k)", ret="(len(o), o['order'], o['binning_type'], len(w), w['level'], w['norm'])"),
                fn("k: int", ret="(4, k, 'exponential', 3, k, 1.0)")))
    return out


def mr_rows():
    out = []
    for lam in (False, True):
        for rfft in (True, False):
            for opt in (False, True):
                s = "x: Arr[2], A, Bk, M: str, l: float, S: int"
                a = ["p = corrct.operators.TransformFunctions((4, 4), (3, 4), A, Bk)", f"F = {F}FilterMR(p, pad_mode=M, use_rfft={rfft}{', lambda_smooth=l' if lam else ''}{', binning_type=' + repr('Incremental') + ', binning_start=S' if opt else ''})"]
                g = "if l == 0 or not l:\n    raise ValueError()" if lam else "pass"
                r = [g, PAD, f"b = {F}create_basis(P, binning_type='{'incremental' if opt else 'exponential'}', binning_start={'S' if opt else '2'})", f"B = np.fft.{'rfft' if rfft else 'fft'}(b, axis=-1).real", "n = x.shape[-1]\nm = x.shape[-2] * n",
                     "Q = np.zeros((m" + (" + 2 * n * (n - 1)" if lam else "") + ", B.shape[-2]))", "k = corrct.processing.circular_mask([n, n])", f"G = {F}FilterCustom(None, M, {rfft})",
                     "for i in range(len(B)):\n    v = Bk(G.apply_filter(x, B[i])) * k\n    Q[:m, i] = A(v).flatten()" + ("\n    Q[m:, i] = l * np.concatenate((np.diff(v, axis=-2).flatten(), np.diff(v, axis=-1).flatten()))" if lam else ""),
                     ("c = np.zeros((m" + (" + 2 * n * (n - 1)" if lam else "") + ",))"), "c[:m] = x.flatten()"]
                out.append((f"data-dependent filter{', smoothed' if lam else ''}{', other bins' if opt else ''}, use_rfft={rfft}", "filters.FilterMR.compute_filter", "the filter is not the combination of the basis whose reconstruction has the projections closest to the data", fn(s, g, *a, "F.compute_filter(x)", ret="F.fbp_filter"),
                            fn(s, *r, ret="np.linalg.lstsq(Q, c, rcond=None)[0].dot(B)"), dict(opaque=("filters.create_basis", "processing.misc.circular_mask"))))
    s = "x: Arr[2], y: Arr[2], A, Bk, M: str"
    g = "if F.get_padding_size(x.shape) == F.get_padding_size(y.shape):\n    raise ValueError()"
    a = ["p = corrct.operators.TransformFunctions((4, 4), (3, 4), A, Bk)", f"F = {F}FilterMR(p, pad_mode=M)", g]
    out.append(("data-dependent filter for data of another width", "filters.FilterMR.compute_filter", "the basis of a previous width is used", fn(s, *a, "F.compute_filter(x)\nF.compute_filter(y)", ret="F.fbp_filter"), fn(s, *a, "F.compute_filter(y)", ret="F.fbp_filter"), dict(opaque=("filters.create_basis", "processing.misc.circular_mask"))))
    out.append(("data-dependent filter, applied", "filters.Filter.__call__", "the computed filter is not the one applied", fn(s, *a[:2], ret="F(x)"), fn(s, *a[:2], "F.compute_filter(x)", ret="F.apply_filter(x, F.fbp_filter)"), dict(opaque=("filters.create_basis", "processing.misc.circular_mask"))))
    return out


def rows():
    return apply_rows() + basis_rows() + mr_rows()


def run(chk, prog):
    chk.rule("filter-application", "padding to a power of two, product in Fourier space, crop to the width of the data; classical filters of the padded width")
    chk.need("filter-application", table(chk, prog, "filter-application", apply_rows()))
    chk.rule("filter-bases", "bases of blocks, hats and wavelets, and data-dependent filters fitted on them")
    chk.need("filter-bases", table(chk, prog, "filter-bases", basis_rows() + mr_rows()))
