"""C22: alignment: shifts, sinusoids, ellipses and cone-beam calibration are those of the documented definitions."""
from ..spec import table
from ..solverspec import fn

F = "corrct.alignment.fitting."
S = "corrct.alignment.shifts."
X1, R1 = "alignment.fitting.extract_peak_regions_1d", "alignment.fitting.refine_max_position_1d"
XN = "alignment.fitting.extract_peak_region_nd"
PEAK = dict(opaque=(X1, R1, XN))


def peak_rows():
    out = []
    W = "the peak region is not the neighbourhood (with wrapping) of the maximum of each line"
    for ax in (None, -1, -2, 0, 1):
        for rad in (None, "r"):
            for co in (False, True):
                k = -1 if ax is None else ax
                last = k in (-1, 1)
                s = "c: Arr[2], r: int, q: Arr[1]"
                o = ([f"axis={ax}"] if ax is not None else []) + (["peak_radius=r"] if rad else []) + (["cc_coords=q"] if co else [])
                rr = "r" if rad else "1"
                b = [f"p = (np.argmax(c, axis={k})[None, :] + np.arange(-{rr}, {rr} + 1)[:, None]) % c.shape[{k}]", f"l = np.tile(np.arange(0, c.shape[{-2 if last else -1}])[None, :], [2 * {rr} + 1, 1])",
                     "f = c[l, p]" if last else "f = c[p, l]", "g = q[p]" if co else "g = None"]
                out.append((f"peak regions of lines, axis {ax}{', radius' if rad else ''}{', coordinates' if co else ''}", "alignment.fitting.extract_peak_regions_1d", W, fn(s, ret=f"{F}extract_peak_regions_1d({', '.join(['c'] + o)})"), fn(s, *b, ret="(f, g)")))
    s = "c: Arr[1], q: Arr[1]"
    out.append(("peak region of one line", "alignment.fitting.extract_peak_regions_1d", W, fn(s, ret=f"{F}extract_peak_regions_1d(c, cc_coords=q)"), fn(s, ret=f"{F}extract_peak_regions_1d(c[None], cc_coords=q)")))
    for nd in (2, 3):
        for rad in (None, "r"):
            for co in (False, True):
                s = f"c: Arr[{nd}], r: int, " + ", ".join(f"q{i}: Arr[1]" for i in range(nd))
                rr = "r" if rad else "1"
                o = (["peak_radius=r"] if rad else []) + ([f"cc_coords=[{', '.join(f'q{i}' for i in range(nd))}]"] if co else [])
                b = ["m = np.unravel_index(np.argmax(c), c.shape)"] + [f"p{i} = np.arange(m[{i}] - {rr}, m[{i}] + {rr} + 1) % c.shape[{i}]" for i in range(nd)]
                b += [f"g = np.meshgrid({', '.join(f'p{i}' for i in range(nd))}, indexing='ij')", f"f = c[{', '.join(f'g[{i}]' for i in range(nd))}]", f"h = [{', '.join(f'q{i}[p{i}]' for i in range(nd))}]" if co else "h = None"]
                out.append((f"peak region in {nd}D{', radius' if rad else ''}{', coordinates' if co else ''}", "alignment.fitting.extract_peak_region_nd", "the peak region is not the neighbourhood (with wrapping) of the maximum", fn(s, ret=f"{F}extract_peak_region_nd({', '.join(['c'] + o)})"), fn(s, *b, ret="(f, h)")))
    W = "the position is not the (rounded) vertex of the fitted parabola"
    for nd in (1, 2):
        for co in (False, True):
            for val in (False, True):
                for dec in (None, "k"):
                    s = f"f: Arr[{nd}], q: Arr[1], k: int"
                    o = (["q"] if co else []) + (["return_vertex_val=True"] if val else []) + (["decimals=k"] if dec else [])
                    x = ["n = f.shape[0]"] + (["x = np.squeeze(q)\nif not (len(x.shape) == 1 and np.all(x.size == n)):\n    raise ValueError()"] if co else ["x = np.linspace(-(n - 1) / 2, (n - 1) / 2, n)"])
                    x += ["c = Polynomial.fit(x, f, deg=2).convert().coef"] if nd == 1 else ["c = np.linalg.lstsq(np.array([np.ones(n), x, x ** 2]).T, f, rcond=None)[0]"]
                    d = dec or "2"
                    x += [f"v = np.around(-c[1, ...] / (2 * c[2, ...]), decimals={d})", "if not np.all((np.min(x) < v) * (v < np.max(x))):\n    raise ValueError()"]
                    r = f"(v, np.around(c[0, ...] + v * c[1, ...] / 2, decimals={d}))" if val else "v"
                    out.append((f"sub-pixel maximum of {'a line' if nd == 1 else 'lines'}{', coordinates' if co else ''}{', value' if val else ''}{', decimals' if dec else ''}", "alignment.fitting.refine_max_position_1d", W,
                                fn(s, ret=f"{F}refine_max_position_1d({', '.join(['f'] + o)})"), "from numpy.polynomial import Polynomial\n" + fn(s, *x, ret=r)))
    for cy in (False, True):
        for cx in (False, True):
            s = "f: Arr[2], p: Arr[1], q: Arr[1]"
            o = (["fy=p"] if cy else []) + (["fx=q"] if cx else [])
            b = ["p = p\nif p.size != f.shape[0]:\n    raise ValueError()" if cy else "p = np.linspace(-(f.shape[0] - 1) / 2, (f.shape[0] - 1) / 2, f.shape[0])", "q = q\nif q.size != f.shape[1]:\n    raise ValueError()" if cx else "q = np.linspace(-(f.shape[1] - 1) / 2, (f.shape[1] - 1) / 2, f.shape[1])",
                 "y, x = np.meshgrid(p, q, indexing='ij')\ny = y.flatten()\nx = x.flatten()", "c = np.linalg.lstsq(np.array([np.ones(f.size), y, x, y * x, y ** 2, x ** 2]).T, f.flatten(), rcond=None)[0]",
                 "v = np.linalg.lstsq([[2 * c[4], c[3]], [c[3], 2 * c[5]]], -c[1:3], rcond=None)[0]", "if np.any(v < [np.min(y), np.min(x)]) or np.any(v > [np.max(y), np.max(x)]):\n    raise ValueError()"]
            g = "if p.size != f.shape[0] or q.size != f.shape[1]:\n    raise ValueError()"
            out.append((f"sub-pixel maximum of an image{', rows' if cy else ''}{', columns' if cx else ''}", "alignment.fitting.refine_max_position_2d", "the position is not the vertex of the fitted paraboloid", fn(s, ret=f"{F}refine_max_position_2d({', '.join(['f'] + o)})"), fn(s, *b, ret="v")))
    return out


def xc_rows():
    out = []
    W = "the shifts are not those of the maximum of the cross-correlation"
    for nd in (2, 3):
        for pad in (False, True):
            for norm in (False, True):
                for mar in (False, True):
                    for rfft in (True, False):
                        for dec in (True, False):
                            if sum((pad, norm, mar, not rfft, not dec)) > 2:
                                continue
                            s = f"a: Arr[{nd}], b: Arr[{nd}], m: int"
                            o = (["pad_u=True"] if pad else []) + (["normalize_fourier=True"] if norm else []) + (["margin=m"] if mar else []) + (["use_rfft=False"] if not rfft else []) + (["decimals=0"] if not dec else [])
                            out.append((f"shifts of {nd - 1}D images" + "".join(", " + x for x in o), "alignment.fitting.fit_shifts_vu_xc", W, fn(s, *(["if m <= 0:\n    raise ValueError()"] if mar else []), ret=f"{F}fit_shifts_vu_xc({', '.join(['a', 'b'] + o)})"),
                                        fn(s, *xc_ref(nd, pad, norm, mar, rfft, dec), ret="h"), PEAK))
    return out


def xc_ref(nd, pad, norm, mar, rfft, dec):
    E, I = ("np.fft.rfftn", "np.fft.irfftn") if rfft else ("np.fft.fftn", "np.fft.ifftn")
    u = "2 * a.shape[-1]" if pad else "a.shape[-1]"
    r = ["if m <= 0:\n    raise ValueError()"] if mar else []
    e = "np.finfo(np.float32).eps"
    if nd == 3:
        if mar:
            r += ["w = np.zeros((b.shape[0], b.shape[2]))\nw[m:b.shape[0] - m, m:b.shape[2] - m] = 1.0\nb = b * w[:, None, :]"]
        r += [f"V, U = a.shape[0], {u}", "h = np.empty((2, a.shape[1]))"]
        body = ["x = a[:, i:i + 1, :].squeeze(axis=-2)", "y = b.squeeze(axis=-2) if b.shape[-2] == 1 else b[:, i:i + 1, :].squeeze(axis=-2)",
                f"c = {E}(x, s=[V, U], axes=(0, 1)) * {E}(y, s=[V, U], axes=(0, 1)).conj()"] + ([f"c = c / np.maximum(np.abs(c), {e})"] if norm else [])
        body += [f"v, k = {F}extract_peak_region_nd({I}(c, s=[V, U], axes=(0, 1)).real, cc_coords=[np.fft.fftfreq(V, 1 / V), np.fft.fftfreq(U, 1 / U)])", "h[:, i] = np.array([k[0][1], k[1][1]])"]
        if dec:
            body += [f"h[:, i] += [{F}refine_max_position_1d(v[:, 1], decimals=2), {F}refine_max_position_1d(v[1, :], decimals=2)]"]
        r += ["for i in range(a.shape[1]):\n" + "\n".join("    " + x for x in body)]
    else:
        if mar:
            r += ["w = np.zeros([b.shape[1]])\nw[m:b.shape[1] - m] = 1.0\nb = b * w[None, :]"]
        r += [f"U = {u}", f"c = {E}(a, s=[U], axes=[-1]) * {E}(b, s=[U], axes=[-1]).conj()"] + ([f"c = c / np.maximum(np.abs(c).max(axis=-1, keepdims=True), {e})"] if norm else [])
        r += [f"v, k = {F}extract_peak_regions_1d({I}(c, s=[U], axes=[-1]).real, axis=-1, cc_coords=np.fft.fftfreq(U, 1 / U))", "h = k[1]"] + ([f"h = h + {F}refine_max_position_1d(v, decimals=2)"] if dec else [])
    return r


def other_rows():
    out = []
    e = "np.finfo(np.float32).eps"
    s = "a: Arr[2], b: Arr[2], R: int, N: float"
    for pad in (False, True):
        for rng in (False, True):
            for nrm in (False, True):
                for dec in (True, False):
                    R = "R" if rng else "16"
                    o = (["search_range=R"] if rng else []) + (["pad_u=True"] if pad else []) + (["error_norm=N"] if nrm else []) + (["decimals=0"] if not dec else [])
                    r = [f"x = np.pad(a, pad_width=((0, 0), ({R}, {R})), mode='edge')\ny = np.pad(b, pad_width=((0, 0), ({R}, {R})), mode='constant')" if pad else "x, y = a, b", f"n = {R} * 2 + 1", "k = np.fft.fftfreq(n, 1 / n)", "d = np.empty((a.shape[-2], len(k)))",
                         f"for i in range(len(k)):\n    d[:, i] = np.linalg.norm(x - np.fft.ifft2(scipy.ndimage.fourier_shift(np.fft.fft2(y), (0, k[i]))).real, axis=-1, ord={'N' if nrm else '1'})",
                         f"v, h = {F}extract_peak_regions_1d(-d, axis=-1, cc_coords=k)", "h = h[1]"] + ([f"h = h + {F}refine_max_position_1d(v, decimals=2)"] if dec else [])
                    out.append((f"shifts by absolute differences" + "".join(", " + x for x in o), "alignment.fitting.fit_shifts_u_sad", "the shifts are not those with the smallest difference", fn(s, ret=f"{F}fit_shifts_u_sad({', '.join(['a', 'b'] + o)})"), "import scipy.ndimage\n" + fn(s, *r, ret="h"), PEAK))
    for nd in (2, 3):
        for pad in (False, True):
            for norm in (True, False):
                for rfft in (True, False):
                    for dec in (True, False):
                        E, I = ("np.fft.rfftn", "np.fft.irfftn") if rfft else ("np.fft.fftn", "np.fft.ifftn")
                        s = f"a: Arr[{nd}], b: Arr[{nd}]"
                        o = (["pad_zyx=True"] if pad else []) + (["normalize_fourier=False"] if not norm else []) + (["use_rfft=False"] if not rfft else []) + (["decimals=0"] if not dec else [])
                        ax, m = list(range(-nd, 0)), "2 * " if pad else ""
                        r = [f"S = [{', '.join(f'{m}a.shape[{k}]' for k in range(nd))}]", f"c = {E}(a, s=S, axes={ax}) * {E}(b, s=S, axes={ax}).conj()"] + ([f"c = c / np.maximum(np.abs(c), {e})"] if norm else [])
                        r += [f"v, k = {F}extract_peak_region_nd({I}(c, s=S, axes={ax}).real, cc_coords=[{', '.join(f'np.fft.fftfreq(S[{i}], 1 / S[{i}])' for i in range(nd))}])"]
                        sl = lambda i: "v[" + ", ".join(":" if j == i else "1:2" for j in range(nd)) + "].flatten()"
                        r += ["h = np.array([" + ", ".join(f"k[{i}][1]" for i in range(nd)) + "])"] + ([f"h[{i}] += {F}refine_max_position_1d({sl(i)}, decimals=2)" for i in range(nd)] if dec else [])
                        z = dict(opaque=(R1,))
                        out.append((f"shifts of {nd}D volumes" + "".join(", " + x for x in o), "alignment.fitting.fit_shifts_zyx_xc", "the shifts are not those of the maximum of the cross-correlation", fn(s, ret=f"{F}fit_shifts_zyx_xc({', '.join(['a', 'b'] + o)})"), fn(s, *r, ret="h"), z))
    for pad in (False, True):
        for win in (False, True):
            s = "a: Arr[2], b: Arr[2], P: str, W: str"
            g = "if a.shape[0] != b.shape[0] or a.shape[1] != b.shape[1]:\n    raise ValueError()"
            o = (["pad_mode=P"] if pad else []) + (["window_type=W"] if win else [])
            r = ["h, w = b.shape[0], b.shape[1]"] + (["p = [(h // 2,), (w // 2,)]\na, b = np.pad(a, pad_width=p, mode=P), np.pad(b, pad_width=p, mode=P)"] if pad else [])
            pol = lambda x: f"skimage.transform.warp_polar(np.abs(np.fft.fftshift(np.fft.fft2({x} * k, axes=(-2, -1)), axes=(-2, -1))), center=[b.shape[0] // 2, b.shape[1] // 2], scaling='log', radius=min([b.shape[0] // 2, b.shape[1] // 2]))"
            r += [f"k = skimage.filters.window(window_type={'W' if win else repr('hann')}, shape=b.shape)", f"x, y = {pol('a')}, {pol('b')}", "x = x[..., : x.shape[0] // 2, :]\ny = y[..., : y.shape[0] // 2, :]",
                  f"d = {F}fit_shifts_vu_xc(x[:, None, 1:], y[:, None, 1:], normalize_fourier=True)"]
            out.append((f"rotation and scale{', padded' if pad else ''}{', window' if win else ''}", "alignment.fitting.fit_image_rotation_and_scale", "rotation and scale are not those of the log-polar transform around the centre of the spectra", fn(s, g, ret=f"{F}fit_image_rotation_and_scale({', '.join(['a', 'b'] + o)})"),
                        "import skimage.filters\nimport skimage.transform\n" + fn(s, g, *r, ret="(180 / y.shape[0] * np.squeeze(d[0]), np.exp(np.squeeze(d[1]) / (y.shape[1] / np.log(min([b.shape[0] // 2, b.shape[1] // 2])))))"), dict(opaque=("alignment.fitting.fit_shifts_vu_xc",))))
    for pad in (False, True):
        for l1 in (False, True):
            s = "a: Arr[2], b: Arr[2]"
            o = (["pad_u=True"] if pad else []) + (["fit_l1=False"] if not l1 else [])
            r = [f"c = {F}fit_shifts_vu_xc(a, b, pad_u={pad}) / 2", "h = (b.shape[-2] - 1) / 2", "v = np.linspace(-h, h, b.shape[-2])", "p = Polynomial.fit(v, c, deg=1)", "q, m = p(0.0), p.deriv()(0.0)"]
            if l1:
                r += ["def obj(x):\n    return np.linalg.norm(v * x[1] + x[0] - c, ord=1)\nx = scipy.optimize.minimize(obj, np.array([q, m])).x\nq, m = x"]
            out.append((f"camera tilt{', padded' if pad else ''}{', least squares' if not l1 else ''}", "alignment.fitting.fit_camera_tilt_angle", "centre and tilt are not those of the line through half of the shifts", fn(s, ret=f"{F}fit_camera_tilt_angle({', '.join(['a', 'b'] + o)})"),
                        "import scipy.optimize\nfrom numpy.polynomial import Polynomial\n" + fn(s, *r, ret="(q, np.rad2deg(-m / 2))"), dict(opaque=("alignment.fitting.fit_shifts_vu_xc",))))
    s = "x: Arr[1], y: Arr[1], a: float, p: float, b: float"
    out.append(("sinusoid", "alignment.fitting.sinusoid", "the sinusoid is wrong", fn(s, ret=f"{F}sinusoid(x, a, p, b)"), fn(s, ret="a * np.sin(x + p) + b")))
    for l1 in (False, True):
        r = [f"t, _ = scipy.optimize.curve_fit({F}sinusoid, x, y, p0=[(y.max() - y.min()) / 2, 0, (y.max() + y.min()) / 2])", "a, p, b = t"]
        if l1:
            r += ["def obj(z):\n    return np.linalg.norm(z[0] * np.sin(x + z[1]) + z[2] - y, ord=1)\nz = scipy.optimize.minimize(obj, np.array([a, p, b])).x\na, p, b = z"]
        out.append((f"fit of a sinusoid{', absolute differences' if l1 else ''}", "alignment.fitting.fit_sinusoid", "the sinusoid is not the fitted one", fn(s, ret=f"{F}fit_sinusoid(x, y{', fit_l1=True' if l1 else ''})"), "import scipy.optimize\n" + fn(s, *r, ret="(a, p, b)")))
    for log in (None, "linear", "Log"):
        for dec in (False, True):
            s = "x: Arr[1], y: Arr[1], D: int"
            o = ([f"scale='{log}'"] if log else []) + (["decimals=D"] if dec else [])
            to, fr = ("np.log10({})", "10 ** {}") if log == "Log" else ("{}", "{}")
            d = "D" if dec else "2"
            r = ["if len(x) < 3 or len(y) < 3 or len(x) != len(y):\n    raise ValueError()", "k = np.argmin(y)",
                 f"if k == 0:\n    u = {to.format('x[:3]')}\n    w = y[:3]\nelif k == len(y) - 1:\n    u = {to.format('x[-3:]')}\n    w = y[-3:]\nelse:\n    u = {to.format('x[k - 1:k + 2]')}\n    w = y[k - 1:k + 2]",
                 "c = Polynomial.fit(u, w, deg=2).convert().coef", "if len(c) < 3 or c[2] <= 0:\n    return x[k], y[k], None", f"t = -c[1] / (2 * c[2])\nf = np.around(c[0] + t * c[1] / 2, decimals={d})\nt = np.around(t, decimals={d})\nt = {fr.format('t')}",
                 "if t < x[0] or t > x[-1]:\n    return x[k], y[k], None"]
            out.append((f"parabolic minimum{', ' + log if log else ''}{', decimals' if dec else ''}", "alignment.fitting.fit_parabola_min", "the minimum is not the vertex of the parabola through the three points around the smallest value (or that value)", fn(s, ret=f"{F}fit_parabola_min({', '.join(['x', 'y'] + o)})"), "from numpy.polynomial import Polynomial\n" + fn(s, *r, ret="(t, f, (c, u))")))
    return out


SHAPES = {2: "wu", 3: "vwu", 4: "dvwu"}
FIT = dict(opaque=("alignment.fitting.fit_shifts_vu_xc", "alignment.fitting.fit_sinusoid", X1, R1))


def guard(nd, x="x"):
    """The data has several projections, rows and detectors."""
    return f"if {' or '.join(f'{x}.shape[{i}] <= 1' for i in range(nd - 2))}:\n    raise ValueError()" if nd > 2 else "pass"


def check(nd):
    return ["t = np.array(np.squeeze(t), ndmin=1)", f"if x.shape[{nd - 2}] != len(t):\n    raise ValueError()"]


def opts(nd, mask=False, bord=False, mx=False, dec=False):
    """(constructor options, reference text with limits M, slices, decimals)."""
    o, r = [], []
    if bord:
        o.append("borders_dvwu=dict(d=None, v=B, w=None, u=C)" if nd > 2 else "borders_dvwu=dict(d=None, v=None, w=None, u=C)")
    if mask:
        o.append("data_mask_dvwu=m")
    if mx:
        o.append("max_shifts=L")
    if dec:
        o.append("precision_decimals=D")
    return o, ("L" if mx else None), ("D" if dec else "2"), ("x[" + ("..., B:-B, :, C:-C]" if nd > 2 else "..., C:-C]") if bord else "x")


SIG = "t: Arr[1], L: float, D: int, B: int, C: int"
POS = "if B <= 0 or C <= 0:\n    raise ValueError()"


def shift_rows():
    out = []
    W = "the vertical shifts are not those of the cross-correlation of the profiles with that of the central angle"
    e = "np.finfo(np.float32).eps"
    for nd in (3, 4):
        for der in (True, False):
            for rfft in (True, False):
                for norm in (True, False):
                    for mask, bord, mx, dec in ((False, False, False, False), (True, False, False, False), (False, True, True, True), (True, True, False, False)):
                        if sum((not der, not rfft, not norm, mask or bord)) > 2:
                            continue
                        o, L, D, X = opts(nd, mask, bord, mx, dec)
                        s = f"x: Arr[{nd}], m: Arr[{nd}], " + SIG
                        a = (["use_derivative=False"] if not der else []) + (["use_rfft=False"] if not rfft else []) + (["normalize_fourier=False"] if not norm else [])
                        g = [guard(nd)] + ([POS] if bord else [])
                        M = "m" + X[1:]
                        r = [f"p = ({X} * {M}).sum(axis=-1) / ({M}.sum(axis=-1) + ({M}.sum(axis=-1) == 0))" if mask else f"p = np.mean({X}, axis=-1)"] + (["p = np.mean(p, axis=-3)"] if nd == 4 else [])
                        r += ["n = p.min(axis=-2, keepdims=True)", "q = (p - n) / (p.max(axis=-2, keepdims=True) - n)"] + (["q = np.diff(q, axis=-2)"] if der else []) + [f"q = np.pad(q, pad_width=((p.shape[-2] // 2,), (0,)), mode='{'constant' if der else 'linear_ramp'}')"]
                        r += [f"f = np.fft.{'rfft' if rfft else 'fft'}(q, axis=-2)", "k = len(t) // 2", "c = f[:, [k]] * f.conj()"] + ([f"c = c / np.maximum(np.abs(c).max(axis=-2, keepdims=True), {e})"] if norm else [])
                        r += [f"c = np.fft.{'irfft' if rfft else 'ifft'}(c, n=q.shape[-2], axis=-2).real", f"v, y = {F}extract_peak_regions_1d(c, axis=-2, cc_coords=np.fft.fftfreq(c.shape[-2], 1 / c.shape[-2]))", f"h = {F}refine_max_position_1d(v, decimals={D}) + y[1]",
                              f"h[np.abs(h) > {'L' if L else f'x.shape[{nd - 3}] / 2'}] = 0", f"h = np.around(h - np.mean(h), decimals={D})"]
                        out.append((f"vertical pre-alignment, {SHAPES[nd]}" + "".join(", " + z for z in a + o), "alignment.shifts.DetectorShiftsPRE.fit_v", W, fn(s, *g, f"S = {S}DetectorShiftsPRE({', '.join(['x', 't'] + o)}, verbose=False)", ret=f"S.fit_v({', '.join(a)})"), fn(s, *g, *check(nd), *r, ret="h"), FIT))
    W = "shifts and centre are not the deviations from the sinusoid and its bias"
    for nd in (2, 3, 4):
        for l1 in (False, True):
            for back in (False, True):
                for met in (None, "COM", "max"):
                    for bord, mx, dec in ((False, False, False), (True, True, True)):
                        if sum((l1, back, met is not None, bord)) > 2:
                            continue
                        o, L, D, X = opts(nd, False, bord, mx, dec)
                        s = f"x: Arr[{nd}], b: float, " + SIG
                        a = (["fit_l1=True"] if l1 else []) + (["background=b"] if back else []) + ([f"method='{met}'"] if met else [])
                        g = [guard(nd)] + ([POS] if bord else [])
                        r = [f"y = {X}"] + (["y = np.mean(y, axis=0)"] if nd == 4 else []) + (["y = np.mean(y, axis=-3)"] if nd > 2 else []) + [f"y = np.maximum(y{' - b' if back else ''}, 0)", "h = (y.shape[-1] - 1) / 2"]
                        r += ["p = h - np.argmax(y, axis=-1)" if met == "max" else "f = np.linspace(-h, h, y.shape[-1])\np = -np.sum(y * f, axis=-1) / np.sum(y, axis=-1)", f"A, P, Q = {F}fit_sinusoid(t, p, fit_l1={l1})", "z = p - (A * np.sin(t + P) + Q)", f"z[np.abs(z) > {'L' if L else f'x.shape[{nd - 1}] / 2'}] = 0"]
                        out.append((f"horizontal pre-alignment, {SHAPES[nd]}" + "".join(", " + z for z in a + o), "alignment.shifts.DetectorShiftsPRE.fit_u", W, fn(s, *g, f"S = {S}DetectorShiftsPRE({', '.join(['x', 't'] + o)}, verbose=False)", ret=f"S.fit_u({', '.join(a)})"), fn(s, *g, *check(nd), *r, ret=f"(np.around(z, decimals={D}), float(np.around(Q, decimals={D})))"), FIT))
    return out


XC = dict(opaque=("alignment.fitting.fit_shifts_vu_xc", "alignment.fitting.fit_sinusoid", "alignment.fitting.fit_shifts_zyx_xc"))


def pair(nd, L, D, a="a", b="b", ret="z", der=False, opts="normalize_fourier=False"):
    """Lines for the shifts between two images (or lines), without those above the maximum."""
    r = [f"k0 = {a}", f"k1 = {b}"] + (["k0 = np.diff(k0, axis=-1)", "k1 = np.diff(k1, axis=-1)"] if der else [])
    r += [f"h = {F}fit_shifts_vu_xc(k0, k1, decimals={D}, {opts})"]
    if L:
        r += ["lo = np.array([[L]])", "hi = np.array([L])"]
    elif nd == 2:
        r += ["lo = np.array([[x.shape[1] / 2]])", "hi = np.array([x.shape[1] / 2])"]
    else:
        r += [f"lo = np.array([[x.shape[{nd - 3}] / 2], [x.shape[{nd - 1}] / 2]])", f"hi = np.array([x.shape[{nd - 1}] / 2])"]
    return r + ["if h.ndim > 1:\n    c = np.abs(h) > lo\nelse:\n    c = np.abs(h) > hi", f"{ret} = np.where(c, 0, h)"]


def ind(lines, n=1):
    return "\n".join("    " * n + y for x in lines for y in x.split("\n"))


def cross_rows():
    out = []
    CL = "alignment.shifts.DetectorShiftsXC."
    for nd in (2, 3):
        for mx, dec in ((False, False), (True, True)):
            o, L, D, X = opts(nd, False, False, mx, dec)
            s = f"x: Arr[{nd}], a: Arr[{nd}], b: Arr[{nd}], g: bool, " + SIG
            new = f"S = {S}DetectorShiftsXC({', '.join(['x', 't'] + o)}, verbose=False)"
            g = [guard(nd)]
            nm = "".join(", " + z for z in o)
            k = nd - 1
            for der in (False, True):
                for xo in (None, "dict(normalize_fourier=g, margin=B)"):
                    q = ["a", "b"] + (["use_derivative=True"] if der else []) + ([f"xc_opts={xo}"] if xo else [])
                    out.append((f"shifts between two {'images' if nd == 3 else 'lines'}{', derivative' if der else ''}{', correlation options' if xo else ''}{nm}", CL + "find_shifts_vu", "the shifts are not those of the correlation of the two (without those above the maximum)",
                                fn(s, *g, new, ret=f"S.find_shifts_vu({', '.join(q)})"), fn(s, *g, *check(nd), *pair(nd, L, D, der=der, opts="normalize_fourier=g, margin=B" if xo else "normalize_fourier=False"), ret="np.mean([z], axis=0)"), XC))
            if nd == 2:
                nv = 1
                sl = "x[[{}], :]"
            else:
                nv = 2
                sl = "x[:, [{}], :]"
            lp = ["n = x.shape[%d]" % (nd - 2), f"d = np.zeros(({nv}, n))"]
            for ref in (None, "one", "all"):
                W = "the drifts are not the shifts of each image from the reference"
                q = [] if ref is None else ["a"]
                gg = g + ([f"if a.shape[{nd - 2}] != 1:\n    raise ValueError()"] if ref == "one" else [f"if a.shape[{nd - 2}] == 1 or a.shape[{nd - 2}] != x.shape[{nd - 2}]:\n    raise ValueError()"] if ref == "all" else [])
                A = sl.format("0") if ref is None else sl.replace("x[", "a[").format("0" if ref == "one" else "i")
                out.append((f"drifts{'' if ref is None else ', ' + ref + ' reference'}{nm}", CL + "fit_vu_accum_drifts", W, fn(s, *gg, new, ret=f"S.fit_vu_accum_drifts({', '.join(q)})"),
                            fn(s, *gg, *check(nd), *lp, f"for i in range({f'a.shape[{nd - 2}]' if ref == 'all' else 'n'}):\n" + ind(pair(nd, L, D, a=A, b=sl.format("i")) + ["d[..., [i]] = np.mean([z], axis=0)"]), ret="d"), XC))
            for l1 in (False, True):
                r = ["o = np.argsort(t)", f"d = np.zeros(({nv}, len(t)))", "for i in range(len(o) - 1):\n" + ind(pair(nd, L, D, a=sl.format("o[i]"), b=sl.format("o[i + 1]")) + ["d[..., [i + 1]] = np.mean([z], axis=0)"]), "w = np.cumsum(d, axis=-1)"]
                r += [f"w[0, :] = np.around(w[0, :] - np.mean(w[0, :]), decimals={D})"] if nd == 3 else []
                r += [f"A, P, Q = {F}fit_sinusoid(t[o], w[-1, :], fit_l1={l1})", "u = w[-1, :] - (A * np.sin(t[o] + P) + Q)", f"u = np.where(np.abs(u) > {'L' if L else f'x.shape[{k}] / 2'}, 0, u)", f"w[-1] = np.around(u, decimals={D})"]
                out.append((f"cross-correlation alignment{', absolute differences' if l1 else ''}{nm}", CL + "fit_vu", "the shifts of each projection are not the accumulated ones of the adjacent angles, in the order of the projections", fn(s, *g, new, ret=f"S.fit_vu({'fit_l1=True' if l1 else ''})"), fn(s, *g, *check(nd), *r, ret="w[:, np.argsort(o)]"), XC))
            f0 = ["i = np.argmin(np.abs(t - t.min()))", "j = np.argmin(np.abs(t - (t.min() + np.pi)))"] + pair(nd, L, D, a=sl.format("i"), b=f"np.flip({sl.format('j')}, axis=-1)")
            out.append((f"centre of rotation over 180 degrees{nm}", CL + "fit_u_180", "the centre is not half of the shift between opposite projections", fn(s, *g, new, ret="S.fit_u_180()"), fn(s, *g, *check(nd), *f0, ret="-np.mean([z], axis=0)[-1] / 2"), XC))
            f1 = ["m = np.sum(t < t[0] + np.pi)", "j = np.argmin(np.abs(t[None, :] - (t[:m] + np.pi)[:, None]), axis=-1)", "d = np.empty([2, m])",
                  "for i in range(m):\n" + ind(pair(nd, L, D, a=sl.format("i"), b=f"np.flip({sl.format('j[i]')}, axis=-1)") + ["d[..., [i]] = np.mean([z], axis=0)"])]
            out.append((f"centre of rotation over 360 degrees{nm}", CL + "fit_u_360", "the centre is not the mean of those of all the pairs of opposite projections", fn(s, *g, new, ret="S.fit_u_360()"), fn(s, *g, *check(nd), *f1, ret=f"float(np.around(np.mean(-d[-1, :] / 2), decimals={D}))"), XC))
    return out


def centre_rows():
    out = []
    CL = "alignment.centering.RecenterVolume."
    s = "h: Arr[2], v: Arr[3], w: Arr[3], c: Arr[1], t: Arr[1], D: int"
    W = "the shifts are not corrected by the projection of the displacement"
    for dec in (False, True):
        new = [f"G = corrct.models.ProjectionGeometry.get_default_parallel(geom_type='3d')", f"S = corrct.alignment.centering.RecenterVolume(G, t{', D' if dec else ''})"]
        new2 = [new[0], "G = G.rotate(t)"]
        d = "D" if dec else "2"
        fin = f"np.around(h + G.project_displacement_to_detector(q), decimals={d})"
        nm = ", decimals" if dec else ""
        out.append(("recentering to a position" + nm, CL + "to_com", W, fn(s, *new, ret="S.to_com(h, v, c)"), fn(s, *new2, "q = np.array(c) - corrct.processing.post.com(v)", ret=fin)))
        for m in (None, "com", "COM", "xc", "XC"):
            q = f"q = {F}fit_shifts_zyx_xc(w, v, decimals={d})" if m and m.lower() == "xc" else "q = corrct.processing.post.com(w) - corrct.processing.post.com(v)"
            out.append((f"recentering on a volume{', ' + m if m else ''}{nm}", CL + "as_reference", W, fn(s, *new, ret=f"S.as_reference(h, v, w{f', method={m!r}' if m else ''})"), fn(s, *new2, q, ret=fin), XC))
    return out


def rows():
    return cross_rows() + centre_rows() + peak_rows() + xc_rows() + other_rows() + shift_rows()


def run(chk, prog):
    chk.rule("peaks", "regions around the maxima, with wrapping, and vertices of the fitted parabolas")
    chk.need("peaks", table(chk, prog, "peaks", peak_rows()))
    chk.rule("detector-shifts", "pre-alignment shifts, shifts between images and centres of rotation, in acquisition order")
    chk.need("detector-shifts", table(chk, prog, "detector-shifts", shift_rows()))
    chk.rule("correlation", "shifts of the maxima of the correlations")
    chk.need("correlation", table(chk, prog, "correlation", xc_rows() + other_rows()))
    chk.rule("cross-correlation", "drifts, alignment and centre of rotation from the correlations, in acquisition order")
    chk.need("cross-correlation", table(chk, prog, "cross-correlation", cross_rows()))
    chk.rule("centering", "the shifts follow the projection of the displacement of the volume")
    chk.need("centering", table(chk, prog, "centering", centre_rows()))
