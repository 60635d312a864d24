"""C13: regularizers implement one saddle-point protocol: dual += sigma op(x); proximal of the dual; x -= tau weight op^T(dual)."""
from ..spec import table

R = "corrct.regularizers."
D = "corrct.data_terms.DataFidelity_"
O = "corrct.operators."

WLET = """
pw = pywt.Wavelet('db2')
fb = np.linalg.norm(pw.filter_bank, ord=1, axis=-1)
labels = [{labels}]
rec = [fb[2] ** lab.count('a') * fb[3] ** lab.count('d') for lab in labels]
dec = [fb[0] ** lab.count('a') * fb[1] ** lab.count('d') for lab in labels]
recs = np.concatenate(([(fb[2] ** {nd}) ** 2], (np.array(rec)[None, :] * ((fb[2] ** {nd}) ** np.arange(1, -1, -1))[:, None]).flatten()))
decs = np.concatenate(([(fb[0] ** {nd}) ** 2], (np.array(dec)[None, :] * ((fb[0] ** {nd}) ** np.arange(1, -1, -1))[:, None]).flatten()))
"""


def labels(nd):
    return ", ".join(repr(bin(x)[2:].zfill(nd).replace("0", "a").replace("1", "d")) for x in range(1, 2 ** nd))


def grad(ctor, nd, norm="l12()", axes=None, pad="edge", lap=False):
    ax = axes or f"np.arange(-{nd}, 0)"
    op = f"{O}Transform{'Laplacian' if lap else 'Gradient'}(p.shape, axes={ax}, pad_mode='{pad}')"
    return dict(ctor=ctor, op=op, norm=norm, sigma="0.25" if lap else "0.5", tau=f"{4 if lap else 2}*{nd}")


FFT = """
fs = [np.fft.fftfreq(s) for s in op.adj_shape[np.arange(-2, 0)]]
fs = np.array(np.meshgrid(*fs, indexing='ij'))
shp = np.ones_like(op.adj_shape)
shp[np.arange(-2, 0)] = op.adj_shape[np.arange(-2, 0)]
s = np.reshape({0}, shp)
"""
FFTF = {"exp": "1 - np.exp(-12*np.sqrt(np.sum(fs**2, axis=0)))", "exp2": "1 - np.exp(-36*np.sum(fs**2, axis=0))", "delta": "1 - np.all(fs == 0, axis=0)"}


def swl(ctor, norm, nd=2, normalized=False, approx=True, l12=False):
    op = f"{O}TransformStationaryWavelet(p.shape, wavelet='db2', level=2, axes=np.arange(-{nd}, 0), pad_on_demand='constant', normalized={normalized})"
    pre = WLET.format(nd=nd, labels=labels(nd)) + ("" if normalized else f"cnt = np.ones_like(recs)*(2**{nd} - 1)\ncnt[0] += 1\n")
    sig = "1" if normalized else "np.reshape(1/decs, [-1] + [1]*len(op.dir_shape))"
    upd = "e = e + s*op(q)" + ("" if approx else "\ne[0, ...] = 0")
    prox = None
    if l12:
        prox = "t = e[1:].reshape([2, -1, *e.shape[1:]])\nt = t.swapaxes(0, 1).copy()\nn.apply_proximal_dual(t, wa)\ne[1:] = t.swapaxes(0, 1).reshape(e[1:].shape)\nt2 = e[0:1].copy()\nn.apply_proximal_dual(t2, wa)\ne[0:1] = t2"
    return dict(ctor=ctor, op=op, pre=pre, sigma=sig, tau="decs.size" if normalized else "np.sum(cnt/recs)", norm=norm, update=upd, prox=prox, l12=l12)


def dwl(ctor, norm, nd=2, approx=True):
    op = f"{O}TransformDecimatedWavelet(p.shape, wavelet='db2', level=2, axes=np.arange(-{nd}, 0), pad_on_demand='constant')"
    pre = WLET.format(nd=nd, labels=labels(nd)) + f"cnt = np.ones_like(recs)*(2**{nd} - 1)\ncnt[0] += 1\ntt = np.sum(cnt/recs)\n"
    pre += f"""
sh = pywt.wavedecn_shapes(p.shape, 'db2', mode='constant', level=2, axes=np.arange(-{nd}, 0))
sg = [np.ones(sh[0])/decs[0]]
cnt = 1
for k in range(2):
    dd = dict()
    for lab in sh[k + 1].keys():
        dd[lab] = np.ones(sh[k + 1][lab])/decs[cnt]
        cnt += 1
    sg.append(dd)
s = pywt.coeffs_to_array(sg, axes=np.arange(-{nd}, 0))[0]
"""
    upd = "e = e + s*op(q)" + ("" if approx else "\ne[tuple([slice(0, k) for k in pywt.wavedecn_shapes(p.shape, 'db2', mode='constant', level=2, axes=np.arange(-%d, 0))[0]])] = 0" % nd)
    prox = None
    if norm == "l12()":
        prox = """
c = pywt.array_to_coeffs(e, pywt.coeffs_to_array(pywt.wavedecn(q, wavelet='db2', axes=op.axes, mode='constant', level=2), axes=op.axes)[1])
for k in range(1, len(c)):
    keys = [a for a, b in c[k].items()]
    t = np.stack([b for a, b in c[k].items()], axis=0)
    n.apply_proximal_dual(t, wa)
    for j, a in enumerate(keys):
        c[k][a] = t[j]
n.apply_proximal_dual(c[0], wa)
e = pywt.coeffs_to_array(c, axes=op.axes)[0]
"""
    thr = ""
    if norm == "l1()":
        thr = """
c = pywt.wavedecn(x, wavelet='db2', axes=op.axes, mode='constant', level=2)
for k in range(1, len(c)):
    for a in list(c[k].keys()):
        t = c[k][a]
        n.apply_proximal_primal(t, tau*w)
        c[k][a] = t
"""
        if approx:
            thr += "t = c[0]\nn.apply_proximal_primal(t, tau*w)\nc[0] = t\n"
        thr += "x = op.inverse_dwt(c)"
    return dict(ctor=ctor, op=op, pre=pre, sigma="s", tau="tt", norm=norm, update=upd, prox=prox, dwl=True, **(dict(primal=thr, primal0=thr) if thr else {}))


MED = dict(op=f"{O}TransformIdentity(p.shape)", sigma="1", tau="1.0", update="e = e + q - sp.ndimage.median_filter(q, 3)")
VAX = "dual_norm = {chan}\nd = d/np.fmax(dual_norm, wa)*wa"


def pointwise(der, chan, ref=""):
    g = {"1": "np.abs(d)", "2": "np.linalg.norm(d, axis=0, ord=2, keepdims=True)", "np.inf": "np.linalg.norm(d, axis=0, ord=1, keepdims=True)"}[der]
    c = {"1": "g", "2": "np.linalg.norm(g, axis=1, ord=2, keepdims=True)", "np.inf": "np.linalg.norm(g, axis=1, ord=1, keepdims=True)"}[chan]
    return f"g = {g}\nd = d/np.fmax({c}, wa)*wa\n"


def vtv(der, chan, xref, nch):
    d = grad(f"VTV(w, pwise_der_norm={der}, pwise_chan_norm={chan}" + (", x_ref=xr" if xref else "") + "@)", 2)
    pre = "d = e\n" if nch else "d = np.expand_dims(e, axis=1)\n"
    if xref:
        pre += f"xo = {O}TransformGradient(xr.shape, axes=np.arange(-2, 0), pad_mode='edge')\nd = np.concatenate((d, np.expand_dims(np.zeros(xo.adj_shape) + 0.5*xo(xr), axis=1)), axis=1)\n"
    pre += pointwise(der, chan)
    if xref:
        pre += "d = d[:, :d.shape[1] - 1, ...]\n"
    d["prox"] = pre + ("e = d" if nch else "e = np.squeeze(d, axis=1)")
    d["p"] = "Arr[3]" if nch else "Arr[2]"
    d["e"] = "Arr[4]" if nch else "Arr[3]"
    return d


def regs():
    """(name, specification): the constructor text has '@' where the update mask goes."""
    out = []

    def add(name, **kw):
        out.append((name, kw))

    for k in (1, 2, 3):
        add(f"TV{k}D", **grad(f"TV{k}D(w@)", k))
        add(f"smooth{k}D", **grad(f"smooth{k}D(w@)", k, "l2()"))
        add(f"lap{k}D", **grad(f"lap{k}D(w@)", k, "l1()", lap=True))
        if k > 1:
            add(f"HubTV{k}D", **grad(f"HubTV{k}D(w, h@)", k, "Huber(h, l2_axis=0)"))
    add("gradient", **grad("Grad(w@)", 2))
    add("gradient with axes, wrapping, l1-norm", **grad(f"Grad(w, ndims=2, axes=[0, 2], pad_mode='WRAP', norm={D}l1()@)", 2, "l1()", "[0, 2]", "wrap"))
    add("gradient with another number of axes, l2-norm", **grad(f"Grad(w, ndims=2, axes=[0, 1, 2], norm={D}l2()@)", 3, "l2()", "[0, 1, 2]"))
    add("smooth with axes", **grad("smooth2D(w, axes=[0, 1], pad_mode='wrap'@)", 2, "l2()", "[0, 1]", "wrap"))
    add("TV with axes", **grad("TV2D(w, axes=[0, 1], pad_mode='wrap'@)", 2, "l12()", "[0, 1]", "wrap"))
    add("laplacian with axes", **grad("lap(w, axes=[0, 1], pad_mode='wrap'@)", 2, "l1()", "[0, 1]", "wrap", lap=True))
    add("TNV", **grad("TNV(w@)", 2, "ln(ln_axes=(1, 0), spectral_norm=corrct.data_terms.DataFidelity_l1())"))
    for der in ("1", "2", "np.inf"):
        for chan in ("1", "2", "np.inf"):
            add(f"VTV, norms {der} and {chan}", **vtv(der, chan, False, True))
    add("VTV of one channel", **vtv("2", "np.inf", False, False))
    add("VTV with a reference channel", **vtv("2", "np.inf", True, True))
    add("VTV of one channel with a reference channel", **vtv("2", "2", True, False))
    add("l1", ctor="l1(w@)", op=f"{O}TransformIdentity(p.shape)", sigma="1", tau="1.0", norm="l1()", primal="x = x*(1 - m) + prox(x*m)" , primal0="x = prox(x)")
    for nd in (1, 2, 3):
        a = "" if nd == 2 else f", ndims={nd}"
        add(f"stationary wavelets, {nd} axes", **swl(f"l1swl(w, 'db2', 2{a}@)", "l1()", nd))
        add(f"decimated wavelets, {nd} axes", **dwl(f"l1dwl(w, 'db2', 2{a}@)", "l1()", nd))
    add("stationary wavelets without approximation", **swl("l1swl(w, 'db2', 2, min_approx=False@)", "l1()", approx=False))
    add("normalized stationary wavelets", **swl("l1swl(w, 'db2', 2, normalized=True@)", "l1()", normalized=True),
        primal0="c = op(x)\nn.apply_proximal_primal(c, tau*wa)\nx = op.T(c)", primal="c = op(x)\nn.apply_proximal_primal(c, tau*wa)\nx = op.T(c)")
    add("normalized stationary wavelets without approximation", **swl("l1swl(w, 'db2', 2, normalized=True, min_approx=False@)", "l1()", normalized=True, approx=False),
        primal0="c = op(x)\nc1 = c[1:]\nn.apply_proximal_primal(c1, tau*wa)\nc[1:] = c1\nx = op.T(c)", primal="c = op(x)\nc1 = c[1:]\nn.apply_proximal_primal(c1, tau*wa)\nc[1:] = c1\nx = op.T(c)")
    add("decimated wavelets without approximation", **dwl("l1dwl(w, 'db2', 2, min_approx=False@)", "l1()", approx=False))
    add("Huber stationary wavelets", **swl("Hub_swl(w, 'db2', 2, h@)", "Huber(h)"))
    add("Huber decimated wavelets", **dwl("Hub_dwl(w, 'db2', 2, h@)", "Huber(h)"))
    add("l12 stationary wavelets", **swl("l12swl(w, 'db2', 2@)", "l12()", l12=True))
    add("l12 normalized stationary wavelets", **swl("l12swl(w, 'db2', 2, normalized=True@)", "l12()", normalized=True, l12=True))
    add("l12 decimated wavelets", **dwl("l12dwl(w, 'db2', 2@)", "l12()"))
    add("spectral stationary wavelets", **swl("lnswl(w, 'db2', 2@)", "ln(ln_axes=(1, 0), spectral_norm=corrct.data_terms.DataFidelity_l1())"))
    for lvl in ("1", "2", "np.inf"):
        for chan in ("1", "2", "np.inf"):
            v = swl(f"vl1wl(w, 'db2', 2, pwise_lvl_norm={lvl}, pwise_chan_norm={chan}@)", "l1()")
            v["prox"] = "d = e\n" + pointwise(lvl, chan) + "e = d"
            v["p"], v["e"] = "Arr[3]", "Arr[4]"
            add(f"vector wavelets, norms {lvl} and {chan}", **v)
    add("l1 median", **MED, ctor="l1med(w)", norm="l1()", nomask=True)
    add("l2 median", **MED, ctor="l2med(w)", norm="l2()", nomask=True)
    for f, flt in FFTF.items():
        for norm in ("l12", "l1", "l2"):
            d = dict(ctor=f"fft(w, fft_filter='{f.upper() if norm == 'l2' else f}', norm={D}{norm}()@)", op=f"{O}TransformFourier(p.shape, axes=np.arange(-2, 0))", post=FFT.format(flt), sigma="s", tau="1.0", norm=f"{norm}()")
            if norm == "l1":
                d["primal"] = d["primal0"] = "c = op(x)\na = c*s\nn.apply_proximal_primal(a, tau*wa)\nx = op.T(a + c*(1 - s))"
            add(f"Fourier, {f} filter, {norm}-norm", **d)
    add("channel SVD", ctor="vSVD(w@)", op=f"{O}TransformSVD(p.shape, axes_rows=(0,), axes_cols=np.arange(-2, 0), rescale=True)", sigma="1", tau="1.0", norm="l1()", svd=True)
    add("channel SVD, l2-norm", ctor=f"vSVD(w, norm={D}l2()@)", op=f"{O}TransformSVD(p.shape, axes_rows=(0,), axes_cols=np.arange(-2, 0), rescale=True)", sigma="1", tau="1.0", norm="l2()", svd=True)
    I = dict(op=f"{O}TransformIdentity(p.shape)", sigma="1", norm="l2()", tau="1.0", limit=True, update="e = e + q - h")
    add("lower limit", ctor="!Constraint_LowerLimit(h@)", **I, prox="e = np.where(e > 0, 0, e)/2", primal="x = np.fmax(x, h)", primal0="x = np.fmax(x, h)")
    add("upper limit", ctor="!Constraint_UpperLimit(h@)", **I, prox="e = np.where(e < 0, 0, e)/2", primal="x = np.fmin(x, h)", primal0="x = np.fmin(x, h)")
    add("lower limit, l1-norm", ctor=f"!Constraint_LowerLimit(h, norm={D}l1()@)", **dict(I, norm="l1()"), prox="e = np.fmin(e, 0)\ne = e/np.fmax(np.abs(e), 1)")
    return out


def body(*parts):
    return "\n".join("    " + ln for part in parts if part for ln in part.strip("\n").split("\n"))


def rows():
    out = []
    for name, s in regs():
        for mask in (False, True):
            if mask and s.get("nomask"):
                continue
            l1 = s["norm"].startswith("l1")
            c = s["ctor"].replace("@", ", upd_mask=m" if mask else "")
            cls = c.split("(")[0]
            cls = cls[1:] if cls[0] == "!" else "Regularizer_" + cls
            ctor = c[1:] if c[0] == "!" else "Regularizer_" + c
            pt = s.get("p", "np.ndarray")
            et = s.get("e", "np.ndarray")
            if s.get("svd"):
                pt = "Arr[3]"
            args = f"p: {pt}, q: {pt}, x: {pt}, e: {et}, e0: {et}, w: float, h: float, m: np.ndarray, tau: float, xr: Arr[2]"
            g = "if m is None or not isinstance(m, np.ndarray):\n    raise ValueError()"
            head = f"import pywt\ndef f({args}):\n"
            ini = f"o = {R}{ctor}\ntau0 = o.initialize_sigma_tau(p)"
            pre = f"wa = np.array({'1' if s.get('limit') else 'w'})\nop = {s['op']}\n" + s.get("pre", "") + s.get("post", "") + f"\ns = {s['sigma']}\nn = {D}{s['norm']}\nn.assign_data(None, sigma=s)"
            t = s["tau"] + ("" if l1 else "*wa") + ("*m" if mask else "")
            lab = name + (", with a mask" if mask else "")
            what = s.get("what", ("init", "dual", "prox", "primal"))
            use = "o.update_dual(e0, q)" if s.get("dwl") and s.get("prox") else ""
            site = f"regularizers.{cls}."
            if "init" in what:
                out.append((f"{lab}: step size and initial dual", site + "initialize_sigma_tau", "the step size or the initial dual differ from the norm bound of the operator",
                            head + body(g, ini, "return tau0, o.initialize_dual()"), head + body(g, pre, f"return {t}, np.zeros(op.adj_shape)")))
            if "dual" in what:
                out.append((f"{lab}: dual update", site + "update_dual", "the dual is not updated with sigma times the transform",
                            head + body(g, ini, "o.update_dual(e, q)\nreturn e"), head + body(g, pre, s.get("update", "e = e + s*op(q)"), "return e")))
            if "prox" in what:
                prox = s.get("prox") or ("n.apply_proximal_dual(e, wa)" if l1 else "n.apply_proximal_dual(e)")
                out.append((f"{lab}: proximal of the dual", site + "apply_proximal_dual", "the proximal of the dual differs from that of the norm",
                            head + body(g, ini, use, "o.apply_proximal_dual(e)\nreturn e"), head + body(g, pre, prox, "return e")))
            if "primal" in what:
                svd = "o.update_dual(e0, q)" if s.get("svd") else ""
                out.append((f"{lab}: update of the primal", site + "compute_update_primal", "the update of the primal is not weight * op^T(dual)",
                            head + body(g, ini, svd, "return o.compute_update_primal(e)"),
                            head + body(g, pre, "op(q)" if svd else "", "u = op.T(e)" + ("*m" if mask else "") + ("" if l1 else "*wa"), "return u")))
            if mask and s.get("primal") or not mask and s.get("primal0"):
                prm = s["primal"] if mask else s["primal0"]
                fun = "def prox(v):\n    v = np.array(v)\n    n.apply_proximal_primal(v, tau*wa)\n    return v\n"
                out.append((f"{lab}: proximal of the primal", site + "apply_proximal_primal", "the proximal of the primal differs from op^T prox op",
                            head + body(g, ini, "o.apply_proximal_primal(x, tau)\nreturn x"), head + body(g, pre, fun if "prox(" in prm else "", prm, "return x")))
    return out


def run(chk, prog):
    chk.rule("saddle-point", "step sizes, initial dual, dual update, proximal of the dual, update of the primal and proximal of the primal of every regularizer are value-number equal "
             "to those of the operator and the norm it is documented to combine (update and threshold scaled by weight, update mask and step size)")
    table(chk, prog, "saddle-point", rows())
    chk.need("saddle-point", 150)
