"""C23: proximal operators, dual updates, residual norms and primal-dual gaps of the data terms have their closed forms."""
from ..spec import table

CT = "corrct.data_terms."
A = "data_terms."


def drv(cls, args, body, ctor="", data=True, ret="x"):
    lines = [f"def f({args}):", f"    d = {CT}{cls}({ctor})"]
    if data:
        lines.append("    d.assign_data(b, sigma)")
    lines += ["    " + ln for ln in body.split("\n")]
    lines.append(f"    return {ret}")
    return "\n".join(lines)


def ref(args, body, ret="x"):
    return "\n".join([f"def f({args}):"] + ["    " + ln for ln in body.split("\n")] + [f"    return {ret}"])


def rows():
    P, D = "x, b, sigma", "x, b, sigma, tau"
    W = "x, b, sigma, w"
    WT = "x, b, sigma, tau, w"
    out = []

    def dual(cls, formula, args=P, ctor="", name=None):
        out.append((f"{cls}: proximal of the dual{name or ''}", f"{A}{cls}.apply_proximal_dual", "the dual proximal differs from its closed form",
                    drv(cls, args, "d.apply_proximal_dual(x)", ctor), ref(args, "b = np.array(b)\n" + formula)))

    def dual0(cls, formula, args="x", ctor=""):
        out.append((f"{cls}: proximal of the dual without data", f"{A}{cls}.apply_proximal_dual", "the dual proximal without data differs from its closed form",
                    drv(cls, args, "d.apply_proximal_dual(x)", ctor, data=False), ref(args, formula)))

    def primal(cls, formula, args=D, ctor=""):
        out.append((f"{cls}: proximal of the primal", f"{A}{cls}.apply_proximal_primal", "the primal proximal differs from its closed form",
                    drv(cls, args, "d.apply_proximal_primal(x, tau)", ctor), ref(args, "b = np.array(b)\n" + formula)))

    def primal0(cls, formula, args="x, tau", ctor=""):
        out.append((f"{cls}: proximal of the primal without data", f"{A}{cls}.apply_proximal_primal", "the primal proximal without data differs from its closed form",
                    drv(cls, args, "d.apply_proximal_primal(x, tau)", ctor, data=False), ref(args, formula)))

    def norm(cls, formula, args="x", ctor="", data=False):
        out.append((f"{cls}: residual norm", f"{A}{cls}.compute_residual_norm", "the residual norm differs from its definition",
                    drv(cls, args, "n = d.compute_residual_norm(x)", ctor, data=data, ret="n"), ref(args, formula, ret="n")))

    dual("DataFidelity_l2", "x = (x - sigma*b)/(1 + sigma)")
    dual0("DataFidelity_l2", "x = x*1.0")
    primal("DataFidelity_l2", "x = (x + tau*b)/(1 + tau)")
    primal0("DataFidelity_l2", "x = x/(1 + tau)")
    norm("DataFidelity_l2", "n = float(np.linalg.norm(x.flatten(), ord=2)**2)")
    dual("DataFidelity_l1", "x = x - sigma*b\nx = x/np.fmax(np.abs(x), 1.0)")
    dual0("DataFidelity_l1", "x = x/np.fmax(np.abs(x), 1.0)")
    primal("DataFidelity_l1", "d = x - b\nx = b + np.sign(d)*np.fmax(np.abs(d) - tau, 0)")
    primal0("DataFidelity_l1", "x = np.sign(x)*np.fmax(np.abs(x) - tau, 0)")
    norm("DataFidelity_l1", "n = float(np.linalg.norm(np.abs(x), ord=1))")
    dual("DataFidelity_KL", "x = (1 + x - np.sqrt((x - 1)**2 + 4*sigma*np.fmax(b, 0)))/2")
    dual0("DataFidelity_KL", "x = (1 + x - np.sqrt((x - 1)**2))/2")
    primal("DataFidelity_KL", "x = ((x - tau) + np.sqrt((x - tau)**2 + 4*tau*np.fmax(b, 0)))/2")
    primal0("DataFidelity_KL", "x = np.fmax(x - tau, corrct.data_terms.eps)")
    norm("DataFidelity_KL", "n = float(np.linalg.norm(x.flatten(), ord=1))")
    primal("DataFidelity_wl2", "w = np.array(w)\nx = (x + tau*w*b)/(1 + tau*w)", WT, "w")
    out.append(("DataFidelity_l1: weighted proximal of the dual", A + "DataFidelity_l1.apply_proximal_dual", "the weighted dual proximal differs from its closed form",
                drv("DataFidelity_l1", W, "d.apply_proximal_dual(x, w)"), ref(W, "b = np.array(b)\nx = x - sigma*b\nx = w*x/np.fmax(np.abs(x), w)")))
    dual("DataFidelity_l12", "x = x - sigma*b\nx = x/np.fmax(np.linalg.norm(x, ord=2, axis=ax, keepdims=True), 1.0)", P + ", ax", "l2_axis=ax")
    norm("DataFidelity_l12", "n = float(np.linalg.norm(np.linalg.norm(x, ord=2, axis=ax, keepdims=True), ord=1))", "x, ax", "l2_axis=ax")
    E = P + ", e"
    dual("DataFidelity_l1b", "x = x - sigma*b\nx = np.sign(x)*np.fmax(np.abs(x) - e, 0)\nx = x/np.fmax(np.abs(x), 1.0)", E, "e")
    norm("DataFidelity_l1b", "x = np.sign(x)*np.fmax(np.abs(x) - e, 0)\nn = float(np.linalg.norm(np.abs(x), ord=1))", "x, e", "e")
    dual("DataFidelity_l2b", "x = x - sigma*b\nx = np.sign(x)*np.fmax(np.abs(x) - sigma*np.sqrt(e), 0)\nx = x/(1 + sigma*e)", E, "e")
    dual("DataFidelity_Huber", "x = (x - sigma*b)/(1 + sigma*e)\nx = x/np.fmax(np.abs(x), 1)", E, "e")
    dual("DataFidelity_Huber", "x = (x - sigma*b)/(1 + sigma*e)\nx = x/np.fmax(np.linalg.norm(x, ord=2, axis=0, keepdims=True), 1)", E, "e, l2_axis=0", " (vectorial)")
    norm("DataFidelity_Huber", "m = np.abs(x) <= e\nn = float(np.linalg.norm(x[m].flatten(), ord=2)**2 + np.linalg.norm(x[np.logical_not(m)].flatten(), ord=1))", "x, e", "e")
    # weighted l2: division by the weights where they are not zero, zero elsewhere
    out.append(("DataFidelity_wl2: proximal of the dual", A + "DataFidelity_wl2.apply_proximal_dual", "the dual proximal differs from its closed form",
                drv("DataFidelity_wl2", W, "d.apply_proximal_dual(x)", "w"),
                ref(W, "b = np.array(b)\nw = np.array(w)\nif isinstance(sigma, np.ndarray):\n    t = sigma.dtype\nelse:\n    t = type(sigma)\n"
                       "z = (w == 0).astype(t)\nx = (x - sigma*b)*(1/(1 + sigma/(w + z))*(1 - z))")))
    out.append(("DataFidelity_wl2: residual norm", A + "DataFidelity_wl2.compute_residual_norm", "the residual norm differs from its definition",
                drv("DataFidelity_wl2", "x, w", "n = d.compute_residual_norm(x)", "w", data=False, ret="n"),
                ref("x, w", "w = np.array(w)\nm = w != 0\nif isinstance(x, np.ndarray):\n    x = x[m]\nn = float(np.linalg.norm((x/np.sqrt(w[m])).flatten(), ord=2)**2)", ret="n")))
    out.append(("update of the dual", A + "DataFidelityBase.update_dual", "the dual step differs from p + sigma (A x)",
                drv("DataFidelity_l2", "x, b, sigma, y", "d.update_dual(x, y)"), ref("x, b, sigma, y", "x = x + sigma*y")))
    out.append(("dot product with the data", A + "DataFidelityBase.compute_data_dual_dot", "the dot product differs from sum(dual * mask * data)",
                drv("DataFidelity_l2", "x, b, sigma, m", "n = d.compute_data_dual_dot(x, m)\nk = d.compute_data_dual_dot(x)", ret="n, k"),
                ref("x, b, sigma, m", "b = np.array(b)\nif m is not None:\n    n = np.dot((x*m).flatten(), b.flatten())\nelse:\n    n = np.dot(x.flatten(), b.flatten())\nk = np.dot(x.flatten(), b.flatten())", ret="n, k")))
    out.append(("initial dual", A + "DataFidelityBase.initialize_dual", "the dual does not start from zero",
                drv("DataFidelity_l2", P, "n = d.initialize_dual()", ret="n"), ref(P, "n = np.zeros_like(np.array(b))", ret="n")))
    # residuals
    def residual(cls, formula, args="y: np.ndarray, m: np.ndarray, b: np.ndarray, sigma: float", ctor="", data=True, mask=True, kw=""):
        call = f"r = d.compute_residual(y{', mask=m' if mask else ''}{kw})"
        name = f"{cls}: {'masked ' if mask else ''}residual{'' if data else ' without data'}{kw}"
        out.append((name, f"{A}{cls}.compute_residual", "the residual differs from its definition",
                    drv(cls, args, call, ctor, data=data, ret="r"), ref(args, ("b = np.array(b)\n" if data else "") + formula + ("\nr = r * m" if mask else ""), ret="r")))

    BY = "y: np.ndarray, m: np.ndarray, b: np.ndarray, sigma: float"
    soft = "r = np.sign(r)*np.fmax(np.abs(r) - {t}, 0)"
    for mask in (False, True):
        for cls, ctor in (("DataFidelity_l2", ""), ("DataFidelity_l1", ""), ("DataFidelity_l12", ""), ("DataFidelity_Huber", "e"), ("DataFidelity_l1b", "e"), ("DataFidelity_ln", "")):
            a = BY + (", e: float" if ctor else "")
            residual(cls, "r = b - y", a, ctor, mask=mask)
            residual(cls, "r = y * 1.0", a, ctor, data=False, mask=mask)
        residual("DataFidelity_wl2", "r = (b - y) * np.array(w)", BY + ", w: np.ndarray", "w", mask=mask)
        residual("DataFidelity_wl2", "r = y * np.array(w)", BY + ", w: np.ndarray", "w", data=False, mask=mask)
        residual("DataFidelity_KL", "z = np.fmax(y, corrct.data_terms.eps)*sigma\nr = -(1 + z - np.sqrt((z - 1)**2 + 4*sigma*np.fmax(b, 0)))/2", BY, mask=mask)
        residual("DataFidelity_KL", "z = np.fmax(y, corrct.data_terms.eps)\nr = -(1 + z - np.sqrt((z - 1)**2))/2", BY, data=False, mask=mask)
        residual("DataFidelity_KL", "r = -(1 - np.fmax(b, 0)/np.fmax(y, corrct.data_terms.eps))", BY, mask=mask, kw=", use_proximal=False")
        residual("DataFidelity_KL", "r = -np.ones_like(np.fmax(y, corrct.data_terms.eps))", BY, data=False, mask=mask, kw=", use_proximal=False")
        # the l2 ball shrinks the (masked) residual
        m1 = " * m" if mask else ""
        for data in (True, False):
            a = BY + ", e: float"
            t = "sigma*np.sqrt(e)" if data else "np.sqrt(e)"
            out.append((f"DataFidelity_l2b: {'masked ' if mask else ''}residual{'' if data else ' without data'}", A + "DataFidelity_l2b.compute_residual", "the residual differs from its definition",
                        drv("DataFidelity_l2b", a, f"r = d.compute_residual(y{', mask=m' if mask else ''})", "e", data=data, ret="r"),
                        ref(a, ("b = np.array(b)\nr = (b - y)" if data else "r = y.copy()") + m1 + "\n" + soft.format(t=t), ret="r")))
        # gaps
        G = "y: np.ndarray, p: np.ndarray, m: np.ndarray, b: np.ndarray, sigma: float"
        cg = f"g = d.compute_primal_dual_gap(y, p{', mask=m' if mask else ''})"
        mm = "r = r * m\n" if mask else ""
        for data in (True, False):
            nm = f"{'masked ' if mask else ''}primal-dual gap{'' if data else ' without data'}"
            bb = "b = np.array(b)\nr = b - y\n" if data else "r = y.copy()\n"
            dot = "np.dot(p.flatten(), b.flatten())" if data else "0.0"
            W = "the primal-dual gap differs from its definition"
            out.append((f"DataFidelity_l1: {nm}", A + "DataFidelity_l1.compute_primal_dual_gap", W, drv("DataFidelity_l1", G, cg, data=data, ret="g"),
                        ref(G, bb + mm + f"g = float(np.linalg.norm(np.abs(r), ord=1) + {dot})", ret="g")))
            out.append((f"DataFidelity_l12: {nm}", A + "DataFidelity_l12.compute_primal_dual_gap", W, drv("DataFidelity_l12", G, cg, data=data, ret="g"),
                        ref(G, bb + mm + f"g = float(np.linalg.norm(np.linalg.norm(r, ord=2, axis=0, keepdims=True), ord=1) + {dot})", ret="g")))
            out.append((f"DataFidelity_l1b: {nm}", A + "DataFidelity_l1b.compute_primal_dual_gap", W, drv("DataFidelity_l1b", G + ", e: float", cg, "e", data=data, ret="g"),
                        ref(G + ", e: float", bb + mm + soft.format(t="e") + f"\ng = float(np.linalg.norm(np.abs(r), ord=1) + {dot})", ret="g")))
            out.append((f"DataFidelity_Huber: {nm}", A + "DataFidelity_Huber.compute_primal_dual_gap", W, drv("DataFidelity_Huber", G + ", e: float", cg, "e", data=data, ret="g"),
                        ref(G + ", e: float", bb + mm + f"g = float(np.linalg.norm(r, ord=2) + {dot} + e*np.linalg.norm(p, ord=2))", ret="g")))
            kl = "z = np.fmax(y, corrct.data_terms.eps)\nq = np.fmax(np.array(b), corrct.data_terms.eps)\nr = z - q*(1 - np.log(q) + np.log(z))\n" if data else "r = y.copy()\n"
            out.append((f"DataFidelity_KL: {nm}", A + "DataFidelity_KL.compute_primal_dual_gap", W, drv("DataFidelity_KL", G, cg, data=data, ret="g"), ref(G, kl + mm + "g = np.linalg.norm(r, ord=1)", ret="g")))
            sv = "s = corrct.operators.TransformSVD(r.shape, axes_rows=1, axes_cols=-1)\ng = float(np.linalg.norm(s(r), ord=1))"
            out.append((f"DataFidelity_ln: {nm}", A + "DataFidelity_ln.compute_primal_dual_gap", W, drv("DataFidelity_ln", G, cg, data=data, ret="g"), ref(G, bb + mm + sv + f" + {dot}", ret="g"),
                        dict(opaque=("operators.BaseTransform.__call__",))))
    dual0("DataFidelity_l12", "x = x/np.fmax(np.linalg.norm(x, ord=2, axis=ax, keepdims=True), 1.0)", "x, ax", "l2_axis=ax")
    dual0("DataFidelity_l1b", "x = np.sign(x)*np.fmax(np.abs(x) - e, 0)\nx = x/np.fmax(np.abs(x), 1.0)", "x, e", "e")
    dual0("DataFidelity_Huber", "x = x/np.fmax(np.abs(x), 1)", "x, e", "e")
    dual0("DataFidelity_l2b", "x = np.sign(x)*np.fmax(np.abs(x) - np.sqrt(e), 0)", "x, e", "e")
    # balls, as documented
    ball2 = "x = np.sign(x)*np.fmax(np.abs(x) - np.sqrt(e)*tau/(1 + tau*e), 0)/(1 + tau*e)"
    primal("DataFidelity_l2b", "x = x - b\n" + ball2 + "\nx = x + b", D + ", e", "e")
    primal0("DataFidelity_l2b", ball2, "x, tau, e", "e")
    ball1 = "x = np.sign(x)*np.fmax(np.abs(x) - e, 0)*(tau/(1 + tau))"
    primal("DataFidelity_l1b", "x = x - b\n" + ball1 + "\nx = x + b", D + ", e", "e")
    primal0("DataFidelity_l1b", ball1, "x, tau, e", "e")
    primal0("DataFidelity_wl2", "x = x/(1 + tau*np.array(w))", "x, tau, w", "w")
    # nuclear norm: the spectral norm acts on the singular values of the data stacked on the dual
    SV = dict(opaque=("operators.BaseTransform.__call__",))
    LN = "x: np.ndarray, b: np.ndarray, sigma: float"
    svd = "s = corrct.operators.TransformSVD(z.shape, axes_rows=1, axes_cols=-1)\nv = s(z)\nv = v/np.fmax(np.abs(v), 1.0)\nz = s.T(v)\n"
    out.append(("DataFidelity_ln: proximal of the dual", A + "DataFidelity_ln.apply_proximal_dual", "the dual proximal differs from the projection of the singular values",
                drv("DataFidelity_ln", LN, "d.apply_proximal_dual(x)"), ref(LN, "b = np.array(b)\nz = np.concatenate((x, sigma*b), axis=1)\n" + svd + "x = np.take(z, np.arange(z.shape[1] - 1), axis=1)"), SV))
    out.append(("DataFidelity_ln: proximal of the dual without data", A + "DataFidelity_ln.apply_proximal_dual", "the dual proximal differs from the projection of the singular values",
                drv("DataFidelity_ln", "x: np.ndarray", "d.apply_proximal_dual(x)", data=False), ref("x: np.ndarray", "z = x.copy()\n" + svd + "x = z"), SV))
    out.append(("DataFidelity_ln: residual norm", A + "DataFidelity_ln.compute_residual_norm", "the residual norm differs from the sum of the singular values",
                drv("DataFidelity_ln", "x: np.ndarray", "n = d.compute_residual_norm(x)", data=False, ret="n"),
                ref("x: np.ndarray", "s = corrct.operators.TransformSVD(x.shape, axes_rows=1, axes_cols=-1)\nn = float(np.linalg.norm(s(x), ord=1))", ret="n"), SV))
    # state without data
    out.append(("dot product without data", A + "DataFidelityBase.compute_data_dual_dot", "the dot product with no data is not zero", drv("DataFidelity_l2", "x", "n = d.compute_data_dual_dot(x)", data=False, ret="n"),
                ref("x", "n = 0.0", ret="n")))
    out.append(("re-assigned data", A + "DataFidelityBase.assign_data", "assigning new data keeps something of the old data", drv("DataFidelity_l2", "x, b, c, sigma, rho", "d.assign_data(c, rho)\nd.apply_proximal_dual(x)"),
                ref("x, b, c, sigma, rho", "x = (x - rho*np.array(c))/(1 + rho)")))
    return out


def run(chk, prog):
    chk.rule("closed-form", "the value numbering of the implementation equals the value numbering of the closed form, for symbolic data, step sizes, weights and iterates")
    n = table(chk, prog, "closed-form", rows(), extra_vocab=())
    chk.need("closed-form", n)
