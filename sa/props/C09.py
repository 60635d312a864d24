"""C09: parameter sweeps: result k is that of hyper-parameter value k, for every schedule of the tasks; losses, masks and minima are the documented ones."""
import itertools
from ..spec import table
from ..solverspec import fn

P = "corrct.param_tuning."
REC = ("solvers.PDHG.__call__",)


def order(perm):
    """The schedule to analyse: tasks complete in this order."""
    def preset(it, st):
        it.completion = list(perm)
        return {}
    return dict(preset=preset)


# how a list of hyper-parameter values is given: parameters, expression, values (or None: any number of them), schedules
HP = {
    "one value": ("x: float", "x", ["x"], [(0,)]),
    "two values": ("x: float, y: float", "[x, y]", ["x", "y"], list(itertools.permutations(range(2)))),
    "three values": ("x: float, y: float, z: float", "(x, y, z)", ["x", "y", "z"], list(itertools.permutations(range(3)))),
    "array": ("h: Arr[1]", "h", None, [None]),
}
MODES = {"serial": ("False", ""), "no threads": ("0", ""), "default threads": ("True", ""), "threads": ("k", ", k: int"), "executor": ("ex", ", ex: Executor")}
KW = {"": ("", "", ""), "keywords": (", u: float, v: float", "exec_fun_kwds={'u': u}", "u=u"), "init keywords": (", u: float, v: float", "init_fun_kwds={'v': v}", "v=v"),
      "both": (", u: float, v: float", "init_fun_kwds={'v': v}, exec_fun_kwds={'u': u, 'w': v}", "")}


def call(init, kw):
    k1 = "v=v" if kw in ("init keywords", "both") else ""
    k2 = {"keywords": "u=u", "both": "u=u, w=v"}.get(kw, "")
    if init:
        return lambda x: f"g(f({x}{', ' + k1 if k1 else ''}){', ' + k2 if k2 else ''})"
    return lambda x: f"g({x}{', ' + k2 if k2 else ''})"


def sweep_rows():
    out = []
    W = "the results are not those of the hyper-parameter values, in their order"
    for hn, (hs, hx, vals, scheds) in HP.items():
        for mn, (m, ms) in MODES.items():
            for init in (True, False):
                for kn, (ks, kx, _) in KW.items():
                    if kn and hn not in ("two values", "array"):
                        continue
                    if not init and kn in ("init keywords", "both"):
                        continue
                    s = "f: Callable, g: Callable, L: Callable, " + hs + ms + ks
                    mk = [f"t = {P}LCurve(L, parallel_eval={m})", "t.task_init_function = f" if init else "", "t.task_exec_function = g"]
                    c = call(init, kn)
                    mkr = [f"t = {P}LCurve(L, parallel_eval=False)"] + mk[1:]
                    if vals is None:
                        refs = ["[" + c("x") + f"[{i}] for x in h]" for i in (0, 1)]
                    else:
                        refs = ["[" + ", ".join(c(v) + f"[{i}]" for v in vals) + "]" for i in (0, 1)]
                    for sc in (scheds if mn in ("threads", "executor", "default threads") else [None]):
                        for i, nm in enumerate(("reconstructions", "information")):
                            extra = mkr
                            if mn == "threads":
                                extra = mkr
                            out.append((f"{nm} of a sweep ({hn}, {mn}{', no initialization' if not init else ''}{', ' + kn if kn else ''}{', order of completion ' + str(sc) if sc else ''})", "param_tuning.BaseParameterTuning.process_hp_vals", W,
                                        fn(s, *mk, ret=f"t.process_hp_vals({', '.join(y for y in (hx, kx) if y)})[{i}]"), fn(s, *extra, ret=refs[i]), order(sc) if sc else {}))
    s = "f: Callable, g: Callable, L: Callable, x: float, y: float, q: str"
    out.append(("sweep without a task", "param_tuning.BaseParameterTuning.process_hp_vals", "a missing task is not reported", fn(s, f"t = {P}LCurve(L, parallel_eval=0)", "t.task_init_function = f", ret="t.process_hp_vals([x, y])[0]"),
                fn(s, f"t = {P}LCurve(L, parallel_eval=0)", "t.task_init_function = f", "raise ValueError()", ret="0")))
    out.append(("sweep with an invalid evaluation mode", "param_tuning.BaseParameterTuning.process_hp_vals", "an invalid evaluation mode is not reported", fn(s, f"t = {P}LCurve(L, parallel_eval=q)", "t.task_exec_function = g", ret="t.process_hp_vals([x, y])[0]"),
                fn(s, f"t = {P}LCurve(L, parallel_eval=0)", "t.task_exec_function = g", "raise ValueError()", ret="0")))
    return out


def setter_rows():
    out = []
    s = "f: Callable, g: Callable, L: Callable, x: float, q: str"
    imp = "import inspect\n"
    G = "if len(inspect.signature(L).parameters) != 1:\n    raise ValueError()"
    F = "if len(inspect.signature(f).parameters) != 1:\n    raise ValueError()"
    E = "if len(inspect.signature(g).parameters) < 1:\n    raise ValueError()"
    T = f"t = {P}LCurve(L, parallel_eval=0)"
    W = "the functions of the tasks are not stored, or invalid ones are accepted"
    rows = [("both functions", ["t.task_init_function = f", "t.task_exec_function = g"], "(t.task_init_function, t.task_exec_function)", [F, E], "(f, g)"),
            ("no initialization", ["t.task_init_function = f", "t.task_init_function = None", "t.task_exec_function = g"], "(t.task_init_function, t.task_exec_function)", [F, E], "(None, g)"),
            ("deprecated names", ["t.solver_spawning_function = f", "t.solver_calling_function = g"], "(t.task_init_function, t.task_exec_function, t.solver_spawning_function, t.solver_calling_function)", [F, E], "(f, g, f, g)"),
            ("invalid initialization", ["t.task_init_function = q"], "t.task_init_function", ["raise ValueError()"], "0"),
            ("invalid execution", ["t.task_exec_function = q"], "t.task_exec_function", ["raise ValueError()"], "0"),
            ("missing execution", ["t.task_init_function = f"], "t.task_exec_function", [F, "raise ValueError()"], "0"),
            ("no function yet", [], "t.task_init_function", [], "None"),
            ("loss function", [], "t.loss_function", [], "L")]
    for nm, ls, r, g, v in rows:
        out.append((f"functions of the tasks: {nm}", "param_tuning.BaseParameterTuning.task_exec_function", W, fn(s, T, *ls, ret=r), imp + fn(s, G, *g, ret=v)))
    out.append(("invalid loss function", "param_tuning.LCurve.__init__", W, fn(s, f"t = {P}LCurve(q)", ret="t.loss_function"), fn(s, "raise ValueError()", ret="0")))
    for m, v in (("True", f"{P}MAX_THREADS"), ("False", "0"), ("3", "3"), ("", f"{P}MAX_THREADS")):
        a = f", parallel_eval={m}" if m else ""
        out.append((f"number of threads ({m or 'default'})", "param_tuning.BaseParameterTuning.__init__", "the number of threads is not the requested one", fn(s, f"t = {P}LCurve(L{a})", ret="t.parallel_eval"), imp + fn(s, G, ret=v)))
    return out


def loss_rows():
    out = []
    for hn, (hs, hx, vals, _) in HP.items():
        for init in (True, False):
            for kn, (ks, kx, _2) in KW.items():
                if not init and kn in ("init keywords", "both"):
                    continue
                s = "f: Callable, g: Callable, L: Callable, d: Arr[2], " + hs + ks
                mk = [f"t = {P}LCurve(L, parallel_eval=0)", "t.task_init_function = f" if init else "", "t.task_exec_function = g"]
                c = call(init, kn)
                it = "h" if vals is None else "[" + ", ".join(vals) + "]"
                nm = f"({hn}{', no initialization' if not init else ''}{', ' + kn if kn else ''})"
                a = ", ".join(y for y in (hx, kx) if y)
                W = "the loss values are not those of the reconstructions"
                out.append((f"L-curve {nm}", "param_tuning.LCurve.compute_loss_values", W, fn(s, *mk, ret=f"t.compute_loss_values({a})"), fn(s, *mk, ret=f"np.array([L({c('x')}[0]) for x in {it}], dtype=np.float32)")))
                for i, r in enumerate((f"np.array([L({c('x')}[0]) for x in {it}], dtype=np.float32)", f"[{c('x')}[0] for x in {it}]", f"[{c('x')}[1] for x in {it}]")):
                    out.append((f"L-curve and results {nm}: {i}", "param_tuning.LCurve.compute_loss_values", W, fn(s, *mk, ret=f"t.compute_loss_values({a}, return_all=True)[{i}]"), fn(s, *mk, ret=r)))
                W = "the errors are not the l1 norm and the squared l2 norm of the difference"
                n = "h.shape[0]" if vals is None else str(len(vals))
                b = ["e1, e2 = np.zeros((%s,), dtype=np.float32), np.zeros((%s,), dtype=np.float32)" % (n, n), f"for i, x in enumerate({it}):\n    r = np.abs(d - {c('x')}[0]).ravel()\n    e1[i] = np.linalg.norm(r, ord=1)\n    e2[i] = np.linalg.norm(r, ord=2) ** 2"]
                out.append((f"reconstruction errors {nm}", "param_tuning.BaseParameterTuning.compute_reconstruction_error", W, fn(s, *mk, ret=f"t.compute_reconstruction_error({hx}, d{', ' + kx if kx else ''})"), fn(s, *mk, *b, ret="(e1, e2)")))
    return out


def cv_rows():
    out = []
    W = "the masks are not the requested ones"
    RM = "m = np.zeros(({0}), dtype=np.float32)\nk = int(np.ceil(m.size * {1}))\np = np.random.permutation(m.size)\nm[np.unravel_index(p[:k], {0})] = 1"
    for nd, sh in ((1, "(n0,)"), (2, "(n0, n1)"), (3, "(n0, n1, n2)")):
        s = "n0: int, n1: int, n2: int, q: float, K: int, sd: int"
        for o, f in (("", "0.05"), (", q", "q"), (", test_fraction=q", "q")):
            out.append((f"random test mask ({nd}D{o})", "param_tuning.create_random_test_mask", "the mask does not have the requested number of random pixels", fn(s, ret=f"{P}create_random_test_mask({sh}{o})"), fn(s, RM.format(sh, f), ret="m")))
        for o, f in (("", "None"), (", seed=sd", "sd")):
            for kk in ("K", "3"):
                out.append((f"k-fold test masks ({nd}D, {kk}{o})", "param_tuning.create_k_fold_test_masks", "the masks are not a partition of the pixels", fn(s, ret=f"{P}create_k_fold_test_masks({sh}, {kk}{o})"),
                            fn(s, f"p = np.random.default_rng({f}).permutation(np.prod({sh}))", "M = []", f"for i in range({kk}):\n    m = np.zeros({sh}, dtype=np.float32)\n    m.ravel()[p[i::{kk}]] = 1\n    M.append(m)", ret="M")))
    s = "n0: int, n1: int, q: float"
    for a, f, k in (("", "0.1", 5), ("cv_fraction=q, num_averages=2", "q", 2), ("cv_fraction=q", "q", 5)):
        out.append((f"random cross-validation masks ({a})", "param_tuning.CrossValidation.__init__", W, fn(s, f"t = {P}CrossValidation((n0, n1){', ' + a if a else ''})", ret="t.data_cv_masks"), fn(s, ret=f"[{P}create_random_test_mask((n0, n1), {f}, np.float32) for _ in range({k})]")))
    for k in (2, 5):
        a = "cv_fraction=None" + (", num_averages=2" if k == 2 else "")
        out.append((f"k-fold cross-validation masks ({a})", "param_tuning.CrossValidation.__init__", W, fn(s, f"t = {P}CrossValidation((n0, n1), {a})", ret="t.data_cv_masks"), fn(s, ret=f"{P}create_k_fold_test_masks((n0, n1), {k})")))
    imp = "import inspect\n"
    W = "the losses are not the last relative residuals on the test pixels, or not with the masks of their rounds"
    for hn, (hs, hx, vals, _) in HP.items():
        for init in (True, False):
            for kn, (ks, kx, _2) in KW.items():
                if not init and kn in ("init keywords", "both"):
                    continue
                for mp in ("", "w_mask"):
                    if mp and (kn or not init):
                        continue
                    for kf in (False, True):
                        if kf and (kn or not init or mp):
                            continue
                        N = 3 if hn == "two values" else 2
                        par = mp or "b_test_mask"
                        s = "f: Callable, g: Callable, n0: int, n1: int, " + hs + ks
                        mk = [f"t = {P}CrossValidation((n0, n1), {'cv_fraction=None, ' if kf else ''}num_averages={N}, parallel_eval=0{f', mask_param_name={mp!r}' if mp else ''})", "t.task_init_function = f" if init else "", "t.task_exec_function = g"]
                        guard = f"if {par!r} not in inspect.signature(g).parameters.keys():\n    raise ValueError()"
                        c = call(init, kn)
                        # the mask is one more keyword of the execution
                        cm = lambda x, m: c(x)[:-1] + f", {par}={m})"
                        it = "h" if vals is None else "[" + ", ".join(vals) + "]"
                        a = ", ".join(y for y in (hx, kx) if y)
                        b = [f"I{j} = [{cm('x', f't.data_cv_masks[{j}]')}[1] for x in {it}]" for j in range(N)]
                        b += [f"F{j} = np.array([i.residuals_cv_rel[i.iterations - 1] for i in I{j}])" for j in range(N)] + ["F = [" + ", ".join(f"F{j}" for j in range(N)) + "]"]
                        nm = f"({hn}{', no initialization' if not init else ''}{', ' + kn if kn else ''}{', named mask' if mp else ''}{', k-fold' if kf else ''})"
                        for i, r in enumerate(("np.mean(F, axis=0)", "np.std(F, axis=0)", "F")):
                            out.append((f"cross-validation {nm}: {('averages', 'deviations', 'losses')[i]}", "param_tuning.CrossValidation.compute_loss_values", W, fn(s, *mk, ret=f"t.compute_loss_values({a})[{i}]"), imp + fn(s, *mk, guard, *b, ret=r)))
                        out.append((f"cross-validation and results {nm}", "param_tuning.CrossValidation.compute_loss_values", W, fn(s, *mk, f"q = t.compute_loss_values({a}, return_all=True)[2]", ret="[(z[0], z[1]) for z in q]"),
                                    imp + fn(s, *mk, guard, *b, *[f"R{j} = [{cm('x', f't.data_cv_masks[{j}]')}[0] for x in {it}]" for j in range(N)], ret="[" + ", ".join(f"(R{j}, I{j})" for j in range(N)) + "]")))
                        if not kn and init and not mp:
                            out.append((f"keywords after a cross-validation {nm}", "param_tuning.CrossValidation.compute_loss_values", "the keywords of the user are changed", fn(s + ", e: float", *mk, "k = {'u': e}", f"t.compute_loss_values({hx}, exec_fun_kwds=k)", ret="k"), imp + fn(s + ", e: float", *mk, guard, ret="{'u': e}")))
    return out


def fit_rows():
    out = []
    W = "the values are not equally spaced in logarithm within the interval"
    s = "a: float, b: float, k: int"
    for o, k in (("", "4"), (", k", "k"), (", num_per_order=k", "k")):
        ref = [f"q = 10 ** (1 / {k})", "s = 10 ** np.floor(np.log10(a))\ne = 10 ** np.ceil(np.log10(b))", f"n = np.ceil({k} * np.log10(e / s) - 1e-3)", "v = s * q ** np.arange(n + 1)", "v = v[np.logical_and(v >= a, v * (1 - 1e-3) <= b)]"]
        for nm, f in (("", "get_lambda_range"), (" (deprecated name)", "BaseParameterTuning.get_lambda_range")):
            out.append((f"hyper-parameter values{o}{nm}", f"param_tuning.{f}", W, fn(s, ret=f"{P}{f}(a, b{o})"), fn(s, *ref, ret="v")))
        out.append((f"hyper-parameter values{o}, aligned to the start", "param_tuning.get_lambda_range", W, fn(s, ret=f"{P}get_lambda_range(a, b{o}, aligned_order=False)"),
                    fn(s, f"n = np.ceil({k} * np.log10(b / a) - 1e-3)", ret=f"a * (10 ** (1 / {k})) ** np.arange(n + 1)")))
    W = "the minimum is not the vertex of the parabola around the smallest loss"
    imp = "from numpy.polynomial.polynomial import Polynomial\n"
    CHK = "if len(h) < 3 or len(v) < 3 or len(h) != len(v):\n    raise ValueError()"
    for sc in ("", "log", "Log", "linear", "other"):
        for meth in (False, True):
            for hp in ("h", "[x, y, z]"):
                s = "h: Arr[1], v: Arr[1], w: Arr[1], x: float, y: float, z: float"
                log = sc.lower() in ("", "log")
                b = ["h = np.array([x, y, z])" if hp != "h" else "", CHK, "p = np.argmin(v)",
                     "if p == 0:\n    i = [0, 1, 2]\nelif p == len(v) - 1:\n    i = [n % h.size for n in (-3, -2, -1)]\nelse:\n    i = [p - 1, p, p + 1]", f"q = {'np.log10(h[i])' if log else 'h[i]'}",
                     "c = Polynomial.fit(q, v[i], deg=2).convert().coef", "o = (h[p], v[p])", f"if len(c) >= 3 and c[2] > 0:\n    m = -c[1] / (2 * c[2])\n    r = {'10 ** m' if log else 'm'}\n    if r >= h[0] and r <= h[-1]:\n        o = (r, c[0] + m * c[1] / 2)"]
                if sc == "other":
                    b = b[:2] + ["raise ValueError()"]
                a = [hp, "v"] + ([f"scale={sc!r}"] if sc else [])
                call_ = f"{P}fit_func_min({', '.join(a)})" if not meth else f"t.fit_loss_min({', '.join(a[:2] + ['w'] + a[2:])})"
                out.append((f"minimum of the losses ({sc or 'default'}, {hp}{', method' if meth else ''})", "param_tuning.CrossValidation.fit_loss_min" if meth else "param_tuning.fit_func_min", W, fn(s, f"t = {P}CrossValidation((4, 4), parallel_eval=0)" if meth else "", ret=call_), imp + fn(s, *b, ret="0" if sc == "other" else "o")))
    s = "a: float, b: float, c: float, d: float, e: float, x: float"
    W = "the times are not the sums over the tasks"
    B = f"p = {P}PerfMeterBatch(a, b, c)\nt = {P}PerfMeterTask(d, e, x)"
    out.append(("performance of one more task", "param_tuning.PerfMeterBatch.append", W, fn(s, B, "p.append(t)", ret="(p.init_time_s, p.proc_time_s, p.total_time_s, [(q.init_time_s, q.exec_time_s, q.total_time_s) for q in p.tasks_perf])"), fn(s, ret="(a, b + x, c + x, [(d, e, x)])")))
    out.append(("performance of two batches", "param_tuning.PerfMeterBatch.__add__", W, fn(s, B, f"q = {P}PerfMeterBatch(x, d, e, [t])", "r = p + q", ret="(r.init_time_s, r.proc_time_s, r.total_time_s, [z.total_time_s for z in r.tasks_perf], [z.total_time_s for z in p.tasks_perf], [z.total_time_s for z in q.tasks_perf])"), fn(s, ret="(a + x, b + d, c + e, [x], [], [x])")))
    out.append(("performance of new batches", "param_tuning.PerfMeterBatch", "the tasks of a batch are shared with another one", fn(s, f"p = {P}PerfMeterBatch()\nq = {P}PerfMeterBatch()\nt = {P}PerfMeterTask(d, e, x)", "p.append(t)", ret="(len(p.tasks_perf), len(q.tasks_perf), q.total_time_s)"), fn(s, ret="(1, 0, 0.0)")))
    F = f"F = {P}format_time"
    HEAD = "'Performance Statistics:\\n- Initialization time: ' + F(a) + '\\n- Processing time: ' + F(b) + '\\n- Total time: ' + F(c)"
    out.append(("report of an empty batch", "param_tuning.PerfMeterBatch.__str__", W, fn(s, ret=f"str({P}PerfMeterBatch(a, b, c))"), fn(s, F, ret=HEAD + " + '\\n'")))
    out.append(("report of a batch", "param_tuning.PerfMeterBatch.__str__", W, fn(s + ", u: float", f"t = [{P}PerfMeterTask(d, e, x), {P}PerfMeterTask(x, u, e)]", ret=f"str({P}PerfMeterBatch(a, b, c, t))"),
                fn(s + ", u: float", F, "r = f' (Tasks/Total ratio: {(x + e) / b:.2f})' if b > 0 else ''",
                   ret=HEAD + " + r + '\\n\\nAverage Task Performance:\\n- Initialization time: ' + F((d + x) / 2) + '\\n- Execution time: ' + F((e + u) / 2) + '\\n- Total time: ' + F((x + e) / 2) + '\\n'")))
    out.append(("formatted time", "param_tuning.format_time", "the time is not the given number of seconds", fn("s: float", ret=f"{P}format_time(s)"), fn("s: float", "h, m, q = int(s // 3600), int((s % 3600) // 60), s % 60", ret="f'{h:02d}:{m:02d}:{int(q):02d}.{int((q - int(q)) * 1000):03d}'")))
    return out


def denoise_rows():
    out = []
    W = "the image is not the solution of the documented least-squares problem"
    s = "i: Arr[2], w: float, x: float, y: float, z: float, p: Arr[2], q: Arr[2], r: Callable, n: int, l: float"
    D = "corrct.denoisers."
    imp = "import scipy.signal as spsig\n"
    for psf in (False, True):
        for wt in (False, True):
            for o in ("", "iterations=n, lower_limit=l", "regularizer=r"):
                for many in (False, True):
                    a = ["i", "[x, y, z]" if many else "w"] + (["psf=p"] if psf else []) + (["pix_weights=q"] if wt else []) + ([o] if o else []) + ["verbose=False"]
                    reg = "r(W)" if "regularizer" in o else "corrct.regularizers.Regularizer_l1dwl(W, 'bior4.4', 3)"
                    b = ["A = corrct.operators.TransformConvolution(i.shape, p)" if psf else "A = corrct.operators.TransformIdentity(i.shape)", f"d = corrct.data_terms.DataFidelity_{'wl2(q)' if wt else 'l2()'}",
                         f"def mk(W):\n    return corrct.solvers.PDHG(verbose=False, data_term=d, regularizer={reg}, data_term_test=d, leave_progress=False)",
                         f"def ex(s, b_test_mask=None):\n    x0 = i.copy()\n    if b_test_mask is not None:\n        x0[b_test_mask > 0.5] = spsig.medfilt2d(i, kernel_size=11)[b_test_mask > 0.5]\n    return s(A, i, {'n' if 'iter' in o else '250'}, x0=x0, lower_limit={'l' if 'limit' in o else 'None'}, b_test_mask=b_test_mask)"]
                    if many:
                        b += ["h = np.array([x, y, z])", f"t = {P}CrossValidation(i.shape, verbose=False, num_averages=3, plot_result=False)", "t.task_init_function = mk\nt.task_exec_function = ex", "v, _, _ = t.compute_loss_values(h)", "W, _ = t.fit_loss_min(h, v)"]
                    else:
                        b += ["W = np.array(w)"]
                    out.append((f"denoised image{', PSF' if psf else ''}{', weights' if wt else ''}{', ' + o if o else ''}{', several weights' if many else ''}", "denoisers.denoise_image", W, fn(s, ret=f"{D}denoise_image({', '.join(a)})"),
                                imp + fn(s, *b, ret="(ex(mk(W))[0], float(W))" if many else "ex(mk(W))[0]"), dict(opaque=REC + (("param_tuning.fit_func_min", "param_tuning.create_random_test_mask") if many else ()), rejects=not many)))
    return out


def rows():
    return sweep_rows() + setter_rows() + loss_rows() + cv_rows() + fit_rows() + denoise_rows()


def run(chk, prog):
    for rule, desc, rr in (("sweeps", "results of a sweep, for every mode of evaluation and order of completion of the tasks", sweep_rows()), ("tasks", "functions of the tasks are validated and stored", setter_rows()),
                           ("losses", "L-curve values and reconstruction errors", loss_rows()), ("cross-validation", "masks and losses of the cross-validation", cv_rows()),
                           ("minimum", "values, fitted minima and performance statistics", fit_rows()), ("denoising", "denoised images", denoise_rows())):
        chk.rule(rule, desc)
        chk.need(rule, table(chk, prog, rule, rr))
