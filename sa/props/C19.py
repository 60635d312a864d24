"""C19: random numbers are drawn by the documented random operations only, seeds decide them, and results do not depend on the clock."""
import ast
from ..effects import analyse_all, is_public, dispatch_names
from ..model import funcqual
from ..refcmp import Canon
from ..spec import side
from ..terms import T, subterms, subst, const, FALSE, NONE

# the operations which are documented to be random
RANDOM = {
    "param_tuning.create_random_test_mask": "held-out pixels",
    "param_tuning.create_k_fold_test_masks": "folds of the cross-validation",
    "testing.add_noise": "simulated noise",
    "struct_illum.MaskGenerator.get_random_shifts": "random mask shifts",
    "struct_illum.MaskGeneratorBernoulli.generate_shifted_mask": "random masks",
    "struct_illum.MaskGeneratorHalfGaussian.generate_shifted_mask": "random masks",
    "solvers.SART.__call__": "order of the rows",
    "solvers.power_method": "starting point of the norm estimation",
}
GLOBAL = ("seed", "set_state", "set_bit_generator")
A = "A: corrct.operators.BaseTransform, b: np.ndarray"
S = "corrct.solvers."
M = "corrct.struct_illum.MaskGenerator"
# calls that are the same at every repetition, in the given configuration
FIXED = [
    ("SIRT", "solvers.SIRT.__call__", f"def f({A}):\n    return {S}SIRT(verbose=False)(A, b, 5)"),
    ("SIRT, limits, masks and a regularizer", "solvers.SIRT.__call__",
     f"def f({A}, x0: np.ndarray, m: np.ndarray, w: float):\n    return {S}SIRT(verbose=False, regularizer=corrct.regularizers.Regularizer_TV2D(w))(A, b, 5, x0=x0, lower_limit=0, x_mask=m, b_mask=m)"),
    ("MLEM", "solvers.MLEM.__call__", f"def f({A}):\n    return {S}MLEM(verbose=False)(A, b, 5)"),
    ("MLEM, data mask", "solvers.MLEM.__call__", f"def f({A}, m: np.ndarray):\n    return {S}MLEM(verbose=False, tolerance=0.1)(A, b, 5, b_mask=m)"),
    ("PDHG, diagonal preconditioning", "solvers.PDHG.__call__", f"def f({A}, w: float):\n    return {S}PDHG(verbose=False, regularizer=corrct.regularizers.Regularizer_TV2D(w))(A, b, 5)"),
    ("PDHG, Kullback-Leibler term", "solvers.PDHG.__call__", f"def f({A}):\n    return {S}PDHG(verbose=False, data_term='kl')(A, b, 5, lower_limit=0)"),
    ("PDHG, Huber term", "solvers.PDHG.__call__", f"def f({A}, d: float):\n    return {S}PDHG(verbose=False, data_term=corrct.data_terms.DataFidelity_Huber(d))(A, b, 5)"),
    ("FISTA, diagonal preconditioning", "solvers.FISTA.__call__", f"def f({A}, w: float):\n    return {S}FISTA(verbose=False, regularizer=corrct.regularizers.Regularizer_l1(w))(A, b, 5)"),
    ("FBP", "solvers.FBP.__call__", f"def f({A}):\n    return {S}FBP(verbose=False)(A, b)"),
    ("no noise asked for", "testing.add_noise", "def f(img: np.ndarray, n: float):\n    return corrct.testing.add_noise(img, n, add_poisson=False)"),
    ("sequential shifts", "struct_illum.MaskGenerator.get_sequential_shifts", f"def f(n: int):\n    return {M}Point(n).get_sequential_shifts(4)"),
    ("shifts at an interval", "struct_illum.MaskGenerator.get_interval_shifts", f"def f(n: int):\n    return {M}Point(n).get_interval_shifts(2)"),
    ("point masks", "struct_illum.MaskGeneratorPoint.generate_shifted_mask", f"def f(n: int, i: int, j: int):\n    return {M}Point(n).generate_shifted_mask([i, j])"),
    ("MURA masks", "struct_illum.MaskGeneratorMURA.generate_shifted_mask", f"def f(n: int, i: int, j: int):\n    return {M}MURA(n).generate_shifted_mask([i, j])"),
    ("sequential collection of masks", "struct_illum.MaskGenerator.generate_collection", f"def f(n: int):\n    return {M}Point(n).generate_collection(0.5, 'sequential')"),
    ("collection of masks at an interval", "struct_illum.MaskGenerator.generate_collection", f"def f(n: int):\n    return {M}MURA(n).generate_collection(0.5, 'interval')"),
    ("range of regularization weights", "param_tuning.get_lambda_range", "def f(a: float, b: float):\n    return corrct.param_tuning.get_lambda_range(a, b)"),
]


def callers(prog):
    """name -> functions of the package which refer to it."""
    out = {}
    for m, c, f in prog.all_functions():
        for x in ast.walk(f):
            n = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
            if n is not None:
                out.setdefault(n, set()).add(funcqual(m, c, f))
    return out


def helper_of(users, q, f):
    """Referred to by the random operations only: a part of them."""
    us = users.get(f.name, set()) - {q}
    return bool(us) and us <= set(RANDOM)


def reachable(it, roots):
    c, seen, todo = Canon(it), set(), list(roots)
    while todo:
        x = todo.pop()
        if x.uid in seen or x.op in ("inst", "app") and str(x.args[0] if x.op == "inst" else "").split(".")[-1].startswith("PerfMeter"):
            continue
        seen.add(x.uid)
        yield x
        if x.op == "mu" and x.args[0] in c.loops:
            todo += [y for y in (c.loops[x.args[0]].mus.get(x.args[1]) or ()) if isinstance(y, T)]
        todo += [y for y in x.args if isinstance(y, T)]


def run(chk, prog):
    chk.rule("draws", "every random draw which a public function or method can reach is made inside one of the documented random operations")
    chk.rule("global-state", "nothing sets the state of the random generator that all programs share")
    chk.rule("seeded", "a function with a seed (or generator) draws only from the generator which that seed decides, whatever the seed is")
    chk.rule("fixed", "no random number is drawn in the configurations that have no random part")
    chk.rule("clock", "no returned value depends on the clock, other than the measured times")
    users, disp, seeds, calls, n, nr, nc = callers(prog), dispatch_names(prog), 0, 0, 0, 0, 0
    seen = set()
    for m, c, f, it, v, st in analyse_all(prog):
        q = funcqual(m, c, f)
        chk.units |= it.analysed
        n += 1
        ps = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
        sd = ps & {"seed", "rng", "random_state"}
        for e in it.events:
            if e.kind != "random":
                continue
            nr += 1
            fn = e.data["func"]
            if fn.split(".")[-1] in GLOBAL and not fn.startswith("."):
                chk.finding("global-state", f"{e.site[2]}: {fn}", e.site, f"{fn} changes the random state of the whole program (path {' -> '.join(e.stack)})")
                continue
            if sd:
                seeds += 1
                seen.add(q)
                ts = [x for a in [e.data.get("recv")] + list(e.data["args"]) if a is not None for x in subterms(a if isinstance(a, T) else it.read(st, a))]
                zero = lambda x: const(0) if x.op == "sym" and x.args[0] in sd else FALSE if x.op == "truth" and x.args[0].op == "sym" and x.args[0].args[0] in sd else None
                if e.data.get("recv") is None and any(subst(a, zero) is NONE for a in (it.read(st, y) if not isinstance(y, T) else y for y in e.data["args"]) if any(x.op == "sym" and x.args[0] in sd for x in subterms(a))):
                    chk.finding("seeded", f"{q}: {fn}, seed 0", e.site, f"{fn} ignores the {', '.join(sorted(sd))} 0")
                elif not any(x.op == "sym" and x.args[0] in sd for x in ts):
                    chk.finding("seeded", f"{q}: {fn}", e.site, f"{fn} does not depend on {', '.join(sorted(sd))}: the results differ between calls with the same one")
            if (is_public(f.name) or f.name in disp) and not any(s in RANDOM for s in e.stack) and q not in RANDOM and not helper_of(users, q, f):
                chk.finding("draws", f"{q}: {fn} in {e.site[2]}", e.site, f"draws random numbers with {fn}, in an operation that is not documented as random (path {' -> '.join(e.stack)})")
        if v is not None and is_public(f.name):
            nc += 1
            for x in reachable(it, [deep(it, st, v)]):
                if x.op == "app" and x.args[0] == "clock":
                    chk.finding("clock", q, (m.path, f.lineno, q), "what it returns depends on the clock")
                    break
    chk.ok("draws", n=n)
    chk.ok("clock", n=nc)
    chk.ok("seeded", n=seeds)
    for m in prog.modules.values():
        calls += 1
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in GLOBAL:
                d = ast.unparse(x.func)
                if d.split(".")[0] in ("np", "numpy", "random"):
                    chk.finding("global-state", f"{m.name}: {d}", (m.path, x.lineno, m.name), f"{d} changes the random state of the whole program")
    chk.ok("global-state", n=calls)
    k = 0
    for name, site, src in FIXED:
        k += 1
        r = prog.find_func(site)
        loc = (r[0].path, r[2].lineno, site) if r else (site, 0, site)
        try:
            a = side(prog, src, "driver")
        except Exception as e:
            chk.undecide("fixed", name, f"not analysable ({type(e).__name__}: {str(e)[:80]})")
            continue
        chk.units |= {u for u in a.it.analysed if not u.startswith("driver")}
        # not the fall-back for operators that do not offer their absolute values
        rnd = [e for e in a.it.events if e.kind == "random" and not any(x.op == "sym" and str(x.args[0]).startswith("exc:") for c, val in e.pc for x in subterms(c))]
        if a.v is None:
            chk.undecide("fixed", name, "the call does not return")
        elif rnd:
            chk.finding("fixed", f"{name}: {rnd[0].data['func']}", rnd[0].site, f"{name}: {rnd[0].data['func']} is drawn on the path {' -> '.join(rnd[0].stack[1:])}, although nothing random was asked for")
        else:
            chk.ok("fixed", name)
    chk.need("fixed", k)
    for r, w in (("draws", 400), ("clock", 300), ("seeded", 1)):
        chk.need(r, w)
    for q in RANDOM:
        if prog.find_func(q) is None:
            chk.gone.append(q)


def deep(it, st, v):
    from ..interp import Tup
    from ..terms import mk
    if isinstance(v, Tup):
        return mk("tuple", *[deep(it, st, x) for x in v.items])
    return it.read(st, v)
