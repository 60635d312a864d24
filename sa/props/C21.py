"""C21: detector data preparation: flat field, logarithm, variances of counted intensities, and the weights made from them."""
from ..spec import table
from ..solverspec import fn

N, P = "corrct.processing.noise.", "corrct.processing.pre."
EPS = "np.finfo(np.float32).eps"


def noise_rows():
    out = []
    V = "s: np.ndarray, i: np.ndarray, v: np.ndarray"
    q = f"e = {EPS}\nS = np.maximum(s, e)\nI = np.maximum(i, e)"
    for fun, expo in (("compute_variance_poisson", 2), ("compute_variance_transmission", 1)):
        for own in (True, False):
            for norm in (None, True, False):
                vi = "v" if own else "np.abs(i)"
                call = f"corrct.processing.noise.{fun}(s, i{', v' if own else ''}{'' if norm is None else f', normalized={norm}'})"
                r = f"(S / I) ** {expo} * (np.abs(s) / S ** 2 + {vi} / I ** 2)" + (" * np.mean(I)" if norm is not False else "")
                out.append((f"{fun}, {'given' if own else 'counting'} variance of the reference, normalized={norm}", "processing.noise." + fun,
                            "the variance is not the propagated counting variance of the signal and of its reference", fn(V, ret=call), fn(V, q, ret=r)))
    out.append(("compute_variance_poisson without reference", "processing.noise.compute_variance_poisson", "the variance of counts is not the counts", fn(V, ret="corrct.processing.noise.compute_variance_poisson(s)"), fn(V, ret="np.abs(s)")))
    W = "the weights are not the reciprocal of the floored variance"
    for mask in (False, True):
        for norm in (False, True):
            for std in (False, True):
                for log in (False, True):
                    call = f"corrct.processing.noise.compute_variance_weight(s{', mask=m' if mask else ''}{', normalized=True' if norm else ''}{', use_std=True' if std else ''}{', semilog=True' if log else ''}{', percentile=p' if std else ''})"
                    r = [f"a = np.abs(s)", "z = a.flatten()" + ("[m.flatten()]" if mask else ""), "o = np.sort(z)", f"k = np.sum(np.cumsum(o) / np.sum(o) < {'p' if std else 0.001})",
                         f"f = np.maximum(np.min(z[z > 0]), np.maximum(o[np.minimum(np.maximum(0, k), (np.cumsum(o) / np.sum(o)).size)], {EPS}))", "a = np.maximum(a, f)"]
                    if norm:
                        r.append("a = a / f")
                    if std:
                        r.append("a = np.sqrt(a)")
                    if log:
                        r.append(f"a = np.log(a{'' if norm else ' + 1.0'}) + 1")
                    out.append((f"weights{', mask' if mask else ''}{', normalized' if norm else ''}{', standard deviation, given percentile' if std else ''}{', semilog' if log else ''}", "processing.noise.compute_variance_weight", W,
                                fn("s: np.ndarray, m: np.ndarray, p: float", ret=call), fn("s: np.ndarray, m: np.ndarray, p: float", *r, ret="1 / a" + (" * m" if mask else ""))))
    return out


def flat_rows():
    out = []
    for nd in (2, 3):
        for dark in (None, 2):
            for crop in (False, True):
                for cap in (False, True):
                    D = f"p: Arr[3], f: Arr[{nd}], d: Arr[2], c0: int, c1: int, c2: int, c3: int, z: float"
                    a = "".join((", d" if dark else "", ", crop=[c0, c1, c2, c3]" if crop else "", ", cap_intensity=z" if cap else ""))
                    cr = "[..., c0:c2, c1:c3]" if crop else ""
                    s = f" - d{cr}" if dark else ""
                    m = f"F = f{cr}{s}" + ("\nF = F.mean(axis=0)" if nd == 3 else "")
                    r = f"(p{cr}{s}) / F"
                    out.append((f"flat field, {nd}D flats{', darks' if dark else ''}{', cropped' if crop else ''}{', capped' if cap else ''}", "processing.pre.apply_flat_field", "the projections are not (projection - dark) / mean(flat - dark)",
                                fn(D, ret=f"corrct.processing.pre.apply_flat_field(p, f{a})"), fn(D, m, ret=f"np.minimum({r}, z)" if cap else r)))
    L = "p: np.ndarray, z: float"
    out.append(("logarithm", "processing.pre.apply_minus_log", "the linearised projections are not the negative logarithm of the transmission", fn(L, ret="corrct.processing.pre.apply_minus_log(p)"), fn(L, ret="np.maximum(-np.log(p), -np.inf)")))
    out.append(("logarithm, limited", "processing.pre.apply_minus_log", "the linearised projections are not limited from below", fn(L, ret="corrct.processing.pre.apply_minus_log(p, z)"), fn(L, ret="np.maximum(-np.log(p), z)")))
    return out


def run(chk, prog):
    chk.rule("counting-variance", "variance formulas of counted intensities by error propagation, and weights as reciprocals of the floored variance, for every combination of options")
    chk.need("counting-variance", table(chk, prog, "counting-variance", noise_rows()))
    chk.rule("flat-field", "(projection - dark) / mean over the flats of (flat - dark), all cropped alike, capped if requested; negative logarithm with lower limit")
    chk.need("flat-field", table(chk, prog, "flat-field", flat_rows()))
