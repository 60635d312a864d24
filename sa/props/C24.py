"""C24: the material, fluorescence and phase-contrast formulas."""
from ..spec import table
from ..solverspec import fn

VM = "corrct.physics.materials.VolumeMaterial"
SITE = "physics.materials.VolumeMaterial."
XH = "corrct.physics.xraylib_helper."
XR = "corrct.physics.xrf."
X = dict(opaque=("physics.xraylib_helper.get_compound_cross_section", "physics.xraylib_helper.get_compound"))
P = "p0: np.ndarray, p1: np.ndarray, c0: dict, c1: dict, vx: float, nrg: float, ang: float, s: float, z: float"
NB = "if p0.dtype == bool or p1.dtype == bool or len(p0.shape) != len(p1.shape) or not np.all(np.array(p0.shape) == p1.shape):\n    raise ValueError()"
MK = f"o = {VM}([p0, p1], [c0, c1], vx)"
MIX = "q0 = p0.astype(p0.dtype)\nq1 = p1.astype(p0.dtype)\nt = np.zeros(np.array(p0.shape), p0.dtype)"
DET = f"d = {XR}DetectorXRF(s, z, ang)"

LINES = ("KA1 KA2 KA3 KB1 KB2 KB3 KB4 KB5 LA1 LA2 LB1 LB2 LB3 LB4 LB5 LB6 LB7 LB9 LB10 LB15 LB17 LG1 LG2 LG3 LG4 LG5 LG6 LG8 LE LH LL LS LT LU LV MA1 MA2 MB MG").split()
FAMILIES = {p: [x for x in LINES if x.startswith(p.upper())] for p in ("K", "KA", "Kb", "KA1", "L", "la", "LB", "LG", "LB1", "M", "MA")}


def vol(call, *ref, ret, extra="", args=P, pre="", refpre="", **opt):
    return fn(args, NB, pre, MK, extra, ret=call), "import xraylib\nimport scipy.constants\n" + fn(args, NB, refpre, MIX, *ref, ret=ret), dict(X, **opt)


def rows():
    out = []
    def add(name, site, what, d, r, o=X):
        out.append((name, site, what, d, r, o))
    CS = XH + "get_compound_cross_section"
    add("attenuation of two materials", SITE + "get_attenuation", "the attenuation is not voxel size * sum fraction * density * cross-section",
        *vol("o.get_attenuation(nrg)", f"t += q0 * c0['density'] * {CS}(c0, nrg)", f"t += q1 * c1['density'] * {CS}(c1, nrg)", ret="t * vx"))
    add("attenuation, materials by name", SITE + "get_attenuation", "the named compound is not looked up",
        *(fn("p0: np.ndarray, n0: str, vx: float, nrg: float", "if p0.dtype == bool or not np.all(np.array(p0.shape) == p0.shape):\n    raise ValueError()", f"o = {VM}([p0], [n0], vx)", ret="o.get_attenuation(nrg)"),
          fn("p0: np.ndarray, n0: str, vx: float, nrg: float", "if p0.dtype == bool or not np.all(np.array(p0.shape) == p0.shape):\n    raise ValueError()", f"c = {XH}get_compound(n0)", "t = np.zeros(np.array(p0.shape), p0.dtype)", f"t += p0.astype(p0.dtype) * c['density'] * {CS}(c, nrg)", ret="t * vx")))
    K = "scipy.constants.physical_constants['electron volt-inverse meter relationship'][0]"
    add("phase shift of two materials", SITE + "get_phase_shift", "the phase shift is not -2 pi / lambda * voxel size * sum fraction * delta",
        *vol("o.get_phase_shift(nrg)", "t += q0 * (1 - xraylib.Refractive_Index_Re(c0['name'], nrg, c0['density']))", "t += q1 * (1 - xraylib.Refractive_Index_Re(c1['name'], nrg, c1['density']))",
             ret=f"-t * vx * 2 * np.pi / (0.1 / ({K} * nrg))"))
    for el, num, ty in (("z", "z", "z: int"), ("n", "xraylib.SymbolToAtomicNumber(n)", "n: str")):
        A = P.replace("z: float", ty)
        body = [f"e = {num}"] + [f"if e in c{k}['Elements']:\n    t = t + q{k} * c{k}['density'] * c{k}['massFractions'][np.where(np.array(c{k}['Elements']) == e)[0][0]]" for k in (0, 1)]
        add(f"mass fraction of an element given by {'number' if el == 'z' else 'symbol'}", SITE + "get_element_mass_fraction", "the mass fraction is not the sum of fraction * density * mass fraction over the materials holding the element",
            *vol(f"o.get_element_mass_fraction({el})", *body, ret="t", args=A))
        B = A.replace("p0: np.ndarray, p1: np.ndarray", "p0: Arr[3], p1: Arr[3]")
        nb = "if p0.dtype != bool or p1.dtype == bool or not np.all(np.array(p0.shape) == p1.shape):\n    raise ValueError()"
        d, r, o = vol(f"o.get_element_mass_fraction({el})", *body, ret="t", args=B)
        add(f"mass fraction with a mask as fractions, element by {'number' if el == 'z' else 'symbol'}", SITE + "get_element_mass_fraction", "boolean fractions are not taken as 0 or 1", d.replace(NB.replace("\n", "\n    "), nb.replace("\n", "\n    ")),
            r.replace(NB.replace("\n", "\n    "), nb.replace("\n", "\n    ")).replace("q0 = p0.astype(p0.dtype)", "g0 = p0.astype(np.float32)\n    q0 = g0.astype(g0.dtype)").replace("p1.astype(p0.dtype)", "p1.astype(g0.dtype)").replace("np.zeros(np.array(p0.shape), p0.dtype)", "np.zeros(np.array(p0.shape), g0.dtype)"), o)
        for lines, nm in (("l0", "one line"), ("[l0, l1]", "two lines")):
            for det in (False, True):
                A2 = (A if el == "n" else P.replace("z: float", "z: float, y: int")).replace("n: str", "n: str, z: float") + f", l0: {XR}FluoLine, l1: {XR}FluoLine"
                e2 = "n" if el == "n" else "y"
                ls = ["l0"] if nm == "one line" else ["l0", "l1"]
                b2 = [x.replace("e = z", "e = y") for x in body]
                for j, l in enumerate(ls):
                    b2.append(f"try:\n    y{j} = xraylib.CS_FluorLine_Kissel(e, {l}.indx, nrg)\nexcept ValueError as exc:\n    y{j} = 0")
                b2.append(f"y = np.empty(({len(ls)},), p0.dtype)\n" + "\n".join(f"y[{j}] = y{j}" for j in range(len(ls))))
                b2.append(f"t = t * np.sum(y) * vx" + (" * (s / (4 * np.pi * z**2))" if det else ""))
                add(f"fluorescence production, {nm}, element by {'number' if el == 'z' else 'symbol'}{', detector' if det else ''}", SITE + "get_fluo_production", "the production is not mass fraction * total yield of the lines * voxel size (* solid angle)",
                    *vol(f"o.get_fluo_production({e2}, nrg, {lines}{', detector=d' if det else ''})[1]", *b2, ret="t", args=A2, pre=DET if det else "", refpre=DET if det else ""))
                add(f"fluorescence energy, {nm}, element by {'number' if el == 'z' else 'symbol'}{', detector' if det else ''}", SITE + "get_fluo_production", "the emitted energy is not the rate-weighted mean of the line energies",
                    *vol(f"o.get_fluo_production({e2}, nrg, {lines}{', detector=d' if det else ''})[0]", ret=f"float({XR}get_energy({e2 if el == 'z' else 'xraylib.SymbolToAtomicNumber(n)'}, [{', '.join(ls)}], compute_average=True))", args=A2, pre=DET if det else "", refpre=DET if det else ""))
    cs = lambda k: f"try:\n    k{k} = xraylib.DCS_Compt_CP(c{k}['name'], nrg, ang)\nexcept ValueError:\n    k{k} = np.sum([xraylib.DCS_Compt(el, nrg, ang) * c{k}['massFractions'][ii] for ii, el in enumerate(c{k}['Elements'])], axis=0)"
    for det in (False, True):
        for i, (ret, what) in enumerate((("xraylib.ComptonEnergy(nrg, ang)", "the energy is not that of photons scattered by the detector angle"), ("t", "the production is not voxel size * sum fraction * density * differential cross-section (* solid angle)"))):
            add(f"Compton {('energy', 'production')[i]}{', detector' if det else ''}", SITE + "get_compton_scattering", what,
                *vol(f"o.get_compton_scattering(nrg, {'detector=d' if det else 'ang'})[{i}]", cs(0), cs(1), "t = t + q0 * c0['density'] * k0 + q1 * c1['density'] * k1", "t = t * vx" + (" * (s / (4 * np.pi * z**2))" if det else ""), ret=ret, pre=DET if det else "", refpre=DET if det else ""))
    # lines
    L = f"l0: {XR}FluoLine, l1: {XR}FluoLine"
    def line(k, f):
        return f"try:\n    v{k} = xraylib.{f}(e, l{k}.indx)\nexcept ValueError as exc:\n    v{k} = 0"
    arr = "a = np.empty(2, dtype=np.float32)\na[0] = v0\na[1] = v1"
    rat = "b = np.empty(2, dtype=np.float32)\nb[0] = w0\nb[1] = w1"
    for el, num in (("e: int", "e"), ("n: str", "xraylib.SymbolToAtomicNumber(n)")):
        a0 = el.split(":")[0]
        pre = "" if a0 == "e" else f"e = {num}"
        imp = "import xraylib\n"
        nm = "number" if a0 == "e" else "symbol"
        add(f"radiation rates, element by {nm}", "physics.xrf.get_radiation_rate", "the rate of line k is not at position k", fn(f"{el}, {L}", ret=f"{XR}get_radiation_rate({a0}, [l0, l1])"), imp + fn(f"{el}, {L}", pre, line(0, "RadRate"), line(1, "RadRate"), arr, ret="a"))
        add(f"line energies, element by {nm}", "physics.xrf.get_energy", "the energy of line k is not at position k", fn(f"{el}, {L}", ret=f"{XR}get_energy({a0}, [l0, l1])"), imp + fn(f"{el}, {L}", pre, line(0, "LineEnergy"), line(1, "LineEnergy"), arr, ret="a"))
        add(f"mean energy, element by {nm}", "physics.xrf.get_energy", "the mean energy is not weighted by the radiation rates", fn(f"{el}, {L}", ret=f"{XR}get_energy({a0}, [l0, l1], compute_average=True)"),
            imp + fn(f"{el}, {L}", pre, line(0, "LineEnergy"), line(1, "LineEnergy"), arr, line(0, "RadRate").replace("v0", "w0"), line(1, "RadRate").replace("v1", "w1"), rat, ret="float(np.sum(a * b / np.sum(b)))"))
    # detector and compound
    add("solid angle", "physics.xrf.DetectorXRF", "the solid angle is not surface / (4 pi distance^2)", fn("s: float, z: float, a: float", f"d = {XR}DetectorXRF(s, z, a)", ret="d.solid_angle_sr"), fn("s: float, z: float, a: float", "if s < 0 or z <= 0:\n    raise ValueError()", ret="s / (4 * np.pi * z**2)"))
    for i, sg in ((0, "-"), (1, "")):
        add(f"angular range {i}", "physics.xrf.DetectorXRF", "the range is not that of the half edge seen from the sample", fn("s: float, z: float, a: float", f"d = {XR}DetectorXRF(s, z, a)", ret=f"d.angle_range_rad[{i}]"), fn("s: float, z: float, a: float", "if s < 0 or z <= 0:\n    raise ValueError()", ret=f"{sg}np.arctan2(np.sqrt(s) / 2, z)"))
    add("compound cross-section", "physics.xraylib_helper.get_compound_cross_section", "the cross-section is not the compound's, or the mass-weighted sum of its elements", fn("c: dict, nrg: float", ret=f"{XH}get_compound_cross_section(c, nrg)"),
        "import xraylib\n" + fn("c: dict, nrg: float", "try:\n    return xraylib.CS_Total_CP(c['name'], nrg)\nexcept ValueError:\n    return np.sum([xraylib.CS_Total(el, nrg) * c['massFractions'][i] for i, el in enumerate(c['Elements'])], axis=0)"), {})
    cmp = "try:\n    c = xraylib.GetCompoundDataNISTByName(n)\nexcept ValueError:\n    c = xraylib.CompoundParser(n)"
    add("compound density, computed and given", "physics.xraylib_helper.get_compound", "the density is not the given one, or else the mass-weighted one of the elements", fn("n: str, rho: float", ret=f"[{XH}get_compound(n)['density'], {XH}get_compound(n, rho)['density']]"),
        "import xraylib\n" + fn("n: str, rho: float", cmp, "r = 0\nfor ii, el in enumerate(c['Elements']):\n    r += xraylib.ElementDensity(el) * c['massFractions'][ii]", ret="[r, rho]"), {})
    add("compound name and elements", "physics.xraylib_helper.get_compound", "the compound does not carry the requested name and its elements", fn("n: str, rho: float", f"c = {XH}get_compound(n, rho)", ret="[c['name'], c['Elements'], c['massFractions']]"), "import xraylib\n" + fn("n: str, rho: float", cmp, ret="[n, c['Elements'], c['massFractions']]"), {})
    for fam, names in FAMILIES.items():
        add(f"lines of '{fam}'", "physics.xrf.LinesSiegbahn.get_lines", "the family holds other lines, or a line has another line's index", fn("", ret=f"[(l.name, l.indx) for l in {XR}LinesSiegbahn.get_lines('{fam}')]"), "import xraylib\n" + fn("", ret="[" + ", ".join(f"('{x}', xraylib.{x}_LINE)" for x in names) + "]"), {})
    # phase contrast
    PF = "corrct.physics.phase."
    for f, e in (("tie", "1 + db * np.pi * wl * z * k2"), ("ctf", "np.cos(np.pi * wl * z * k2) + db * np.sin(np.pi * wl * z * k2)")):
        for rf in (False, True):
            A = "sh: np.ndarray, px: float, z: float, wl: float, db: float"
            cc = "[np.fft.fftfreq(s, d=px) for s in sh[:-1]] + [np.fft.rfftfreq(sh[-1], d=px)]" if rf else "[np.fft.fftfreq(s, d=px) for s in sh]"
            ref = [f"k2 = np.sum(np.stack(np.meshgrid(*({cc}), indexing='ij'), axis=0) ** 2, axis=0)", f"h = {e}"]
            ax = "axes=tuple(np.arange(-len(sh), 0))"
            inv = f"np.fft.irfftn(h, s=tuple(sh), {ax})" if rf else f"np.fft.ifftn(h, s=tuple(sh), {ax}).real"
            call = f"{PF}get_propagation_filter(sh, px, z, wl, db, filter_type='{f}', use_rfft={rf})"
            add(f"{f} filter{', half spectrum' if rf else ''}, Fourier", PF[7:] + "get_propagation_filter", "the frequency response is another one", fn(A, ret=call + "[0]"), fn(A, *ref, ret="h.astype(np.float32)"), {})
            add(f"{f} filter{', half spectrum' if rf else ''}, direct", PF[7:] + "get_propagation_filter", "the direct-space filter is not the inverse transform of the response", fn(A, ret=call + "[1]"), fn(A, *ref, ret=f"np.fft.fftshift({inv}.astype(np.float32))"), {})
    for nd in (2, 3):
        A = f"x: Arr[{nd}], px: float, z: float, wl: float, db: float"
        z0 = "0, " * (nd - 2)
        add(f"propagation filter of a {nd}D stack", PF[7:] + "apply_propagation_filter", "the filtered image is not the padded image divided by the response, shifted back and cropped",
            fn(A, ret=f"{PF}apply_propagation_filter(x, px, z, wl, db, filter_type='ctf')"),
            "import scipy.ndimage\n" + fn(A, "h, w = x.shape[-2], x.shape[-1]", f"p = np.pad(x, pad_width=[{'(0, 0), ' * (nd - 2)}(h - h // 2, h // 2), (w - w // 2, w // 2)], mode='edge')", f"f = np.fft.rfftn(p, axes=(-2, -1))",
               f"g = {PF}get_propagation_filter(p.shape[-2:], px, z, wl, db, filter_type='ctf', use_rfft=True)[0]", f"f = scipy.ndimage.fourier_shift(f, shift=({z0}h // 2 - h, w // 2 - w), n=p.shape[-1])", ret="np.fft.irfftn(f / g, axes=(-2, -1))[..., :h, :w]"), dict(opaque=("physics.phase.get_propagation_filter",)))
    add("delta over beta", PF[7:] + "get_delta_beta", "the ratio is not (1 - Re n) / Im n at the compound's density", fn("n: str, nrg: float, rho: float", ret=f"{PF}get_delta_beta(n, nrg, rho)"),
        "import xraylib\n" + fn("n: str, nrg: float, rho: float", f"c = {XH}get_compound(n, density=rho)", "r = xraylib.Refractive_Index(n, nrg, c['density'])", ret="(1 - r.real) / r.imag"))
    add("delta over beta curves", PF[7:] + "get_delta_beta_curves", "the curve of compound k is not at position k, over the requested energies", fn("ns: list, a: float, b: float, n: int", ret=f"{PF}get_delta_beta_curves(ns, (a, b, n), plot=False)"),
        fn("ns: list, a: float, b: float, n: int", ret=f"[np.array([{PF}get_delta_beta(c, e) for e in np.linspace(a, b, n)]) for c in ns]"), dict(opaque=("physics.phase.get_delta_beta",)))
    return out


def run(chk, prog):
    chk.rule("physics-formula", "attenuation, phase shift, mass fractions, fluorescence and Compton production, line energies, detector geometry and phase-contrast responses follow their documented formulas, material k and line k with their own coefficients")
    chk.need("physics-formula", table(chk, prog, "physics-formula", rows()))
