"""C15: simulated data are those of their definition: noise models, sinograms of phantoms, phantoms made of materials, error powers."""
from ..spec import table
from ..solverspec import fn

S = "corrct.testing."
PHYS = ("physics.materials.VolumeMaterial.get_fluo_production", "physics.materials.VolumeMaterial.get_attenuation", "physics.materials.VolumeMaterial.get_compton_scattering")
XRF = ("projectors.ProjectorUncorrected.fp", "projectors.ProjectorAttenuationXRF.fp")


def noise(v, n, out="y", pois=False, read=None, avg=None, std=None, eff="1.0", dt="np.float32", bg=True):
    """Text of the noise model applied to `v`."""
    r = [f"c = ({n}) * {eff} * {v}.astype({dt})", f"{out} = c"]
    if avg:
        r.append(f"{out} = {out} + ({n}) * {eff} * np.abs(np.random.normal({avg}, {std or avg + ' * 0.05'}, c.shape))")
    if bg:
        r.append(f"g = float(np.mean(({out} - c).flatten()))")
    if pois:
        r.append(f"{out} = np.random.poisson({out}).astype({dt})")
    if read:
        r.append(f"{out} = {out} + np.random.normal(0, {read}, c.shape)")
    return "\n".join(r)


def combos():
    for pois in (False, True):
        for read in (None, "r"):
            for avg, std in ((None, None), ("a", None), ("a", "s"), (None, "s")):
                yield pois, read, avg, std


def kwargs(pois, read, avg, std):
    return (", add_poisson=True" if pois else "") + (f", readout_noise_std={read}" if read else "") + (f", background_avg={avg}" if avg else "") + (f", background_std={std}" if std else "")


def label(pois, read, avg, std):
    return ", ".join([x for x, y in (("Poisson", pois), ("read-out", read), ("background", avg), ("background spread", std)) if y] or ["no noise"])


def noise_rows():
    out = []
    for nd in (1, 2, 3):
        for pois, read, avg, std in combos():
            for eff, dt in ((None, None), ("e", None), (None, "np.float64")):
                s = f"x: Arr[{nd}], n: float, a: float, s: float, r: float, e: float"
                o = kwargs(pois, read, avg, std) + (f", detection_efficiency={eff}" if eff else "") + (f", dtype={dt}" if dt else "") + ("" if pois else ", add_poisson=False")
                out.append((f"noise ({label(pois, read, avg, std)}; {nd}D{', efficiency' if eff else ''}{', ' + dt if dt else ''})", "testing.add_noise", "the noisy data are not those of the noise model",
                            fn(s, ret=f"{S}add_noise(x, n{o})"), fn(s, noise("x", "n", "y", pois, read, avg, std, eff or "1.0", dt or "np.float32"), ret="(y, c, g)")))
    s = "x: Arr[2], n: float"
    out.append(("noise that is left as it is", "testing.add_noise", "the clean image is changed", fn(s, f"y, c, g = {S}add_noise(x, n)", ret="x"), fn(s, ret="x")))
    return out


def sino_rows():
    out = []
    W = "the sinogram is not that of the phantom and of the noise model"
    sa = "(2.4 / 2 / 16 / 2) ** 2"
    for nd in (2, 3):
        for pois, read, avg, std in combos():
            s = f"x: Arr[{nd}], na: int, a0: float, a1: float, t: float, fl: float, p: Arr[1], a: float, s: float, r: float, ai: Arr[{nd}], ao: Arr[{nd}], dp: float"
            for nm, o, mk in (("no attenuation", "", "corrct.projectors.ProjectorUncorrected(x.shape, w)"),
                              ("psf", ", psf=p", "corrct.projectors.ProjectorUncorrected(x.shape, w, psf=p)"),
                              ("attenuation", ", vol_att_in=ai, vol_att_out=ao, detectors_pos_rad=dp", "corrct.projectors.ProjectorAttenuationXRF(x.shape, w, att_in=ai, att_out=ao, angles_detectors_rad=dp)"),
                              ("incoming attenuation", ", vol_att_in=ai", "corrct.projectors.ProjectorAttenuationXRF(x.shape, w, att_in=ai, angles_detectors_rad=np.pi / 2)"),
                              ("outgoing attenuation and psf", ", vol_att_out=ao, psf=p", "corrct.projectors.ProjectorAttenuationXRF(x.shape, w, att_out=ao, angles_detectors_rad=np.pi / 2, psf=p)")):
                if nm != "psf" and nm != "attenuation" and (pois or read or std):
                    continue
                for ang in ((False, True) if not (pois or read or avg or std) else (True,)):
                    ao_ = ", start_angle_deg=a0, end_angle_deg=a1, dwell_time_s=t, photon_flux=fl" if ang else ""
                    A0, A1, n = ("a0", "a1", "fl * t") if ang else ("0.0", "180.0", "1e9")
                    out.append((f"sinogram ({nd}D, {nm}{', angles and exposure' if ang else ''}; {label(pois, read, avg, std)})", "testing.create_sino", W,
                                fn(s, ret=f"{S}create_sino(x, na{ao_}{o}{kwargs(pois, read, avg, std)})"),
                                fn(s, f"w = np.deg2rad(np.linspace({A0}, {A1}, na, endpoint=False))", f"with {mk} as P:\n    v = P.fp(x)", noise("v", n, "y", pois, read, avg, std, sa), ret=f"(y, w, x * ({n}) * {sa}, g)"), dict(opaque=XRF)))
        for pois, read in ((False, None), (True, None), (False, "r"), (True, "r")):
            for o in ("", ", psf=p"):
                for ang in (False, True):
                    ao_ = ", start_angle_deg=a0, end_angle_deg=a1, dwell_time_s=t, photon_flux=fl" if ang else ""
                    A0, A1, n = ("a0", "a1", "fl * t") if ang else ("0", "180", "1e9")
                    s = f"x: Arr[{nd}], na: int, a0: float, a1: float, t: float, fl: float, p: Arr[1], r: float"
                    out.append((f"transmission sinogram ({nd}D{o}{', angles and exposure' if ang else ''}; {label(pois, read, None, None)})", "testing.create_sino_transmission", W,
                                fn(s, ret=f"{S}create_sino_transmission(x, na{ao_}{o}{kwargs(pois, read, None, None)})"),
                                fn(s, f"w = np.deg2rad(np.linspace({A0}, {A1}, na, endpoint=False))", f"with corrct.projectors.ProjectorUncorrected(x.shape, w{o}) as P:\n    v = np.exp(-P.fp(x))",
                                   noise("v", n, "y", pois, read, bg=False), noise("np.ones_like(v)", n, "f", pois, read, bg=False), ret="(y, f, w, x)"), dict(opaque=XRF)))
    return out


PHASES = ("m = corrct.physics.VolumeMaterial((x < 0.1, x > 0.5, (x > 0.25) & (x < 0.5), (x > 0.1) & (x < 0.25)), "
          "('Air, Dry (near sea level)', 'Ferric Oxide', 'Calcium Oxide', 'Calcium Carbonate'), {v} * 1e-4)")


def phantom_rows():
    out = []
    W = "the phantom is not that of the materials"
    for nd in (2, 3):
        s = f"x: Arr[{nd}], el: str, li: str, en: float, vs: float, e1: str, e2: str, l1: str, l2: str, d: float"
        for o, (e, l, E, v) in (("", ("'Ca'", "'KA'", "20.0", "0.5")), (", el, li, en, vs", ("el", "li", "en", "vs")), (", element=el", ("el", "'KA'", "20.0", "0.5")), (", voxel_size_um=vs, in_energy_keV=en", ("'Ca'", "'KA'", "en", "vs"))):
            out.append((f"phantom of one element ({nd}D{o})", "testing.phantom_assign_concentration", W, fn(s, ret=f"{S}phantom_assign_concentration(x{o})"),
                        fn(s, PHASES.format(v=v), f"q, y = m.get_fluo_production({e}, {E}, {l})", ret=f"(y, m.get_attenuation({E}), m.get_attenuation(q))"), dict(opaque=PHYS)))
        for o, els, lis, E, c in (("", ("'Ca'", "'Fe'"), ("'KA'", "'KA'"), "20.0", None), (", [e1, e2], li, en", ("e1", "e2"), ("li", "li"), "en", None), (", [e1, e2], [l1, l2], en", ("e1", "e2"), ("l1", "l2"), "en", None),
                                  (", [e1]", ("e1",), ("'KA'",), "20.0", None), (", [e1, e2], li, en, d", ("e1", "e2"), ("li", "li"), "en", "d"), (", [e1, e2], [l1, l2], detectors_pos_rad=d", ("e1", "e2"), ("l1", "l2"), "20.0", "d"),
                                  (", [e1, e2], detectors_pos_rad=0.0", ("e1", "e2"), ("'KA'", "'KA'"), "20.0", "0.0")):
            body = [f"q{i}, y{i} = m.get_fluo_production({e}, {E}, {l})" for i, (e, l) in enumerate(zip(els, lis))]
            k = len(els)
            if c:
                body.append(f"q{k}, y{k} = m.get_compton_scattering({E}, angle_rad={c})")
                k += 1
            out.append((f"phantom of elements ({nd}D{o})", "testing.phantom_assign_concentration_multi", W, fn(s, ret=f"{S}phantom_assign_concentration_multi(x{o})"),
                        fn(s, PHASES.format(v="0.5"), *body, ret=f"([{', '.join(f'y{i}' for i in range(k))}], m.get_attenuation({E}), [{', '.join(f'm.get_attenuation(q{i})' for i in range(k))}])"), dict(opaque=PHYS)))
        out.append((f"data type of a sinogram ({nd}D)", "testing.create_sino", "the data are not of the requested type", fn(s + ", na: int", ret=f"{S}create_sino(x, na, dtype=np.float64)[0]"),
                    fn(s + ", na: int", "with corrct.projectors.ProjectorUncorrected(x.shape, np.deg2rad(np.linspace(0.0, 180.0, na, endpoint=False))) as P:\n    v = P.fp(x)", noise("v", "1e9", "y", eff="(2.4 / 2 / 16 / 2) ** 2", dt="np.float64"), ret="y"), dict(opaque=XRF)))
        out.append((f"data type of a transmission sinogram ({nd}D)", "testing.create_sino_transmission", "the data are not of the requested type", fn(s + ", na: int", ret=f"{S}create_sino_transmission(x, na, dtype=np.float64)[:2]"),
                    fn(s + ", na: int", "with corrct.projectors.ProjectorUncorrected(x.shape, np.deg2rad(np.linspace(0, 180, na, endpoint=False))) as P:\n    v = np.exp(-P.fp(x))", noise("v", "1e9", "y", bg=False, dt="np.float64"), noise("np.ones_like(v)", "1e9", "f", bg=False, dt="np.float64"), ret="(y, f)"), dict(opaque=XRF)))
        s = f"x: Arr[{nd}], y: Arr[{nd}]"
        out.append((f"error power ({nd}D)", "testing.compute_error_power", "the powers are not the root mean squares", fn(s, ret=f"{S}compute_error_power(x, y)"),
                    fn(s, ret="(np.sqrt(np.sum(x ** 2) / x.size), np.sqrt(np.sum(np.abs(x - y) ** 2) / x.size))")))
    for t in ("int", "float", "Arr[1]", "Arr[2]"):
        for o in ("", ", dtype=np.int32"):
            out.append((f"round up to a multiple of a power of two ({t}{o})", "testing.roundup_to_pow2", "the number is not rounded up to a multiple of the power of two", fn(f"x: {t}, p: int", ret=f"{S}roundup_to_pow2(x, p{o})"),
                        fn(f"x: {t}, p: int", ret=f"np.ceil(np.array(x) / 2 ** p).astype({'np.int32' if o else 'int'}) * 2 ** p")))
    for o, sc in (("None", "1"), ("f", "(f / c[1].shape[-1])")):
        s = "f: int"
        out.append((f"pixel sizes of the nuclei phantom ({o})", "testing.create_phantom_nuclei3d", "the pixel sizes are not those of the re-scaled volume", fn(s, ret=f"{S}create_phantom_nuclei3d({o})[2]"),
                    fn(s, "import skimage", "c = np.array(skimage.data.cells3d(), dtype=np.float32).swapaxes(0, 1)", ret=f"np.array([0.29, 0.26 / {sc}, 0.26 / {sc}], dtype=np.float32)")))
    return out


def run(chk, prog):
    chk.rule("noise", "the noisy data are the clean ones scaled by photons and efficiency, plus the background, as Poisson counts, plus the read-out noise: with and without each; the clean data and the background are those added")
    chk.rule("sinogram", "sinograms are the projections of the phantom at the requested angles, with or without attenuation and point spread function, and with the noise of the requested exposure")
    chk.rule("phantom", "phantoms are made of the materials of their grey levels; the volumes that belong to each element, line and energy are given in their order")
    chk.assumptions += ["random numbers drawn with the same arguments count as the same numbers"]
    for nm, rows in (("noise", noise_rows()), ("sinogram", sino_rows()), ("phantom", phantom_rows())):
        chk.need(nm, table(chk, prog, nm, rows))
