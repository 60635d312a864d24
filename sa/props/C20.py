"""C20: attenuation maps: which map belongs to which rotation angle and detector, and what it contains."""
from ..spec import table
from ..solverspec import fn

CA = "_projector_backends.compute_attenuation"
A = "a: np.ndarray, e: np.ndarray, ang: Arr[1], w: float, i: int, d0: float, d1: float, s: float, z: float, n: int"
AV = "corrct.physics.attenuation.AttenuationVolume"
SITE = "physics.attenuation.AttenuationVolume."


def ref_maps(inc, em, dets, sub=1):
    """dets: list of (angle text, surface text or None, distance text)."""
    out = [f"shp = {'a' if inc else 'e'}.shape", f"na = len(ang)", f"M = np.ones([na, {len(dets)}, *shp])"]
    if inc:
        out.append("for j in range(na):\n    M[j] *= corrct._projector_backends.compute_attenuation(a, ang[j], invert=False)[None, ...]")
    if em:
        out.append("for j in range(na):\n    o = np.zeros(M.shape[1:])")
        for k, (an, sf, ds) in enumerate(dets):
            if sf is None:
                out.append(f"    o[{k}, ...] += corrct._projector_backends.compute_attenuation(e, ang[j] + {an}, invert=True)")
            else:
                h = f"np.arctan2(np.sqrt({sf}) / 2, {ds})"
                out.append(f"    g = np.convolve(np.linspace(-{h}, {h}, {sub} + 1), np.ones(2), 'valid') / 2")
                out.append(f"    for q in g:\n        o[{k}, ...] += corrct._projector_backends.compute_attenuation(e, ang[j] + {an} + q, invert=True)\n    o[{k}, ...] /= len(g)")
        out.append("    M[j] *= o")
    return "\n".join(out)


def order(perm):
    """The schedule to analyse: tasks complete in this order."""
    def preset(it, st):
        it.completion = list(perm)
        return {}
    return dict(preset=preset)


def rows():
    out = []
    W = "the attenuation along the beam is not exp(-(half-voxel centred line integral from the border))"
    for nd in (2, 3):
        for inv in (False, True):
            P = f"v: Arr[{nd}], t: float"
            step = lambda x: f"{x} = skimage.transform.rotate({x}, -deg, order=1, clip=False)\n{x} = {x} + np.roll({x}, 1, axis=-2)\n{x} = skimage.transform.rotate(np.cumsum({x} / 2, axis=-2), deg, order=1, clip=False)"
            r = ["sz = np.array(v.shape[-2:])", "ed = np.ceil((np.ceil(np.sqrt(np.sum(sz**2))) - sz) / 2).astype(int)", f"deg = np.rad2deg(t{' + np.pi' if inv else ''})",
                 f"p = np.zeros(({nd}, 1), dtype=int)\np[-2] = ed[0]\np[-1] = ed[1]\nc = np.pad(v, p, mode='constant')"]
            if nd == 2:
                r.append(step("c"))
            else:
                r.append("ps = np.array(c.shape, ndmin=1)\nc = c.reshape([np.prod(ps[:-2]), *ps[-2:]])\nfor k in range(np.prod(ps[:-2])):\n    x = c[k]\n    " + step("x").replace("\n", "\n    ") + "\n    c[k] = x\nc = c.reshape(ps)")
            r.append("c = np.exp(-c[..., ed[0]:-ed[0], ed[1]:-ed[1]])")
            out.append((f"attenuation of a {nd}D volume{', emitted' if inv else ''}", CA, W, fn(P, ret=f"corrct.{CA}(v, t{', invert=True' if inv else ''})"),
                        "import skimage.transform\n" + fn(P, *r, ret="c")))
    opq = dict(opaque=(CA,))
    W = "a map does not contain the attenuation of its own rotation angle and detector"
    D1, D2 = [("d0", None, None)], [("d0", None, None), ("d1", None, None)]
    DX = [("d0", "s", "z"), ("d1", None, None)]
    X = "[corrct.physics.xrf.DetectorXRF(s, z, d0), d1]"
    gx = "if s < 0.0 or z <= 0.0 or s <= 0.0 or not isinstance(s, float) or not isinstance(z, float):\n    raise ValueError()"
    for inc, em in ((True, True), (True, False), (False, True)):
        for mt in (True, False):
            for dets, arg, sub, g in ((D1, "d0", 1, ""), (D2, "[d0, d1]", 1, ""), (DX, X, 1, gx), (DX, X, 3, gx)):
                nm = f"maps of {'+'.join(x for x, c in (('incident', inc), ('emitted', em)) if c)} attenuation, {len(dets)} detector{'s' if len(dets) > 1 else ''}{', extended detector' if dets is DX else ''}{f', {sub} sub-angles' if sub > 1 else ''}{', threads' if mt else ''}"
                d = fn(A, g, f"o = {AV}({'a' if inc else 'None'}, {'e' if em else 'None'}, ang, {arg}{f', emitted_sub_sampling={sub}' if sub > 1 else ''})", f"o.compute_maps(use_multithreading={mt})", ret="o.maps")
                out.append((nm, SITE + "compute_maps", W, d, fn(A, g, "if np.any(np.array(a.shape) != np.array(e.shape)):\n    raise ValueError()" if inc and em else "", f"if {'a' if inc else 'e'}.ndim not in (2, 3):\n    raise ValueError()", ref_maps(inc, em, dets, sub), ret="M"), opq))
    B = A.replace("ang: Arr[1]", "t0: float, t1: float, t2: float")
    for ts, perms in ((("t0", "t1"), ((1, 0),)), (("t0", "t1", "t2"), ((2, 0, 1), (1, 2, 0), (2, 1, 0), (0, 2, 1)))):
        for pm in perms:
            for inc, em in ((True, True), (True, False), (False, True)):
                v = f"np.array([{', '.join(ts)}])"
                d = fn(B, f"o = {AV}({'a' if inc else 'None'}, {'e' if em else 'None'}, {v}, [d0, d1])", "o.compute_maps()", ret="o.maps")
                r = [f"v = {'a' if inc else 'e'}", f"M = np.ones([{len(ts)}, 2, *v.shape])"]
                for j, t in enumerate(ts):
                    r += [f"M[{j}] *= corrct.{CA}(a, {t}, invert=False)[None, ...]"] * inc
                    r += [f"q = np.zeros(M.shape[1:])", *[f"q[{k}, ...] += corrct.{CA}(e, {t} + d{k}, invert=True)" for k in (0, 1)], f"M[{j}] *= q"] * em
                out.append((f"maps of {'+'.join(x for x, c in (('incident', inc), ('emitted', em)) if c)} attenuation, angles complete in the order {pm}", SITE + "compute_maps",
                            "the map stored for an angle depends on the order in which the tasks complete",
                            d, fn(B, "if np.any(np.array(a.shape) != np.array(e.shape)):\n    raise ValueError()" if inc and em else "", f"if {'a' if inc else 'e'}.ndim not in (2, 3):\n    raise ValueError()", *r, ret="M"),
                            dict(order(pm), **opq)))
    pre = f"o = {AV}(a, e, ang, [d0, d1])\no.compute_maps()\n"
    for call, ref, what in (("o.get_maps()", "o.maps", "the maps returned are not the computed ones"), ("o.get_maps(rot_ind=1)", "o.maps[1:2]", "the maps of another rotation angle are returned"),
                            ("o.get_maps(det_ind=1)", "o.maps[:, 1:2]", "the maps of another detector are returned"), ("o.get_maps(rot_ind=1, det_ind=0)", "o.maps[1:2][:, 0:1]", "the maps of another angle or detector are returned"),
                            ("o.get_maps(rot_ind=[2, 0])", "o.maps[[2, 0]]", "the maps of other rotation angles are returned"),
                            ("o.get_maps(rot_ind=slice(1, 3), det_ind=[1])", "o.maps[1:3][:, [1]]", "the maps of other angles or detectors are returned"),
                            ("o.get_projector_args()['att_maps']", "o.maps", "the projector gets other maps"), ("o.get_projector_args()['angles_detectors_rad']", "np.array([d0, d1])", "the projector gets other detector angles"),
                            ("o.get_projector_args(det_ind=[1])['angles_detectors_rad']", "np.array([d0, d1])[[1]]", "the detector angles given to the projector are not those of the maps"),
                            ("o.get_projector_args(det_ind=[1])['att_maps']", "o.maps[:, [1]]", "the maps given to the projector are not those of the requested detectors"),
                            ("o.get_projector_args(rot_ind=[1], det_ind=0)['att_maps']", "o.maps[[1]][:, 0:1]", "the maps given to the projector are not those of the requested angles"),
                            ("o.get_projector_args(rot_ind=[1], binning=2)['att_maps']", "o.get_maps(rot_ind=[1], binning=2)", "the binning is not passed on")):
        out.append((call, SITE + call.split("(")[0][2:], what, fn(A, pre, ret=call), fn(A, pre, ret=ref), opq))
    for nd in (2, 3):
        A2 = A.replace("a: np.ndarray", f"a: Arr[{nd}]")
        out.append((f"binned maps, {nd}D", SITE + "get_maps", "the maps are not binned over the axes of the volume only", fn(A2, pre, ret="o.get_maps(binning=2)"),
                    fn(A2, pre, ret=f"corrct.processing.pre.bin_imgs(o.maps, binning=2, axes=tuple(range(-{nd}, 0)), auto_crop=True)"), dict(opaque=(CA, "processing.pre.bin_imgs"))))
    return out


def run(chk, prog):
    chk.rule("attenuation-maps", "map [i, d] is the product of the incident attenuation at rotation angle i and of the emitted attenuation towards detector d (averaged over its sub-angles), in threads or not; selections return the requested maps")
    chk.need("attenuation-maps", table(chk, prog, "attenuation-maps", rows()))
