"""C31: projector backends hand the geometry they were given to the projection kernels, and attenuation volumes integrate along the beam."""
from ..spec import table
from ..solverspec import fn

P = "corrct._projector_backends."
SK = "_projector_backends.ProjectorBackendSKimage."
GEO = "n: int, m: int, s: float, ang: Arr[1], v: Arr[2], y: Arr[2], l: Arr[1], i: int"
VG = "V = corrct.models.VolumeGeometry(np.array((n, n)), vox_size=s)"
INI = [VG, f"B = {P}ProjectorBackendSKimage()", "B.initialize_geometry(V, ang)"]
INI1 = [VG, f"B = {P}ProjectorBackendSKimage()", "B.initialize_geometry(V, ang, create_single_projs=True)"]
IMP = "import skimage\nimport skimage.transform as skt\n"
E = ["e = int(np.floor(n * s))", "w = np.array(ang, ndmin=1, dtype=np.float32)"]
VER = "d = dict(filter_name=None) if skimage.__version__ >= '0.18' else dict(filter=None)"

ATT_SIG = "v: Arr[{}], a: float"
ATT_REF = """
def rot(x, d):
    return skt.rotate(x, d, order=1, clip=False)

def cums(x, d):
    r = rot(x, -d)
    r = r + np.roll(r, 1, axis=-2)
    return rot(np.cumsum(r / 2, axis=-2), d)
"""


def sk_rows():
    out = []
    for nm, ini in (("", INI), (", single projections", INI1)):
        for q, ref in (("B.get_vol_shape()", "np.array([n, n], dtype=int)"), ("B.get_prj_shape()", "np.array([len(w), e], dtype=int)"), ("B.prj_shape_vu", "np.array([1, e], dtype=int)"), ("B.angles_w_rad", "w"),
                       ("B.has_individual_projs", str(bool(nm))), ("B.is_initialized", "True"), ("B.is_ready", "True"), ("B.vol_geom.shape_xyz", "V.shape_xyz")):
            out.append((f"scikit-image geometry{nm}: {q}", SK + "initialize_geometry", "the geometry of the backend is not that of the volume and of the angles", fn(GEO, *ini, ret=q), fn(GEO, VG, *E, ret=ref)))
    W = "skimage.transform."
    out.append(("scikit-image: all projections", SK + "fp", "a projection is not the radon transform along its own angle", fn(GEO, *INI, ret="B.fp(v)"),
                IMP + fn(GEO, *E, "p = np.empty(np.array([len(w), e], dtype=int), dtype=v.dtype)", "d = np.rad2deg(w)", "for k in range(len(d)):\n    p[k, :] = np.squeeze(skt.radon(v, [d[k]]))", ret="p")))
    out.append(("scikit-image: one projection", SK + "fp", "a projection is not the radon transform along its own angle", fn(GEO, *INI, ret="B.fp(v, angle_ind=i)"),
                IMP + fn(GEO, *E, "d = np.rad2deg(w)", ret="np.squeeze(skt.radon(v, d[i:i + 1]))")))
    out.append(("scikit-image: back-projection", SK + "bp", "the back-projection is not the sum of the back-projections of all the angles", fn(GEO, *INI, ret="B.bp(y)"),
                IMP + fn(GEO, *E, VER, "d2 = np.rad2deg(w)", "o = np.empty([len(w), n, n], dtype=y.dtype)",
                         "for k in range(len(d2)):\n    o[k, ...] = skt.iradon(y[k, :, np.newaxis], [d2[k]], circle=False, output_size=n, **d)", ret="o.sum(axis=0) * 2 / np.pi")))
    out.append(("scikit-image: back-projection of one projection", SK + "bp", "the back-projection is not along the angle of the projection", fn(GEO, *INI, ret="B.bp(l, angle_ind=i)"),
                IMP + fn(GEO, *E, VER, "d2 = np.rad2deg(w)", ret="skt.iradon(l[:, np.newaxis], d2[i:i + 1], circle=False, output_size=n, **d) * 2 / np.pi")))
    return out


def att_rows():
    out = []
    for inv in (False, True):
        for nd in (2, 3, 4):
            body = ["b = a + np.pi" if inv else "b = a", "d = np.rad2deg(b)", "z = np.array(v.shape[-2:])", "g = np.ceil((np.ceil(np.sqrt(np.sum(z**2))) - z) / 2).astype(int)",
                    f"pw = np.zeros(({nd}, 1), dtype=int)", "pw[-2], pw[-1] = g[0], g[1]", "c = np.pad(v, pw, mode='constant')"]
            if nd == 2:
                body.append("c = cums(c, d)")
            else:
                body += ["sh = np.array(c.shape, ndmin=1)", "c = c.reshape([np.prod(sh[:-2]), *sh[-2:]])", "for k in range(np.prod(sh[:-2])):\n    c[k] = cums(c[k], d)", "c = c.reshape(sh)"]
            out.append((f"attenuation volume, {nd}D{', away from the beam' if inv else ''}", "_projector_backends.compute_attenuation", "not exp(-) of the integral along the beam of the rotated volume",
                        fn(ATT_SIG.format(nd), ret=f"{P}compute_attenuation(v, a, invert={inv})"),
                        IMP + ATT_REF + fn(ATT_SIG.format(nd), *body, ret="np.exp(-c[..., g[0]:-g[0], g[1]:-g[1]])")))
    return out


AS = "_projector_backends.ProjectorBackendASTRA."
AGEO = "n: int, m: int, r: float, rr: Arr[1], ang: Arr[1], k: int, i: int, h: int, u: int"


def vec_ref(nd, geo):
    q = ["rot = " + geo + ".rotate(w" + (", patch_astra_2d=True)" if nd == 2 else ")"), f"vec = np.empty([len(w), {12 if nd == 3 else 6}])"]
    fields = ("src_pos_xyz", "det_pos_xyz", "det_u_xyz", "det_v_xyz")[: 4 if nd == 3 else 3]
    return q + [f"vec[:, {nd * j}:{nd * j + nd}] = rot.get_field_scaled({f!r})" for j, f in enumerate(fields)]


def astra_rows():
    out = []
    what = "the geometry handed to ASTRA is not that of the volume, the detector and the angles"
    for nd in (2, 3):
        shp = "np.array((n, n))" if nd == 2 else "np.array((n, n, 7))"
        mv = f"V = corrct.models.VolumeGeometry({shp})"
        cuda = [] if nd == 2 else ["if not corrct._projector_backends.has_cuda:\n    raise ValueError()"]
        dflt = f"corrct.models.get_prj_geom_parallel(geom_type='{nd}d', rot_axis_shift_pix={{}})"
        det = "[u]" if nd == 2 else "[h, u]"
        for nm, args, geo, shape in (("default", "", dflt.format(None), None), ("axis shift", ", rot_axis_shift_pix=r", dflt.format("r"), None), ("own geometry", f", prj_geom={dflt.format('r')}", dflt.format("r"), None),
                                     ("own geometry and detector", ", prj_geom=g", dflt.format("r"), det)):
            pre = [mv]
            if shape:
                pre += [f"g = {geo}", f"g.set_detector_shape_vu({det})"]
            dims = (det if shape else "[n]" if nd == 2 else "[7, n]")
            for one in (False, True):
                drv = pre + [f"B = {P}ProjectorBackendASTRA(k)", f"B.initialize_geometry(V, ang{args}, create_single_projs={one})"]
                ref = pre + cuda + ["w = np.array(ang, ndmin=1, dtype=np.float32)"] + ([] if shape else [f"g = {geo}", f"g.set_detector_shape_vu({dims})"]) + vec_ref(nd, "g")
                kind = f"'parallel{'3d' if nd == 3 else ''}_vec'"
                ext = "-n / 2, n / 2, -n / 2, n / 2" + ("" if nd == 2 else ", -3.5, 3.5")
                qs = [("B.astra_vol_geom", f"astra.create_vol_geom(n, n{'' if nd == 2 else ', 7'}, {ext})"), ("B.proj_geom_all", f"astra.create_proj_geom({kind}, *{dims}, vec)"),
                      ("B.prj_shape_vwu", f"np.array([*{dims}[:-1], len(w), {dims}[-1]], dtype=int)"), ("B.prj_shape_vu", f"np.array([*{dims}[:-1], 1, {dims}[-1]], dtype=int)")]
                if one:
                    qs.append(("len(B.proj_geom_ind), B.proj_geom_ind[i]", f"len(w), [astra.create_proj_geom({kind}, *{dims}, vec[q:q + 1, :]) for q in range(len(w))][i]"))
                for q, v in qs:
                    out.append((f"ASTRA {nd}D geometry, {nm}{', single projections' if one else ''}: {q.split('.')[-1]}", AS + "initialize_geometry", what, fn(AGEO, *drv, ret=q), "import astra\n" + fn(AGEO, *ref, ret=v)))
        # projectors of the geometry
        mk = [mv, "B = {}ProjectorBackendASTRA(k)".format(P)]
        for one in (False, True):
            drv = mk + [f"B.initialize_geometry(V, ang, create_single_projs={one})", "B.make_ready()"]
            ref = [mv, *cuda, "w = np.array(ang, ndmin=1, dtype=np.float32)", f"g = {dflt.format(None)}", "g.set_detector_shape_vu({})".format("[n]" if nd == 2 else "[7, n]")] + vec_ref(nd, "g")
            kind = f"'parallel{'3d' if nd == 3 else ''}_vec'"
            typ = "'cuda3d'" if nd == 3 else "('cuda' if corrct._projector_backends.has_cuda else 'linear')"
            alg = "'3D_CUDA'" if nd == 3 else "('_CUDA' if corrct._projector_backends.has_cuda else '')"
            ref += [f"vg = astra.create_vol_geom(n, n{'' if nd == 2 else ', 7'}, {ext})", "o = {'VoxelSuperSampling': k, 'DetectorSuperSampling': k}", "d = {}".format("[7, n]" if nd == 3 else "[n]")]
            qs = [("B.proj_id[-1]", f"astra.create_projector({typ}, astra.create_proj_geom({kind}, *d, vec), vg, o)"), ("B.algo_type, B.is_ready", f"{alg}, True")]
            if one:
                qs += [("B.proj_id[i]", f"([astra.create_projector({typ}, astra.create_proj_geom({kind}, *d, vec[q:q + 1, :]), vg, o) for q in range(len(w))] + [astra.create_projector({typ}, astra.create_proj_geom({kind}, *d, vec), vg, o)])[i]"), ("len(B.proj_id)", "len(w) + 1")]
            else:
                qs.append(("len(B.proj_id)", "1"))
            for q, v in qs:
                out.append((f"ASTRA {nd}D projectors{', single projections' if one else ''}: {q}", AS + "make_ready", "the projectors are not those of the geometry", fn(AGEO, *drv, ret=q), "import astra\n" + fn(AGEO, *ref, ret=v)))
    # direct interface: always 3D for ASTRA
    for nd in (2, 3):
        shp = "np.array((n, n))" if nd == 2 else "np.array((n, n, 7))"
        z = 1 if nd == 2 else 7
        for nm, args, geo, det in (("default", "", "corrct.models.get_prj_geom_parallel(geom_type='3d')", None), ("axis shift", ", rot_axis_shift_pix=r", "corrct.models.get_prj_geom_parallel(geom_type='3d', rot_axis_shift_pix=r)", None),
                                   ("own geometry", ", prj_geom=g", f"corrct.models.get_prj_geom_parallel(geom_type='{nd}d', rot_axis_shift_pix=r)", None),
                                   ("own geometry and detector", ", prj_geom=g", f"corrct.models.get_prj_geom_parallel(geom_type='{nd}d', rot_axis_shift_pix=r)", "[u]" if nd == 2 else "[h, u]")):
            pre = [f"V = corrct.models.VolumeGeometry({shp})", f"g = {geo}"] + ([f"g.set_detector_shape_vu({det})"] if det else [])
            full = (("[1, u]" if nd == 2 else "[h, u]") if det else f"[{z}, n]")
            for one in (False, True):
                drv = pre + [f"B = {P}ProjectorBackendDirectASTRA(k)", f"B.initialize_geometry(V, ang{args}, create_single_projs={one})"]
                ref = ["if not corrct._projector_backends.has_cuda:\n    raise ValueError()", "if not corrct._projector_backends.has_astra_direct:\n    raise ValueError()"] + pre + [
                    "w = np.array(ang, ndmin=1, dtype=np.float32)", "g3 = g.get_3d()", f"g3.set_detector_shape_vu({full})"] + vec_ref(3, "g3")
                sh = (det or ("[n]" if nd == 2 else "[7, n]"))
                qs = [("B.astra_vol_geom", f"astra.create_vol_geom(n, n, {z}, -n / 2, n / 2, -n / 2, n / 2, {-z / 2}, {z / 2})"), ("B.proj_geom_all", f"astra.create_proj_geom('parallel3d_vec', *{full}, vec)"),
                      ("B.prj_shape_vwu", f"np.array([*{sh}[:-1], len(w), {sh}[-1]], dtype=int)"), ("B.prj_shape_vu", f"np.array([*{sh}[:-1], 1, {sh}[-1]], dtype=int)"),
                      ("B.astra_prj_shape, B.astra_angle_prj_shape, B.angle_prj_shape", f"(({full}[0], len(w), {full}[1]), ({full}[0], 1, {full}[1]), tuple({full}))")]
                if one:
                    qs.append(("B.proj_geom_ind[i]", f"[astra.create_proj_geom('parallel3d_vec', *{full}, vec[q:q + 1, :]) for q in range(len(w))][i]"))
                for q, v in qs:
                    out.append((f"ASTRA direct {nd}D geometry, {nm}{', single projections' if one else ''}: {q.split('.')[-1]}", "_projector_backends.ProjectorBackendDirectASTRA.initialize_geometry", what, fn(AGEO, *drv, ret=q), "import astra\n" + fn(AGEO, *ref, ret=v)))
    return out


def astra_ref(nd, one, vox):
    """The geometry and projectors of a square volume, with the default geometry; `pid`, `pg`, `vg`, `alg` and shapes."""
    cuda = [] if nd == 2 else ["if not corrct._projector_backends.has_cuda:\n    raise ValueError()"]
    e = "int(np.floor(n * s))" if vox else "n"
    z = "int(np.floor(7 * s))" if vox else "7"
    h = lambda x: f"-({x} * s / 2), {x} * s / 2" if vox else f"-({x} / 2), {x} / 2"
    typ = "'cuda3d'" if nd == 3 else "('cuda' if corrct._projector_backends.has_cuda else 'linear')"
    alg = "'3D_CUDA'" if nd == 3 else "('_CUDA' if corrct._projector_backends.has_cuda else '')"
    kind = f"'parallel{'3d' if nd == 3 else ''}_vec'"
    d = f"[{e}]" if nd == 2 else f"[{z}, {e}]"
    r = [*cuda, "w = np.array(ang, ndmin=1, dtype=np.float32)", f"g = corrct.models.get_prj_geom_parallel(geom_type='{nd}d')", f"d = {d}", "g.set_detector_shape_vu(d)", *vec_ref(nd, "g")]
    r += ["vec = vec / s"] if vox else []
    r += [f"vg = astra.create_vol_geom(n, n{'' if nd == 2 else ', 7'}, {h('n')}, {h('n')}{'' if nd == 2 else ', ' + h('7')})", f"alg = {alg}",
          "o = {'VoxelSuperSampling': int(k * np.fmax(1, s)), 'DetectorSuperSampling': int(k / np.fmin(1, s))}" if vox else "o = {'VoxelSuperSampling': k, 'DetectorSuperSampling': k}",
          f"pa = astra.create_proj_geom({kind}, *d, vec)", f"pia = astra.create_projector({typ}, pa, vg, o)", "sa = np.array([*d[:-1], len(w), d[-1]], dtype=int)", "s1 = np.array([*d[:-1], 1, d[-1]], dtype=int)",
          f"vs = np.array([n, n] if {nd} == 2 else [7, n, n], dtype=int)"]
    if one:
        r += [f"p1 = [astra.create_proj_geom({kind}, *d, vec[q:q + 1, :]) for q in range(len(w))]", f"pi1 = [astra.create_projector({typ}, astra.create_proj_geom({kind}, *d, vec[q:q + 1, :]), vg, o) for q in range(len(w))]"]
    return r


KERNEL = """
def run(mod, kind, alg, vg, pg, pid, vol, prj):
    a = mod.link('-vol', vg, vol)
    b = mod.link('-sino', pg, prj)
    c = astra.creators.astra_dict(kind + alg)
    c['ProjectionDataId'] = b
    c['VolumeDataId' if kind == 'FP' else 'ReconstructionDataId'] = a
    c['ProjectorId'] = pid
    astra.algorithm.run(astra.algorithm.create(c))
"""


def kernel_rows():
    """The kernels run on the data they were given, with the projector of the requested angles."""
    out = []
    imp = "import astra\n" + KERNEL
    for nd in (2, 3):
        mod = f"astra.data{nd}d"
        for vox in (False, True):
            for one in (False, True):
                sig = AGEO + f", s: float, v: Arr[{nd}], y: Arr[{nd}], y1: Arr[{nd - 1}], ang2: Arr[1]"
                mv = f"V = corrct.models.VolumeGeometry(np.array((n, n{'' if nd == 2 else ', 7'})){', vox_size=s' if vox else ''})"
                mk = [mv, f"B = {P}ProjectorBackendASTRA(k)"]
                ini = f"B.initialize_geometry(V, ang, create_single_projs={one})"
                again = ["B.initialize_geometry(corrct.models.VolumeGeometry(np.array((m, m))), ang2)", "B.make_ready()"] if nd == 2 else [f"B.initialize_geometry(corrct.models.VolumeGeometry(np.array((m, m, 5))), ang2, create_single_projs=True)", "B.make_ready()"]
                ref = [mv, *astra_ref(nd, one, vox)]
                nm = f"ASTRA {nd}D{', voxel size' if vox else ''}{', single projections' if one else ''}"
                W = "the kernel does not get the data, the geometry or the projector of the requested angles"
                fp = lambda pg, pid, sh: [f"p = np.empty({sh}, dtype=np.float32)", f"run({mod}, 'FP', alg, vg, {pg}, {pid}, v.astype(np.float32).reshape(vs), p)"]
                bp = lambda pg, pid, sh, y: ["p = np.empty(vs, dtype=np.float32)", f"run({mod}, 'BP', alg, vg, {pg}, {pid}, p, {y}.astype(np.float32).reshape({sh}))"]
                opt = dict(rejects=False)
                for hist in ((), again):
                    h = ", after another geometry" if hist else ""
                    d = [*mk, *hist, ini]
                    out.append((f"{nm}{h}: all projections", AS + "fp", W, fn(sig, *d, ret="B.fp(v)"), imp + fn(sig, *ref, *fp("pa", "pia", "sa"), ret="np.squeeze(p)"), opt))
                    out.append((f"{nm}{h}: all back-projections", AS + "bp", W, fn(sig, *d, ret="B.bp(y)"), imp + fn(sig, *ref, *bp("pa", "pia", "sa", "y"), ret="p"), opt))
                    out.append((f"{nm}{h}: number of projectors", AS + "make_ready", "the projectors are not those of the geometry", fn(sig, *d, "B.make_ready()", ret="len(B.proj_id)"), "import astra\n" + fn(sig, *ref, ret="len(w) + 1" if one else "1"), opt))
                    if one:
                        out.append((f"{nm}{h}: one projection", AS + "fp", W, fn(sig, *d, ret="B.fp(v, angle_ind=i)"), imp + fn(sig, *ref, *fp("p1[i]", "(pi1 + [pia])[i]", "s1"), ret="np.squeeze(p)"), opt))
                        out.append((f"{nm}{h}: one back-projection", AS + "bp", W, fn(sig, *d, ret="B.bp(y1, angle_ind=i)"), imp + fn(sig, *ref, *bp("p1[i]", "(pi1 + [pia])[i]", "s1", "y1"), ret="p"), opt))
    DS = "_projector_backends.ProjectorBackendDirectASTRA."
    for nd in (2, 3):
        z, shp = (1, "n, n") if nd == 2 else (7, "n, n, 7")
        for one in (False, True):
            sig = AGEO + f", v: Arr[{nd}], y: Arr[{nd}], y1: Arr[{nd - 1}], ang2: Arr[1]"
            mv = f"V = corrct.models.VolumeGeometry(np.array(({shp})))"
            ini = f"B.initialize_geometry(V, ang, create_single_projs={one})"
            mk = [mv, f"B = {P}ProjectorBackendDirectASTRA(k)"]
            again = ["B.initialize_geometry(corrct.models.VolumeGeometry(np.array((m, m, 5))), ang2, create_single_projs=True)", "B.make_ready()"]
            ref = ["if not corrct._projector_backends.has_cuda:\n    raise ValueError()", "if not corrct._projector_backends.has_astra_direct:\n    raise ValueError()", mv, "w = np.array(ang, ndmin=1, dtype=np.float32)",
                   "g = corrct.models.get_prj_geom_parallel(geom_type='3d')", f"d = [{z}, n]", "g.set_detector_shape_vu(d)", *vec_ref(3, "g"), f"vg = astra.create_vol_geom(n, n, {z}, -n / 2, n / 2, -n / 2, n / 2, {-z / 2}, {z / 2})",
                   "o = {'VoxelSuperSampling': k, 'DetectorSuperSampling': k}", "pia = astra.create_projector('cuda3d', astra.create_proj_geom('parallel3d_vec', *d, vec), vg, o)"]
            if one:
                ref.append("pi1 = [astra.create_projector('cuda3d', astra.create_proj_geom('parallel3d_vec', *d, vec[q:q + 1, :]), vg, o) for q in range(len(w))]")
            nm = f"ASTRA direct {nd}D{', single projections' if one else ''}"
            W = "the kernel does not get the data or the projector of the requested angles"
            fp = lambda pid, sh: [f"p = np.zeros({sh}, dtype=np.float32)", f"astra.experimental.direct_FP3D({pid}, v.astype(np.float32).reshape(({z}, n, n)), p)"]
            bp = lambda pid, sh, y: [f"p = np.zeros(({z}, n, n), dtype=np.float32)", f"astra.experimental.direct_BP3D({pid}, p, {y}.astype(np.float32).reshape({sh}))"]
            opt = dict(rejects=False)
            full, outs = f"({z}, len(w), n)", "(len(w), n)" if nd == 2 else "(7, len(w), n)"
            vo = "(n, n)" if nd == 2 else "(7, n, n)"
            for hist in ((), again):
                h = ", after another geometry" if hist else ""
                d = [*mk, *hist, ini]
                out.append((f"{nm}{h}: all projections", DS + "fp", W, fn(sig, *d, ret="B.fp(v)"), "import astra\n" + fn(sig, *ref, *fp("pia", full), ret=f"p.reshape({outs})"), opt))
                out.append((f"{nm}{h}: all back-projections", DS + "bp", W, fn(sig, *d, ret="B.bp(y)"), "import astra\n" + fn(sig, *ref, *bp("pia", full, "y"), ret=f"p.reshape({vo})"), opt))
                out.append((f"{nm}{h}: number of projectors", DS + "make_ready", "the projectors are not those of the geometry", fn(sig, *d, "B.make_ready()", ret="len(B.proj_id)"), "import astra\n" + fn(sig, *ref, ret="len(w) + 1" if one else "1"), opt))
                if one:
                    out.append((f"{nm}{h}: one projection", DS + "fp", W, fn(sig, *d, ret="B.fp(v, angle_ind=i)"), "import astra\n" + fn(sig, *ref, *fp("(pi1 + [pia])[i]", f"({z}, 1, n)"), ret=f"p.reshape(({z}, n))"), opt))
                    out.append((f"{nm}{h}: one back-projection", DS + "bp", W, fn(sig, *d, ret="B.bp(y1, angle_ind=i)"), "import astra\n" + fn(sig, *ref, *bp("(pi1 + [pia])[i]", f"({z}, 1, n)", "y1"), ret=f"p.reshape({vo})"), opt))
    return out


def rows():
    return kernel_rows() + sk_rows() + att_rows() + astra_rows()


def run(chk, prog):
    for rule, desc, rr in (("skimage", "geometry and kernels of the scikit-image backend", sk_rows()), ("attenuation", "attenuation volumes", att_rows()), ("astra", "geometry of the ASTRA backend", astra_rows()), ("kernels", "data, geometry and projector the ASTRA kernels run with, also after the backend was used with another geometry", kernel_rows())):
        chk.rule(rule, desc)
        chk.need(rule, table(chk, prog, rule, rr))
