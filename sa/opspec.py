"""Ways of building every operator, filter and projector of the package, shared by the checks of operator contracts."""
O = "corrct.operators."
P = "corrct.projectors."
BK = "_projector_backends.ProjectorBackendSKimage."
BKOPQ = (BK + "fp", BK + "bp")
BTYPE = "B: corrct._projector_backends.ProjectorBackendSKimage"

ARGS = ("x: np.ndarray, y: np.ndarray, x2: np.ndarray, y2: np.ndarray, v: np.ndarray, k: np.ndarray, n: int, m: int, lvl: int, A, Bf, M: np.ndarray, "
        + BTYPE + ", V: corrct.models.VolumeGeometry, ang: np.ndarray, I: np.ndarray, psf: np.ndarray, att: np.ndarray, w: float, w2: float, C: corrct.struct_illum.MaskCollection, a: int")
GUARD = "if " + " or ".join(f"{q} is None" for q in ("x", "y", "x2", "y2", "v", "k", "M", "ang", "I", "psf", "att")) + ":\n    raise ValueError()\n"
XGUARD = "V = corrct.models.VolumeGeometry(np.array((n, n)))\nif att.shape[1] != 2 or not np.all(np.equal(att.shape[-2:], np.array((n, n)))):\n    raise ValueError()\n"

# name, class (for the report), constructor text, opaque functions
OPERATORS = [
    ("identity", "operators.TransformIdentity", f"op = {O}TransformIdentity(x.shape)", ()),
    ("diagonal scaling", "operators.TransformDiagonalScaling", f"op = {O}TransformDiagonalScaling((n, m), k)", ()),
    ("convolution", "operators.TransformConvolution", f"op = {O}TransformConvolution((n, m), k)", ()),
    ("convolution, flipped adjoint", "operators.TransformConvolution", f"op = {O}TransformConvolution((n, m), k, flip_adjoint=True)", ()),
    ("callable pair", "operators.TransformFunctions", f"op = {O}TransformFunctions((n, m), (m, n), A, Bf)", ()),
    ("single callable", "operators.TransformFunctions", f"op = {O}TransformFunctions((n, m), (m, n), A)", ()),
    ("gradient 2D", "operators.TransformGradient", f"op = {O}TransformGradient((n, m))", ()),
    ("gradient 3D", "operators.TransformGradient", f"op = {O}TransformGradient((n, m, n), axes=(0, 2))", ()),
    ("Laplacian", "operators.TransformLaplacian", f"op = {O}TransformLaplacian((n, m))", ()),
    ("Fourier", "operators.TransformFourier", f"op = {O}TransformFourier((n, m))", ()),
    ("SVD", "operators.TransformSVD", f"op = {O}TransformSVD((n, m))", ()),
    ("decimated wavelets", "operators.TransformDecimatedWavelet", f"op = {O}TransformDecimatedWavelet((n, m), 'db2', 2)", ()),
    ("stationary wavelets", "operators.TransformStationaryWavelet", f"op = {O}TransformStationaryWavelet((5, 8), 'db2', 2)", ()),
    ("matrix projector", "projectors.ProjectorMatrix", f"op = {P}ProjectorMatrix(M, (n, m), (m, n))", ()),
    ("projector", "projectors.ProjectorUncorrected", f"op = {P}ProjectorUncorrected(V, ang, backend=B)", BKOPQ),
    ("projector with intensities and PSF", "projectors.ProjectorUncorrected", f"op = {P}ProjectorUncorrected(V, ang, prj_intensities=I, psf=psf, backend=B)", BKOPQ),
    ("XRF projector", "projectors.ProjectorAttenuationXRF", XGUARD + f"op = {P}ProjectorAttenuationXRF(V, ang, backend=B, angles_detectors_rad=(0.5, 1.0), weights_detectors=(w, w2), att_maps=att)", BKOPQ),
    ("symmetric XRF projector", "projectors.ProjectorAttenuationXRF", XGUARD + f"op = {P}ProjectorAttenuationXRF(V, ang, backend=B, angles_detectors_rad=(0.5, 1.0), weights_detectors=(w, w2), att_maps=att, is_symmetric=True)", BKOPQ),
    ("ghost imaging projector", "struct_illum.ProjectorGhostImaging", "op = corrct.struct_illum.ProjectorGhostImaging(C, backend='numpy')", ()),
]
