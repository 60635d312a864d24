"""C07: the direction of an operator: T, rmatvec, matvec and explicit agree with calling it, whatever the chain of transpositions."""
from ..spec import table
from ..solverspec import fn
from ..opspec import OPERATORS, ARGS, GUARD

PAIRS = [
    ("op.T.T(x)", "op(x)", "__call__", "transposing twice does not give the operator back"),
    ("op.T.T.T(y)", "op.T(y)", "__call__", "transposing three times does not give the transpose"),
    ("(op.T, op(x))[1]", "op(x)", "_transpose", "taking the transpose changes the operator itself"),
    ("(op.T.T(x), op.T(y))[1]", "op.T(y)", "_transpose", "taking the transpose changes the operator itself"),
    ("op._matvec(v)", "op(v.reshape(op.dir_shape)).flatten()", "_matvec", "matvec is not the operator applied to the array with the direct shape"),
    ("op.T._matvec(v)", "op.T(v.reshape(op.adj_shape)).flatten()", "_matvec", "matvec of the transpose is not the adjoint applied to the array with the adjoint shape"),
    ("op.rmatvec(v)", "op.T(v.reshape(op.adj_shape)).flatten()", "rmatvec", "rmatvec is not the adjoint applied to the array with the adjoint shape"),
    ("op.T.rmatvec(v)", "op(v.reshape(op.dir_shape)).flatten()", "rmatvec", "rmatvec of the transpose is not the operator"),
    ("op._adjoint()(y)", "op.T(y)", "_adjoint", "the adjoint is not the transpose"),
    ("tuple(op.shape)", "(np.prod(op.adj_shape), np.prod(op.dir_shape))", "__init__", "the matrix shape is not (size of the adjoint space, size of the direct space)"),
    ("tuple(op.T.shape)", "(np.prod(op.dir_shape), np.prod(op.adj_shape))", "_transpose", "the transposed matrix shape is not swapped"),
    ("(op.T, tuple(op.shape))[1]", "(np.prod(op.adj_shape), np.prod(op.dir_shape))", "_transpose", "taking the transpose changes the shape of the operator itself"),
]


def rows():
    out = []
    for name, cls, ctor, opq in OPERATORS:
        if cls.endswith("TransformSVD"):  # the adjoint needs the bases of a previous decomposition
            ctor += "\nop(x2)"
        for e, r, meth, what in PAIRS:
            out.append((f"{name}: {e}", f"{cls}.{meth}", what, fn(ARGS, GUARD, ctor, ret=e), fn(ARGS, GUARD, ctor, ret=r), dict(opaque=opq)))
    ex = """
H = np.empty(({r}, {c}), dtype=op.dtype)
for i in range({c}):
    e = np.zeros(({c},))
    e[i] = 1
    H[:, i] = {o} * e
"""
    ctor = "op = corrct.operators.TransformFunctions((n, m), (m, n), A, Bf)"
    a, d = "np.prod(op.adj_shape)", "np.prod(op.dir_shape)"
    for o, r, c in (("op", a, d), ("op.T", d, a)):
        out.append((f"explicit matrix of {o}", "operators.BaseTransform.explicit", "a column of the explicit matrix is not the operator applied to the unit vector",
                    fn(ARGS, GUARD, ctor, ret=f"{o}.explicit()"), fn(ARGS, GUARD, ctor, ex.format(o=o, r=r, c=c), ret="H")))
    return out


def run(chk, prog):
    chk.rule("direction", "every route of applying an operator or its transpose (call, matvec, rmatvec, T, T.T, adjoint, explicit) evaluates to the same term as calling it")
    chk.need("direction", table(chk, prog, "direction", rows()))
