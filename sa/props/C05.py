"""C05: solver bookkeeping: residual histories, iteration counts, stopping by tolerance, and the solution that comes with them."""
from ..spec import table
from ..solverspec import Opts, OPQ, PROJ, sirt, mlem, pdhg, fista, sart


def rows():
    out = []
    W = "the recorded information does not describe the returned solution"
    for masks in (False, True):
        for test, tol in ((False, False), (True, False), (False, True), (True, True)):
            for nm, build, kw in (("SIRT", sirt, [{}, dict(term="kl")]), ("MLEM", mlem, [dict(term="kl"), dict(term="kl", bg=True)]),
                                  ("PDHG", pdhg, [{}, dict(precondition=False), dict(term="kl", precondition=False)]), ("FISTA", fista, [{}, dict(precondition=False)])):
                for k in kw:
                    o = Opts(masks=masks, test=test, tol=tol, what="both", **k)
                    out.append((f"{nm}{o.label()}{'' if o.precondition else ', not preconditioned'}", f"solvers.{nm}.__call__", W, *build(o)))
        for tol in (False, True):
            for proj in ("", "p"):
                o = Opts(masks=masks, tol=tol, what="both")
                out.append((f"SART{o.label()}{', projector' if proj else ''}", "solvers.SART.__call__", W, *sart(o, proj), dict(opaque=OPQ + PROJ)))
    return out


def run(chk, prog):
    chk.rule("bookkeeping", "the returned solution, residual histories, initial residuals, iteration count and tolerance are, as terms, those of the reference iteration with its bookkeeping")
    n = table(chk, prog, "bookkeeping", rows(), opaque=OPQ)
    chk.need("bookkeeping", n)
