"""Scenario comparison: a short driver text that composes the package's public interface, against a reference text of the same quantity.

Neither text is executed: both are evaluated by the abstract interpreter of this framework (value numbering over gated terms), the
package's functions being inlined from their current source.  Internal names, statement order and helper functions do not matter.
"""
from __future__ import annotations
import ast
import textwrap
from .interp import Interp, State, Func, Abort, InstCell
from .model import Module, AnalysisBroken, PKG
from .refcmp import Side, compare_sides
from .terms import sym, const

PRE = "import numpy as np\nimport scipy as sp\nimport corrct\n"


def driver_module(src, name="driver"):
    src = PRE + textwrap.dedent(src)
    tree = ast.parse(src)
    m = Module(name, f"<{name}>", tree, src, False)
    for s in tree.body:
        if isinstance(s, ast.FunctionDef):
            m.functions[s.name] = s
        elif isinstance(s, ast.Import):
            for a in s.names:
                m.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                m.imports[a.asname or a.name] = f"{s.module}.{a.name}"
    return m


def anchors_of(src):
    """Dotted corrct.* names used in a driver text."""
    out = set()
    for n in ast.walk(ast.parse(textwrap.dedent(src))):
        if isinstance(n, ast.Attribute):
            b = n
            while isinstance(b, ast.Attribute):
                b = b.value
            if not isinstance(b, ast.Name):
                continue
            d = ast.unparse(n)
            if d.startswith(PKG + "."):
                out.add(d)
    return {d for d in out if not any(e != d and e.startswith(d + ".") for e in out)}


def side(prog, src, name, opaque=(), preset=None, linear=()):
    m = driver_module(src, name)
    fns = list(m.functions.values())
    return Side(prog, m, None, fns[-1], opaque, preset)


def scenario(chk, prog, name, driver, reference, rule, what, site=None, opaque=(), preset=None, only=None, ignore=(), extra_vocab=(), post=None, linear=(), twin=False):
    """`site`: the package function to report ('mod.func' or 'mod.Class.method')."""
    loc = ("?", 0, name)
    if site:
        r = prog.find_func(site)
        if r is not None:
            loc = (r[0].path, r[2].lineno, site)
        else:
            k, v = prog.resolve(f"{PKG}.{site}")
            loc = ((v.mod.path, v.node.lineno) if k == "class" else (site, 0)) + (site,)
    for d in anchors_of(driver):
        k, v = prog.resolve(d)
        if k == "ext":
            head, _, tail = d.rpartition(".")
            k2, c = prog.resolve(head)
            if k2 == "class" and (c.find(tail) or prog.find_func(d[len(PKG) + 1:])):
                continue
            chk.gone.append(d)
            return None
    try:
        a = side(prog, driver, "driver", opaque, preset)
        b = side(prog, reference, "reference", opaque, preset)
    except RecursionError:
        chk.undecide(rule, name, "recursion limit")
        return None
    except Exception as e:  # a construct this interpreter cannot evaluate: this row is not decided
        chk.undecide(rule, name, f"not analysable ({type(e).__name__}: {str(e)[:80]})")
        return None
    chk.units |= {u for u in a.it.analysed if not u.startswith("driver")}
    if a.v is None and b.v is None and all(any(e.kind == "raise" and not e.data.get("caught") for e in x.it.events) for x in (a, b)):
        if any(e.kind in ("noattr", "unbound") and e.data.get("definite") for x in (a, b) for e in x.it.events):
            chk.undecide(rule, name, "a name or attribute that is never defined")
            return None
        chk.ok(rule, f"{name}: always rejected")
        return True
    if a.v is None and b.v is None:
        chk.undecide(rule, name, "neither the implementation nor the reference returns")
        return None
    if b.v is None and a.v is not None and "rejects" in (only or ()) and any(e.kind == "raise" and not e.data.get("caught") for e in b.it.events):
        only = ["rejects"]  # what it returns where it should not return at all is no question of its own
    if "rejects" in (only or ()):
        for x in (a, b):
            x.obs["rejects"] = x.rejects if x.v is not None else const("an error")
    return compare_sides(chk, a, b, name, rule, what, loc, only, ignore, (*extra_vocab, *opaque), post, linear, twin)


def table(chk, prog, rule, rows, **kw):
    """rows: (name, site, what, driver, reference[, options])."""
    n = 0
    for row in rows:
        name, site, what, drv, ref = row[:5]
        opt = dict(kw, **(row[5] if len(row) > 5 else {}))
        opt.setdefault("only", ["return"] + (["rejects"] if opt.pop("rejects", True) else []))
        scenario(chk, prog, name, drv, ref, rule, what, site=site, **opt)
        n += 1
    return n
