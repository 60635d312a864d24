"""C01: caller-owned arrays, mappings and objects are never modified in place."""
from ..effects import analyse_all, handed_over, captured_attrs, dispatch_names, is_public, INPLACE_PROTOCOL
from ..model import funcqual

# objects that become part of the object they are given to, which sets them up; operators that keep their last decomposition
SETUP = ("BaseRegularizer", "Filter", "ProjectorBackend", "TransformSVD", "TransformDecimatedWavelet")


def run(chk, prog):
    chk.rule("param-write", "no store, in-place operator, out=, mutating method or attribute assignment reaches storage that may alias a parameter of an entry point")
    chk.rule("captured-write", "no method writes to an attribute that may share memory with a constructor argument")
    chk.rule("handed-write", "no constructor or later method call changes an object that was given to the constructor")
    chk.assumptions += ["NumPy/SciPy/scikit-image functions outside the modelled mutator table do not write to their arguments",
                        "callables passed by the user do not write to their arguments"]
    disp = dispatch_names(prog)
    cap = captured_attrs(prog)
    for m, c, f, it, v, st in analyse_all(prog):
        q = funcqual(m, c, f)
        entry = is_public(f.name) or f.name in disp
        chk.units |= it.analysed
        params = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
        allowed = set()
        if c is not None and f.name in INPLACE_PROTOCOL and len(params) > 1:
            allowed.add(params[1])
        for e in it.events:
            if e.kind == "mut":
                how = e.data["how"]
            elif e.kind == "setattr":
                how = f"attribute assignment .{e.data['attr']}"
            else:
                continue
            for o in sorted(e.data["origins"]):
                if o.startswith("param:") and entry:
                    p = o[6:].split(".")[0].split("[")[0]
                    if p in allowed:
                        chk.ok("param-write(protocol)", None)
                        continue
                    if c is not None and f.name in ("__exit__", "__enter__"):
                        continue
                    chk.finding("param-write", f"{q}({o[6:]}) in {e.site[2].split('.')[-1]}", e.site,
                                f"{how} may write to the caller's argument '{o[6:]}' of {q} (path {' -> '.join(e.stack)})")
                elif o.startswith("self.") and c is not None:
                    a = o[5:].split(".")[0]
                    for k in [c] + c.all_subclasses():
                        if (k.qual, a) in cap:
                            src = sorted(cap[(k.qual, a)])[0]
                            chk.finding("captured-write", f"{q}: self.{a} ({how.split(chr(39))[0].strip()})", e.site,
                                        f"{how} writes to self.{o[5:]}, which may share memory with constructor argument '{src[6:]}' of {k.name}")
                            break
        if entry:
            chk.ok("param-write", q, max(1, len(params)))
    nh, seen = 0, set()
    for k, p, d, m, it in handed_over(prog, SETUP):
        nh += 1
        for e in it.events:
            if e.kind in ("mut", "setattr"):
                for o in sorted(e.data["origins"]):
                    if o.startswith("given:"):
                        how = e.data["how"] if e.kind == "mut" else f"attribute assignment .{e.data['attr']}"
                        key = f"{k.name}({o[6:]}): {e.site[2]}: {how}"
                        if key not in seen:
                            seen.add(key)
                            chk.finding("handed-write", key, e.site, f"{how} changes the {d.name} given to {k.name} as '{p}', in {k.name}.{m or '__init__'} (path {' -> '.join(e.stack)})")
    chk.ok("handed-write", "object kinds given to constructors x methods called", nh)
    chk.need("handed-write", 100)
    for q, why in prog.skipped:
        chk.undecide("param-write", q, why)
    chk.ok("captured-write", None, len(cap))
    chk.need("param-write", 500)
    chk.need("captured-write", 20)
