"""C08: acquired resources are released on every path."""
import ast
from ..model import funcqual, ClassInfo
from ..resources import run_function, leaks, canonical, describe, TooComplex, RELEASERS, acquire_kind, dotted

KEEP = ("__init__", "__enter__", "__exit__", "__call__", "__del__")


def class_methods(k):
    out, seen = [], set()
    for c in k.mro():
        if isinstance(c, ClassInfo):
            for n, f in c.methods.items():
                if n not in seen and not c.is_abstract_method(n):
                    out.append((c, n, f))
                seen.add(n)
    return out


def self_attrs(nodes):
    return {x.attr for n in nodes for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"}


def relevant(ms, keeps):
    """The attributes that decide what happens to the kept ones."""
    names, meths, size = set(keeps), set(), 0
    while True:
        new = set()
        for c, n, f in ms:
            if self_attrs([f]) & names or {x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute)} & meths:
                meths.add(n)
                new |= self_attrs([x.test for x in ast.walk(f) if isinstance(x, (ast.If, ast.While, ast.IfExp))])
        if new <= names and len(meths) == size:
            return names
        names, size = names | new, len(meths)


def may_acquire(prog):
    """The functions that may acquire a resource, directly or through functions they call (by name)."""
    calls, out = {}, set()
    for m, c, f in prog.all_functions():
        calls[f] = set()
        for x in ast.walk(f):
            if isinstance(x, ast.Call):
                d = dotted(x.func)
                if d:
                    if acquire_kind(d, x):
                        out.add(f)
                    calls[f].add(d.split(".")[-1])
    while True:
        names = {f.name for f in out}
        new = {f for f, cs in calls.items() if cs & names} - out
        if not new:
            return out
        out |= new


def explore(chk, prog, k, keeps):
    """Typestate exploration of a class that keeps resources: every history of its public methods, failing anywhere."""
    ms = {n: (c, f) for c, n, f in class_methods(k)}
    todo = [n for n in ms if not n.startswith("_") or n in KEEP]
    names = relevant(class_methods(k), keeps)
    start = [(frozenset(), {})]
    if "__init__" in ms:
        c, f = ms["__init__"]
        res, an = run_function(prog, c.mod, c, f, k)
        start = [canonical(s, names) for kind, s, v in res if kind != "raise"]
    seen, work, n = {}, [], 0

    def push(h, a, how):
        key = (h, frozenset(a.items()))
        if key not in seen:
            seen[key] = how
            work.append((h, a, how))
    for h, a in start:
        push(h, a, ("__init__",))
    while work:
        h, a, how = work.pop()
        if len(seen) > 150:
            raise TooComplex("too many states of the object")
        for m in todo:
            if m == "__init__":
                continue
            c, f = ms[m]
            res, an = run_function(prog, c.mod, c, f, k, a, h)
            n += 1
            hist = " -> ".join(how + (m,))
            for t, kind, sure in leaks(res):
                key = f"{k.name}.{m}: {t.kind} ({t[1] if t[1].startswith('self.') else 'acquired here'})"
                msg = f"{describe(t)} is lost when {m} {'fails' if kind == 'raise' else 'returns'} (history {hist})"
                if sure:
                    chk.finding("kept", key, (c.mod.path, f.lineno, funcqual(c.mod, c, f)), msg)
                else:
                    chk.undecide("kept", key, "released element by element: " + msg)
            if m in RELEASERS:
                for kind, s, v in res:
                    for t in s.held:
                        if t in h:
                            key = f"{k.name}.{m}: {describe(t)}"
                            msg = f"{describe(t)} is still held after {m} {'failed' if kind == 'raise' else ''} (history {hist})"
                            chk.finding("released", key, (c.mod.path, f.lineno, funcqual(c.mod, c, f)), msg) if t not in s.maybe else chk.undecide("released", key, msg)
            if m == "__del__":
                continue
            for kind, s, v in res:
                push(*canonical(s, names), how + ((m + "!") if kind == "raise" else m,))
    return n, len(seen)


def run(chk, prog):
    chk.rule("paths", "every resource acquired in a function is released, returned or kept by its object on every path out of it, also when any call in between fails")
    chk.rule("kept", "a resource kept by an object is never forgotten before it is released, in any history of calls (failing or not)")
    chk.rule("released", "dispose, __exit__ and __del__ leave no resource of the object behind, in any state the object can be in, also when other calls fail")
    chk.assumptions += ["a failing release call has released its argument", "`except Exception` catches what calls raise", "all the elements of a container are iterated over"]
    keeping, acq = {}, may_acquire(prog)
    nf = nt = 0
    for m, c, f in prog.all_functions():
        q = funcqual(m, c, f)
        if f not in acq:
            nf += 1
            continue
        try:
            res, an = run_function(prog, m, c, f)
        except TooComplex as e:
            chk.undecide("paths", q, str(e))
            continue
        except RecursionError:
            chk.undecide("paths", q, "recursion")
            continue
        nf += 1
        mine = {t for t in an.sites}
        nt += len(mine)
        if mine:
            chk.units.add(q)
        for t, kind, sure in leaks(res):
            key = f"{q}: {t.kind}"
            msg = f"{describe(t)} acquired at line {t[2]} is neither released nor kept when {q} {'fails' if kind == 'raise' else 'returns'}"
            if sure:
                chk.finding("paths", key, (m.path, t[2], q), msg)
            else:
                chk.undecide("paths", key, "released element by element: " + msg)
        if c is not None:
            for kind, s, v in res:
                for a, val in s.attrs.items():
                    for t in val[0]:
                        keeping.setdefault(c, {}).setdefault(a, t)
        for kind, s, v in res:
            if kind == "return" and v is not None and v[0]:
                chk.ok("paths", f"{q}: hands its resource over to the caller")
    ns = nh = 0
    done = set()
    for c0, attrs in sorted(keeping.items(), key=lambda x: x[0].qual):
        for k in [c0] + c0.all_subclasses():
            if k in done or k.is_abstract:
                continue
            done.add(k)
            names = {n for _, n, _ in class_methods(k)}
            if not names & set(RELEASERS):
                for a, t in sorted(attrs.items()):
                    chk.finding("released", f"{k.name}: {a}", (t[1], t[2], k.name), f"{k.name} keeps a {describe(t)} in self.{a}, and has no method to release it")
                continue
            try:
                n, s = explore(chk, prog, k, attrs)
            except TooComplex as e:
                chk.undecide("kept", k.name, str(e))
                continue
            nh += n
            ns += s
            chk.ok("kept", f"{k.name}: self.{', self.'.join(sorted(attrs))}", n)
            chk.ok("released", f"{k.name}: {s} states", s)
    chk.ok("paths", "functions", nf)
    chk.ok("paths", "acquisitions on their paths", nt)
    chk.need("paths", 400)
    chk.need("kept", 20)
    chk.need("released", 4)
