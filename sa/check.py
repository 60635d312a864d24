"""Check driver: obligations, findings, known findings, evidence, exit status."""
from __future__ import annotations
import json
import os
import sys
import time
import traceback
from .model import AnalysisBroken, Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: property="):
                rest = line[len("finding: property="):]
                pid, _, rest = rest.partition(" ")
                key, _, what = rest.partition(" :: ")
                out[(pid, key.replace("key=", "", 1).strip())] = what.strip()
    return out


class Check:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obligations = {}
        self.findings = {}
        self.notes = []
        self.undecided = []
        self.units = set()
        self.assumptions = []
        self.rules = []
        self.samples = []
        self.gone = []

    # ---- recording
    def rule(self, name, text):
        self.rules.append({"rule": name, "text": text})

    def ok(self, rule, construct=None, n=1):
        self.obligations[rule] = self.obligations.get(rule, 0) + n
        if construct is not None and len(self.samples) < 400:
            self.samples.append(f"{rule}: {construct}")

    def finding(self, rule, construct, site, msg):
        """site: (path, line, func)"""
        key = f"{rule}|{construct}"
        self.obligations[rule] = self.obligations.get(rule, 0) + 1
        if key not in self.findings:
            self.findings[key] = {"rule": rule, "construct": construct, "site": f"{site[0]}:{site[1]}" if site else "?", "function": site[2] if site and len(site) > 2 else "", "msg": msg}

    def undecide(self, rule, construct, why):
        self.undecided.append(f"{rule}: {construct}: {why}")

    def need(self, rule, n):
        """Vacuity guard: a rule that decides hardly any of the instances confirmed by hand is broken; single ones are reported as undecided."""
        have = self.obligations.get(rule, 0)
        if have < n:
            self.undecide(rule, "coverage", f"only {have} instances decided, {n} on the tree the check was written for")
        if have < max(1, n // 4) and not self.findings:
            raise AnalysisBroken(f"rule {rule}: only {have} instances decided, {n} on the tree the check was written for")

    # ---- finish
    def finish(self, prog=None):
        for g in sorted(set(self.gone)):
            self.undecide("anchors", g, "no such function or class in the package any more")
        known = load_known()
        viol, kf = [], []
        for key, f in sorted(self.findings.items()):
            (kf if (self.pid, key) in known else viol).append((key, f))
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "static analysis of the source: abstract interpretation over gated value numbers and a may-alias heap; every obligation below is decided for all inputs on all paths of the analysed functions",
                "functions_analysed": len(self.units),
                "obligations_total": sum(self.obligations.values()),
                "obligations_by_rule": self.obligations,
                "rules": self.rules,
                "undecided": self.undecided,
                "known_findings": [k for k, _ in kf],
                "violations_found": [dict(f, key=k) for k, f in viol],
                "instances_sample": self.samples,
                "functions": sorted(self.units),
                "source_digest": prog.digest.hexdigest()[:16] if prog else "",
            },
            "wall_s": round(time.time() - self.t0, 3),
            "assumptions": self.assumptions,
            "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{self.pid}.json")
        with open(path, "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1)
        print(f"[{self.pid}] tier={self.tier} functions={len(self.units)} obligations={sum(self.obligations.values())} "
              f"undecided={len(self.undecided)} findings={len(self.findings)} ({time.time() - self.t0:.1f}s)")
        for r, n in sorted(self.obligations.items()):
            print(f"   {r}: {n} instances")
        for u in self.undecided[:40]:
            print("   undecided:", u)
        for key, f in kf:
            print(f"KNOWN-FINDING: property={self.pid} {f['site']} {known[(self.pid, key)]}")
        if viol:
            rp = os.path.join(VERIF, "evidence", f"{self.pid}.violations.txt")
            with open(rp, "w", encoding="utf-8") as fh:
                for key, f in viol:
                    fh.write(f"{f['site']} in {f['function']}\n  rule: {f['rule']}\n  instance: {f['construct']}\n  {f['msg']}\n  key: {key}\n\n")
            for key, f in viol:
                print(f"   {f['site']} [{f['rule']}] {f['construct']}: {f['msg']}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        return 0


def main(argv):
    pid = argv[0]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    sys.setrecursionlimit(20000)
    chk, prog = Check(pid, tier), None
    try:
        import importlib
        mod = importlib.import_module(f"sa.props.{pid}")
        prog = Program()
        mod.run(chk, prog)
        return chk.finish(prog)
    except AnalysisBroken as e:
        for u in chk.undecided[:40]:
            print("   undecided:", u)
        print(f"ANALYSIS-BROKEN property={pid}: {e}")
        return 3
    except Exception as e:
        # a construct this analysis does not know: what was decided so far stands, the rest is reported as undecided
        traceback.print_exc()
        chk.undecide("analysis", pid, f"stopped early: {type(e).__name__}: {str(e)[:200]}")
        return chk.finish(prog)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
