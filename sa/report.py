"""Check driver: obligations, findings, known findings, evidence."""
import json
import os
import sys
import time
import traceback

from .repo import AnalysisBroken, Repo

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")
EVID = os.environ.get("DHG_EVIDENCE") or os.path.join(VERIF, "evidence")


class Check:
    def __init__(self, pid, repo):
        self.pid, self.repo = pid, repo
        self.rules = {}
        self.obl = 0
        self.ok = 0
        self.findings = {}  # key -> message
        self.undecided = []
        self.counts = {}
        self.analysed = set()
        self.assumptions = []
        self.samples = []

    def rule(self, rid, text):
        self.rules[rid] = text

    def discharge(self, what=None):
        self.obl += 1
        self.ok += 1
        if what and len(self.samples) < 400:
            self.samples.append(what)

    def finding(self, rule, construct, loc, msg):
        """construct is a line-independent name: function, call site role, path."""
        self.obl += 1
        key = f"{rule}:{construct}"
        if key not in self.findings:
            self.findings[key] = f"[{rule}] {loc} {construct}: {msg}"

    def und(self, what, why):
        self.obl += 1
        self.undecided.append(f"{what}: {why}")

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n):
        """Instance counts below the hand-confirmed minimum mean the rule went blind."""
        got = self.counts.get(name, 0)
        if any(k not in load_known(self.pid) for k in self.findings) or len(self.undecided) > 2:
            return  # a finding or an obligation left open ends its enumeration early; both are reported
        if got < n:
            raise AnalysisBroken(f"{self.pid}: only {got} instances of '{name}' found, at least {n} confirmed by hand")


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf8"):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, desc = rest.partition(" | ")
                out[key.strip()] = desc.strip()
    return out


def main(pid, fn, level, explanation, assumptions):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = None
    try:
        sys.setrecursionlimit(20000)
        repo = Repo()
        chk = Check(pid, repo)
        chk.tier = tier
        fn(chk)
    except Exception as e:
        if not isinstance(e, AnalysisBroken):
            traceback.print_exc()
        if chk is None or not any(k not in load_known(pid) for k in chk.findings):
            print(f"ANALYSIS-BROKEN property={pid} {type(e).__name__}: {e}")
            return 2
        chk.und("the rest of the analysis", f"{type(e).__name__}: {e}")
    known = load_known(pid)
    new = {k: m for k, m in chk.findings.items() if k not in known}
    for k, m in chk.findings.items():
        if k in known:
            print(f"KNOWN-FINDING: property={pid} {k} | {known[k]}")
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, f"{pid}.findings.txt")
    if new:
        with open(replay, "w") as f:
            for k, m in sorted(new.items()):
                f.write(m + "\n")
    elif os.path.exists(replay):
        os.remove(replay)
    for k, m in sorted(new.items()):
        print(m)
    counts = {"obligations": chk.obl, "discharged": chk.ok, "undecided": len(chk.undecided), "functions_analysed": len(chk.analysed)}
    counts.update({k: int(v) for k, v in chk.counts.items()})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": explanation,
            "counts": counts,
            "rules": chk.rules,
            "undecided": chk.undecided[:100],
            "discharged": chk.samples[:400],
            "functions": sorted(chk.analysed)[:400],
            "source_digest": repo.digest.hexdigest(),
        },
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
        "assumptions": assumptions + chk.assumptions,
    }
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {chk.obl} obligations, {chk.ok} discharged, {len(chk.undecided)} undecided, {len(chk.findings)} findings ({len(new)} new), "
          f"{len(chk.analysed)} functions, {ev['wall_s']}s")
    if new:
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    return 0
