"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

G = "dhg/structure/graphs/graph.py"
DG = "dhg/structure/graphs/directed_graph.py"
BG = "dhg/structure/graphs/bipartite_graph.py"
HG = "dhg/structure/hypergraphs/hypergraph.py"
GB = "dhg/structure/base.py"
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=()):
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None},
    })


ALLS = [G, DG, BG, HG, "dhg/structure/graphs/base.py", "dhg/structure/hypergraphs/base.py"]
exec(open(os.path.join(os.path.dirname(__file__), "props_data.py")).read())


def main():
    from sa.checks import REGISTRY
    import importlib
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            for fn in p["anchors"]["files"]:
                assert os.path.exists(os.path.join("/repo", fn)), fn
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        pid = p["id"]
        if pid in REGISTRY:
            mod, fn = REGISTRY[pid]
            info = importlib.import_module(f"sa.checks.{mod}").INFO[pid]
            checks.append({
                "property": pid,
                "quick_cmd": f"python3 check.py {pid}",
                "thorough_cmd": f"python3 check.py {pid}",
                "technique": info.get("technique", "interprocedural value-numbering dataflow over the syntax trees"),
                "level": info.get("level", "other"),
                "level_note": info["note"],
            })
        else:
            na.append({"property": pid, "reason": NA.get(pid, "check not built yet (work in progress); no runtime substitute is registered")})
    m = {
        "version": 1,
        "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 9)\"",
        "checks": checks,
        "not_applicable": na,
        "notes": "Every check parses /repo/dhg afresh and decides the property from the syntax trees; nothing of /repo is imported or executed. See DESIGN.md.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
