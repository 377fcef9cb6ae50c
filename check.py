#!/usr/bin/env python3
"""check.py <PROPERTY-ID>: decide one property from the current sources of /repo."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import report  # noqa: E402


def run(pid):
    from sa.checks import REGISTRY
    mod, fn = REGISTRY[pid]
    m = importlib.import_module("sa.checks." + mod)
    info = getattr(m, "INFO", {}).get(pid, {})
    return report.main(pid, getattr(m, fn), info.get("level", "other"), info.get("explanation", ""), info.get("assumptions", []))


if __name__ == "__main__":
    if len(sys.argv) != 2:
        sys.exit("usage: check.py PROPERTY-ID")
    sys.exit(run(sys.argv[1]))
