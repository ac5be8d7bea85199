#!/usr/bin/env python3
"""check.py ID... | --all   decide properties on the current tree of /repo (exit 0 held, 1 violated, 2 broken)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sfa import core

if __name__ == "__main__":
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    a = sys.argv[1:]
    if "--thorough" in a:
        tier = "thorough"
        a.remove("--thorough")
    if a == ["--all"]:
        from sfa import rules
        rules.load_all()
        a = sorted(core.REGISTRY)
    if a == ["--setup"]:
        from sfa import frontend
        frontend.exporter()
        frontend.gen_headers()
        sys.exit(0)
    rc = 0
    for p in a:
        rc = max(rc, core.run(p, tier))
    sys.exit(rc)
