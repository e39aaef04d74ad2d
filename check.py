#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] | --replay FILE | --setup"""
import argparse
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vlib import engine, build  # noqa: E402


def known_findings(prop):
    p = os.path.join(engine.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", {}).get(prop, [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--dump", type=int, help="print generated case number N and exit")
    a = ap.parse_args()
    if a.replay:
        sys.exit(engine.replay_file(a.replay))
    if a.setup:
        print(build.build_april())
        for m in sorted(os.listdir("props")):
            if m.startswith("c") and m.endswith(".py"):
                mod = importlib.import_module("props." + m[:-3])
                if hasattr(mod, "setup"):
                    mod.setup()
        return
    name = a.prop.lower()
    mod = importlib.import_module("props." + name)
    if a.dump is not None:
        import random
        s = engine.Src(random.Random(engine.seed_for(a.seed, name, a.dump)))
        s.tier, s.index = a.tier, a.dump
        c = engine.make_case(mod.gen, s)
        if c is None:
            print("rejected")
            return
        for f, t in c["files"].items():
            print("=====", f)
            print(t)
        print(json.dumps(c["steps"], indent=1))
        return
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if hasattr(mod, "main"):
        mod.main(a.prop.upper(), a.seed, tier)
        return
    n = a.cases or (mod.QUICK if tier == "quick" else mod.THOROUGH)
    engine.campaign(a.prop.upper(), name, a.seed, tier, n,
                    300 if tier == "quick" else 1500, rule=mod.RULE,
                    assumptions=getattr(mod, "ASSUME", []), known=known_findings(a.prop.upper()))


if __name__ == "__main__":
    main()
