#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--replay file]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import boot
boot.reexec(boot.sanitizer_env() if "C13" in sys.argv and "MC_BOOTED" not in os.environ else None)
import argparse, importlib


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    boot.make_scratch()
    from mc import engine
    prop = importlib.import_module("mc.props." + a.id.lower())
    return engine.main(prop, a.tier, a.replay)


if __name__ == "__main__":
    sys.exit(main())
