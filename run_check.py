#!/usr/bin/env python3
"""run_check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, os, sys
sys.dont_write_bytecode = True
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ.setdefault("TF_ENABLE_ONEDNN_OPTS", "0")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ntnv import core
a = argparse.ArgumentParser()
a.add_argument("property")
a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
a.add_argument("--replay")
a = a.parse_args()
tier = a.tier if a.tier in ("quick", "thorough") else "quick"
rc = core.main(a.property.upper(), tier, a.seed, a.replay)
sys.stdout.flush(); sys.stderr.flush()
os._exit(rc)
