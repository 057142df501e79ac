#!/usr/bin/env python3
"""Build everything the checks need from the committed files (setup_cmd)."""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
check.build_java()
check.build_harness([j for jobs in check.CHECKS.values() for j in jobs])
print("ready")
