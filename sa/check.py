#!/usr/bin/env python3
"""check.py <property id> : decides one property on /repo's current source."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import framework

if __name__ == "__main__":
    sys.exit(framework.main(sys.argv[1].upper(), os.environ.get("VERIF_TIER", "quick") or "quick"))
