#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]: see DESIGN.md"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from gcheck.engine import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
