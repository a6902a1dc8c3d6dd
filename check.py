#!/usr/bin/env python3
"""check.py Cxx: decide one property on the current tree of /repo (MSA_REPO overrides the location)"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from msa.report import main  # noqa: E402

if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
