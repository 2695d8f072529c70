#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--replay FILE]: decide one property against /repo's working tree."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
