#!/usr/bin/env python3
"""python3 check.py PROPERTY [--tier quick|thorough]: decides one property of
/repo's current source by static analysis."""
import sys
from sa.main import main

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
