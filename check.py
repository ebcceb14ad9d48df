#!/usr/bin/env python3
"""check.py <property> [--tier=quick|thorough]: decide one property of /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from lib import main
import algebra, iters, misc

TABLE = {}
TABLE.update(algebra.TABLE)
TABLE.update(iters.TABLE)
TABLE.update(misc.TABLE)

if __name__ == "__main__":
    main(TABLE)
