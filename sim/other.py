"""A run of checks/c16.py in an interpreter of its own."""

import json
import os
import sys

if __name__ == '__main__':
    from sim import lapack
    lapack.install(os.environ['SIM_BUILD'])
    from checks import c16
    h, v = json.load(sys.stdin)
    out = sys.stdout
    sys.stdout = sys.stderr
    json.dump(c16.execute(h, v), out)
