#!/usr/bin/env python3
"""check.py <PROPERTY-ID>...: run the static check(s) that decide the properties."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import report


def main():
    ids = sys.argv[1:]
    if not ids:
        print(__doc__)
        return 2
    rc = 0
    for i in ids:
        mod = importlib.import_module('checks.%s' % i.lower())
        r = report.main(i, mod.run)
        rc = r if r not in (0, 1) or rc == 0 else rc
    return rc


if __name__ == '__main__':
    sys.exit(main())
