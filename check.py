"""Entry point: python check.py <property id> [quick|thorough | --replay FILE | --worker ...]"""
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
# hypothesis is not installed in the project's environment: use the one of the tool environment,
# at the very end of the path so that numpy, scipy, ... stay the project's
for extra in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if os.path.isdir(extra) and extra not in sys.path:
        sys.path.append(extra)
from vlib import harness
sys.exit(harness.main(sys.argv[1:]))
