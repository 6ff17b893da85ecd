#!/usr/bin/env python3
"""run.py <PROPERTY-ID>: decide one property on /repo's current sources."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bzsa.check import main
sys.exit(main(sys.argv[1]))
