#!/usr/bin/env python3
"""setup_cmd: builds the driver and the TLC operator overrides (both are rebuilt by every check when a source changed)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vf
vf.build_driver()
vf.build_python()
vf.build_java()
