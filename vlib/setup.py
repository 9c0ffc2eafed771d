#!/usr/bin/env python3
"""setup_cmd: lay out the header overlay the harnesses compile against."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
build.make_overlay()
print("overlay ready in", build.OVERLAY)
