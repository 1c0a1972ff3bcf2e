#!/usr/bin/env python3
"""check.py PROP — decides one property on /repo's current tree (see DESIGN.md)."""
import sys
sys.path.insert(0, '/verif/lib')
import pipeline
sys.exit(pipeline.main(sys.argv[1:]))
