#!/usr/bin/env python3
"""check.py ID: decides one property for /repo's current tree (see DESIGN.md)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from vlib import *
import props

def main():
    prop = sys.argv[1]
    try:
        return props.CHECKS[prop]()
    except ToolError as e:
        print("TOOL-ERROR: %s" % e, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        print("TOOL-ERROR: the check itself failed", flush=True)
        return 2

if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
