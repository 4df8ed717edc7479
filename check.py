#!/usr/bin/env python3-vt
"""check.py <property id>: generates and discharges the obligations of one property."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
from irvc import build, frame


def main():
    pid = sys.argv[1]
    try:
        m = importlib.import_module("props." + pid.lower())
        c = frame.Check(pid)
        try:
            m.goals(c)
        except frame.Found:
            pass
        return c.finish()
    except build.BuildError as e:
        print("ERROR: the library does not build:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
