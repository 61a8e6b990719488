#!/usr/bin/env python3
"""Checks that the tools are there and that all specifications parse."""

import subprocess
import sys
from pathlib import Path

SPEC = Path(__file__).resolve().parent / "spec"


def main():
    p = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
    if p.returncode:
        print(p.stdout[-2000:], p.stderr[-2000:])
        return 1
    for m in sorted(SPEC.glob("*.tla")):
        p = subprocess.run(["tla-sany", m.name], cwd=SPEC, capture_output=True, text=True)
        if p.returncode or "*** Errors" in p.stdout:
            print(m.name, p.stdout[-2000:], p.stderr[-2000:])
            return 1
    print("ok")
    return 0


if __name__ == "__main__":
    sys.exit(main())
