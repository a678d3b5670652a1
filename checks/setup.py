#!/usr/bin/env python3
"""Nothing outside the installed toolchain is needed: check that it is there."""
import shutil
import sys

missing = [t for t in ("cargo", "rustc", "python3") if shutil.which(t) is None]
if missing:
    print("missing tools: " + " ".join(missing))
    sys.exit(1)
print("ok")
