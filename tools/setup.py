#!/usr/bin/env python3
"""Nothing is built ahead: a check compiles what it needs from /repo. This only
confirms that the tools are there."""
import shutil, sys
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
print("missing: " + " ".join(missing) if missing else "ready")
sys.exit(1 if missing else 0)
