#!/usr/bin/env python3
"""Nothing is installed: checks build from source on every run. Confirms that the tools they use are present."""
import shutil, sys
missing = [t for t in ("clang++", "g++", "python3") if not shutil.which(t)]
print("missing tools: " + ", ".join(missing) if missing else "tools present")
sys.exit(1 if missing else 0)
